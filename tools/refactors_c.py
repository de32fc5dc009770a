"""Behaviour-preserving refactorings, third set (development tool): every check must stay quiet on them."""
AT, D3, UT, DI, S, EX, K, SD, CA, SP, P, N, O, MA = ["atrcopy/%s.py" % x for x in "ataridos dos33 utils diskimages segments executables kboot standard_delivery cartridge spartados parsers __init__ container mame".split()]
R = {"c": [
# ---- ataridos
(AT, """        hi, lo = divmod(value, 256)
        self.data[index + 0] = (self.file_num << 2) | (hi & 0x03)
        self.data[index + 1] = lo
        self.data[index + 2] = self.used
""", """        trailer = self.data[index:]
        trailer[:] = self._link_bytes(int(value))
"""),
(AT, """class AtariDosVTOC(VTOC):
    def parse_segments""", """    def _link_bytes(self, value):
        return [(self.file_num << 2) | ((value >> 8) & 0x03), value & 0xff, self.used]


class AtariDosVTOC(VTOC):
    def parse_segments"""),
(AT, """        packed = np.packbits(self.sector_map[0:720])
        self.vtoc1[0x0a:0x64] = packed
        hi, lo = divmod(int(self.sector_map[0:720].sum()), 256)
        self.vtoc1[3:5] = [lo, hi]
""", """        usable = self.sector_map[:720]
        self.vtoc1[0x0a:0x64] = np.packbits(usable)
        free = int(np.count_nonzero(usable))
        self.vtoc1[3:5] = np.frombuffer(free.to_bytes(2, "little"), dtype=np.uint8)
"""),
(AT, """        num = 361
        for sector in self.sectors:
            sector.sector_num = num
            num += 1
""", """        for num, sector in enumerate(self.sectors, 361):
            sector.sector_num = num
"""),
(AT, """        self.opened_output = (flag&0x01) > 0
        self.dos_2 = (flag&0x02) > 0
        self.mydos = (flag&0x04) > 0
        self.is_dir = (flag&0x10) > 0
        self.locked = (flag&0x20) > 0
        self.in_use = (flag&0x40) > 0
        self.deleted = (flag&0x80) > 0
        self.num_sectors = int(values[1])
""", """        for attr, bit in self.flag_bits.items():
            setattr(self, attr, bool(flag & bit))
        self.num_sectors = int(values[1])
"""),
(AT, """        flag = (int(self.flag) & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
        values[0] = flag
""", """        flag = int(self.flag) & 0x08
        for attr, bit in self.flag_bits.items():
            if getattr(self, attr):
                flag |= bit
        values[0] = flag
"""),
(AT, """    def __init__(self, image, file_num=0, bytes=None):
        Dirent.__init__(self, file_num)
        self.flag = 0
""", """    flag_bits = dict(opened_output=0x01, dos_2=0x02, mydos=0x04, is_dir=0x10, locked=0x20, in_use=0x40, deleted=0x80)

    def __init__(self, image, file_num=0, bytes=None):
        super().__init__(file_num)
        self.flag = 0
"""),
(AT, """        if not image.header.sector_is_valid(self.starting_sector):
            return False
        if self.num_sectors < 0 or self.num_sectors > image.header.max_sectors:
            return False
        return True
""", """        header = image.header
        return bool(header.sector_is_valid(self.starting_sector) and 0 <= self.num_sectors <= header.max_sectors)
"""),
(AT, """        sector_list = BaseSectorList(image.header)
        self.start_read(image)
        while True:
            sector = WriteableSector(image.header.sector_size, None, self.current_sector)
            sector_list.append(sector)
            _, last, _, _ = self.read_sector(image)
            if last:
                break
        return sector_list
""", """        header = image.header
        sector_list = BaseSectorList(header)
        self.start_read(image)
        last = False
        while not last:
            sector_list.append(WriteableSector(header.sector_size, num=self.current_sector))
            last = self.read_sector(image)[1]
        return sector_list
"""),
(AT, """        file_num = raw[-3] >> 2
        if file_num != self.file_num:
            raise errors.FileNumberMismatchError164("Expecting file %d, found %d" % (self.file_num, file_num))
        self.sectors_seen.add(self.current_sector)
        next_sector = ((raw[-3] & 0x3) << 8) + raw[-2]
        if next_sector in self.sectors_seen:
            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
        self.current_sector = next_sector
        num_bytes = raw[-1]
        if num_bytes > len(raw) - 3:
            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
        return raw[0:num_bytes], num_bytes

    def set_values""", """        hi, lo, num_bytes = (int(v) for v in raw[-3:])
        file_num, hi = divmod(hi, 4)
        if file_num != self.file_num:
            raise errors.FileNumberMismatchError164("Expecting file %d, found %d" % (self.file_num, file_num))
        return self.follow_link(raw, 256 * hi + lo, num_bytes)

    def follow_link(self, raw, next_sector, num_bytes):
        self.sectors_seen.add(self.current_sector)
        if next_sector in self.sectors_seen:
            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
        self.current_sector = next_sector
        if num_bytes > len(raw) - 3:
            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
        return raw[:num_bytes], num_bytes

    def set_values"""),
(AT, """        self.sectors_seen.add(self.current_sector)
        next_sector = (raw[-3] << 8) + raw[-2]
        if next_sector in self.sectors_seen:
            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
        self.current_sector = next_sector
        num_bytes = raw[-1]
        if num_bytes > len(raw) - 3:
            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
        return raw[0:num_bytes], num_bytes


class Xex""", """        next_sector = int.from_bytes(raw[-3:-1].tobytes(), "big")
        return self.follow_link(raw, next_sector, int(raw[-1]))


class Xex"""),
(AT, """        if b'.' in filename:
            filename, ext = filename.split(b'.', 1)
        else:
            ext = b'   '
""", """        filename, dot, ext = filename.partition(b'.')
        if not dot:
            ext = b' ' * 3
"""),
(AT, """        while i < len(dir_bytes):
            dirent = AtariDosDirent(self, num, dir_bytes[i:i+16])
            if dirent.mydos:
                dirent = MydosDirent(self, num, dir_bytes[i:i+16])

            if dirent.in_use:
                files.append(dirent)
                if not dirent.is_sane:
                    self.all_sane = False
                    log.debug("dirent %d not sane: %s" % (num, dirent))
            elif dirent.flag == 0:
                break
            if directory is not None:
                directory.set(num, dirent)
            i += 16
            num += 1
        self.files = files
""", """        for num, raw_dirent in enumerate(dir_bytes.reshape(-1, 16)):
            dirent_class = MydosDirent if raw_dirent[0] & 0x04 else AtariDosDirent
            dirent = dirent_class(self, num, raw_dirent)
            if not dirent.in_use and dirent.flag == 0:
                break
            if dirent.in_use:
                files.append(dirent)
                self.all_sane = self.all_sane and dirent.is_sane
            if directory is not None:
                directory.set(num, dirent)
        self.files = files
"""),
(AT, """            if len(b[pos:pos + 4]) < 4:
                self.segments.append(ObjSegment(r[pos:pos + 4], 0, 0, 0, len(b[pos:pos + 4]), "Short Segment Header"))
                break
""", """            remaining = self.size - pos
            if remaining < 4:
                self.segments.append(ObjSegment(r[pos:pos + 4], 0, 0, 0, remaining, "Short Segment Header"))
                break
"""),
(AT, """            count = end - start + 1
            found = len(b[pos + 4:pos + 4 + count])
            if found < count:
                self.segments.append(ObjSegment(r[pos + 4:pos + 4 + count], pos, pos + 4, start, end, "Incomplete Data"))
                break
            if start == 0x2e0 and count > 1:
                segment_cls = RunAddressSegment
            else:
                segment_cls = ObjSegment
            self.segments.append(segment_cls(r[pos + 4:pos + 4 + count], pos, pos + 4, start, end))
            pos += 4 + count
            style_pos = pos
""", """            first_byte = pos + 4
            count = int(end) - int(start) + 1
            after = first_byte + count
            payload = r[first_byte:after]
            if len(payload) < count:
                self.segments.append(ObjSegment(payload, pos, first_byte, start, end, "Incomplete Data"))
                break
            is_run_address = start == 0x2e0 and count >= 2
            segment_cls = RunAddressSegment if is_run_address else ObjSegment
            self.segments.append(segment_cls(payload, pos, first_byte, start, end))
            pos = style_pos = after
"""),
(AT, """        paragraphs = self.image_size // 16
        parshigh, pars = divmod(paragraphs, 256*256)
        values[1] = pars
        values[2] = self.sector_size
        values[3] = parshigh
        values[4] = self.crc
        values[5] = self.unused
        values[6] = self.flags
        return raw
""", """        paragraphs = self.image_size >> 4
        values['wPars'] = paragraphs & 0xffff
        values['btParsHigh'] = paragraphs >> 16
        values['wSecSize'] = self.sector_size
        values['dwCRC'] = self.crc
        values['unused'] = self.unused
        values['btFlags'] = self.flags
        return raw
"""),
(AT, """        if sector <= self.num_initial_sectors:
            pos = self.initial_sector_size * (sector - 1)
            size = self.initial_sector_size
        else:
            pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
            size = self.sector_size
        pos += self.header_offset
        return pos, size
""", """        index = sector - 1
        short = min(index, self.num_initial_sectors)
        size = self.initial_sector_size if index < self.num_initial_sectors else self.sector_size
        pos = self.header_offset + short * self.initial_sector_size + (index - short) * self.sector_size
        return pos, size
"""),
(AT, """        code = values[0]
        if code == 0 or code == 2:
            num = 1
        else:
            num = (code * 2) - 3
""", """        code = values['code']
        num = 1 if code in (0, 2) else (code * 2) - 3
"""),
# ---- utils
(UT, """        free = np.nonzero(self.sector_map)[0]
        if len(free) > 0:
            num = free[0]
            if _xd: log.debug("Found sector %d free" % num)
            self.sector_map[num] = 0
            return num
        raise errors.NotEnoughSpaceOnDisk("No space left in VTOC")
""", """        if not self.sector_map.any():
            raise errors.NotEnoughSpaceOnDisk("No space left in VTOC")
        num = int(self.sector_map.argmax())
        self.sector_map[num] = 0
        return num
"""),
(UT, """        free = np.where(self.sector_map == 1)[0]
        return len(free)
""", """        return int((self.sector_map == 1).sum())
"""),
(UT, """        count = len(data)
        if self.ptr + count > self.sector_size:
            count = self.space_remaining
        self.data[self.ptr:self.ptr + count] = data[0:count]
        self.ptr += count
        self.used += count
        return data[count:]
""", """        count = min(len(data), self.space_remaining)
        head, tail = data[:count], data[count:]
        start, self.ptr = self.ptr, self.ptr + count
        self.data[start:self.ptr] = head
        self.used += count
        return tail
"""),
(UT, """        used = set()
        d = list(self.dirents.items())
        if d:
            d.sort()
            for i, dirent in d:
                # an entry that is not in use may still belong to a file, e.g.
                # DOS 2.5 marks files above sector 719 as not in use for DOS 2
                if dirent.deleted and not dirent.in_use:
                    return i
                used.add(i)
            if self.num_dirents > 0 and (len(used) >= self.num_dirents):
                raise errors.NoSpaceInDirectory()
            i += 1
        else:
            i = 0
        used.add(i)
        return i
""", """        indexes = sorted(self.dirents)
        reusable = (i for i in indexes if self.dirents[i].deleted and not self.dirents[i].in_use)
        index = next(reusable, None)
        if index is not None:
            return index
        if 0 < self.num_dirents <= len(indexes):
            raise errors.NoSpaceInDirectory()
        return indexes[-1] + 1 if indexes else 0
"""),
(UT, """        for index, dirent in d:
            for missing in range(current, index):
                if _xd: log.debug("Encoding empty dirent at %d" % missing)
                data = self.encode_empty()
                self.store_encoded(data)
            if _xd: log.debug("Encoding dirent: %s" % dirent)
            data = self.encode_dirent(dirent)
            self.store_encoded(data)
            current = index + 1
        self.finish_encoding(image)
""", """        known = dict(d)
        for index in range(current, d[-1][0] + 1 if d else 0):
            if index in known:
                data = self.encode_dirent(known[index])
            else:
                data = self.encode_empty()
            self.store_encoded(data)
        self.finish_encoding(image)
"""),
(UT, """        file_length = 0
        last_sector = None
        for sector, sector_num in zip(sector_list.sectors, order):
            sector.sector_num = sector_num
            sector.file_num = dirent.file_num
            file_length += sector.used
            if last_sector is not None:
                last_sector.next_sector_num = sector_num
            last_sector = sector
        if last_sector is not None:
            last_sector.next_sector_num = 0
        sector_list.file_length = file_length
""", """        links = order[1:] + [0]
        for sector, sector_num, next_num in zip(sector_list.sectors, order, links):
            sector.sector_num = sector_num
            sector.file_num = dirent.file_num
            sector.next_sector_num = next_num
        sector_list.file_length = sum(s.used for s in sector_list.sectors)
"""),
# ---- dos33
(D3, """        index = 0xc
        sector_list = []
        while index < self.header.sector_size:
            t = self.data[index]
            s = self.data[index + 1]
            sector_list.append(self.header.sector_from_track(t, s))
            index += 2
        return sector_list
""", """        pairs = self.data[0xc:self.header.sector_size].reshape((-1, 2))
        return [self.header.sector_from_track(int(t), int(s)) for t, s in pairs]
"""),
(D3, """        packed = np.packbits(self.sector_map[self.vtoc_bit_reorder_index])
        vtoc = self.vtoc[0x38:].reshape((-1, 4))
        packed = packed.reshape((-1, 2))
        vtoc[:,:2] = packed[:,:]

        # FIXME
        self.vtoc[0x38:] = vtoc.flatten()
""", """        tracks = self.sector_map[:self.max_sectors].reshape((self.max_tracks, 16))
        packed = np.packbits(tracks[:, ::-1]).reshape((-1, 2))
        for track in range(self.max_tracks):
            offset = 0x38 + 4 * track
            self.vtoc[offset:offset + 2] = packed[track]
"""),
(D3, """        n = min(len(self.filename), 30)
        data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
        data[3+n:] = ord(' ') | 0x80
""", """        padded = self.filename[:30].ljust(30).encode("ascii")
        data[3:0x21] = np.frombuffer(padded, dtype=np.uint8) | 0x80
        data[0x21:] = 0xa0
"""),
(D3, """        sector_map = []
        seen = set()
        while sector_num > 0:
            image.assert_valid_sector(sector_num)
            if sector_num in seen:
                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
            seen.add(sector_num)
""", """        sector_map = []
        seen = []
        while sector_num > 0:
            image.assert_valid_sector(sector_num)
            if any(sector_num == s for s in seen):
                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
            seen.append(sector_num)
"""),
(D3, """            i = 0xb
            while i < 256:
                dirent = Dos33Dirent(self, num, values[i:i+0x23])
                if dirent.track == 0 and not dirent.deleted:
                    # entry has never been used
                    break
                if not dirent.is_sane:
                    log.warning("Illegally formatted directory entry %s" % dirent)
                    self.all_sane = False
                elif not dirent.deleted:
                    files.append(dirent)
                if directory is not None:
                    directory.set(num, dirent)
                if _xd: log.debug("valid directory entry %s" % dirent)
                i += 0x23
                num += 1
        self.files = files
""", """            for i in range(0xb, 256, 0x23):
                dirent = Dos33Dirent(self, num, values[i:i+0x23])
                never_used = dirent.track == 0 and dirent.in_use
                if never_used:
                    break
                if dirent.is_sane and dirent.in_use:
                    files.append(dirent)
                elif not dirent.is_sane:
                    self.all_sane = False
                if directory is not None:
                    directory.set(num, dirent)
                num += 1
        self.files = files
"""),
(D3, """        sectors = BaseSectorList(image.header)
        sectors.extend(self.track_sector_list)
        # every sector in the lists is in use, whatever the sector count in the
        # catalog says; 0/0 is an unused entry and not the boot sector
        for ts in self.track_sector_list:
            for sector_num in ts.get_tslist():
                if sector_num > 0:
                    sector = WriteableSector(image.header.sector_size, None, sector_num)
                    sectors.append(sector)
        return sectors
""", """        header = image.header
        sectors = BaseSectorList(header)
        sectors.extend(self.track_sector_list)
        nums = [n for ts in self.track_sector_list for n in ts.get_tslist()]
        sectors.extend(WriteableSector(header.sector_size, num=n) for n in nums if n != 0)
        return sectors
"""),
# ---- diskimages
(DI, """        pos, size = self.header.get_pos(start)
        if end is None:
            end = start
        while start < end:
            start += 1
            _, more = self.header.get_pos(start)
            size += more
        return slice(pos, pos + size)
""", """        first, size = self.header.get_pos(start)
        last = start if end is None else end
        size += sum(self.header.get_pos(n)[1] for n in range(start + 1, last + 1))
        return slice(first, first + size)
"""),
(DI, """        start = 0
        count = 0
        for index in range(sector, sector + num):
            pos, size = self.header.get_pos(index)
            if count == 0:
                start = pos
            count += size
        return start, count
""", """        places = [self.header.get_pos(index) for index in range(sector, sector + num)]
        if not places:
            return 0, 0
        return places[0][0], sum(size for _, size in places)
"""),
(DI, """        index = 0
        # an empty file still needs a sector to be the target of its dirent
        while index < len(data) or len(sectors) == 0:
            count = min(self.header.payload_bytes, len(data) - index)
            sector = self.header.create_sector(data[index:index + count])
            sectors.append(sector)
            index += count
        return sectors
""", """        payload = self.header.payload_bytes
        # an empty file still needs a sector to be the target of its dirent
        for index in range(0, max(len(data), 1), payload):
            sectors.append(self.header.create_sector(data[index:index + payload]))
        return sectors
"""),
(DI, """        return (self.max_sectors < 0) | (sector >= self.starting_sector_label and sector < (self.max_sectors + self.starting_sector_label))
""", """        if self.max_sectors < 0:
            return True
        return 0 <= sector - self.starting_sector_label < self.max_sectors
"""),
# ---- executables
(EX, """    for s in segments:
        total += 4 + len(s)
        if s.origin == 0x2e0:
            runad = True
    if not runad:
""", """    total += sum(4 + len(s) for s in segments)
    runad = any(s.origin == 0x2e0 for s in segments)
    if not runad:
"""),
(EX, """            found = False
            for s in segments:
                if run_addr >= s.origin and run_addr < s.origin + len(s):
                    found = True
                    break
            if not found:
                raise errors.InvalidBinaryFile("Run address points outside data segments")
        else:
            run_addr = segments[0].origin
""", """            if not any(s.origin <= run_addr < s.origin + len(s) for s in segments):
                raise errors.InvalidBinaryFile("Run address points outside data segments")
        else:
            run_addr = segments[0].origin
"""),
(EX, """    origin = 100000000
    last = -1

    for s in segments:
        origin = min(origin, s.origin)
        last = max(last, s.origin + len(s))
        if _xd: log.debug("contiguous bytes needed: %04x - %04x" % (origin, last))
""", """    origin = min((s.origin for s in segments), default=100000000)
    last = max((s.origin + len(s) for s in segments), default=-1)
"""),
# ---- kboot
(K, """        count = image.bytes[i] + 256 * image.bytes[i+1] + 256 * 256 *image.bytes[i + 2]
""", """        lo, mid, hi = (int(b) for b in image.bytes[i:i + 3])
        count = lo | mid << 8 | hi << 16
"""),
(K, """    num_sectors = (xex_size + sec_size - 1) // sec_size
    padded_size = num_sectors * sec_size
    if xex_size < padded_size:
        bytes = np.append(bytes, np.zeros([padded_size - xex_size], dtype=np.uint8))
    paragraphs = padded_size // 16
""", """    padding = -xex_size % sec_size
    if padding:
        bytes = np.concatenate((bytes, np.zeros(padding, dtype=np.uint8)))
"""),
# ---- cartridge
(CA, """            self.banks = []
            self.bank_size, offset, self.bank_origin = c[6:9]
            s = self.cart_size - self.main_size
            while s > 0:
                self.banks.append(offset)
                offset += self.bank_size
                s -= self.bank_size
""", """            self.bank_size, first, self.bank_origin = c[6:9]
            banked = self.cart_size - self.main_size
            num = -(-banked // self.bank_size)
            self.banks = [first + i * self.bank_size for i in range(num)]
"""),
# ---- spartados
(SP, """        m = None
        seen = set()
        while sector > 0:
            if sector in seen:
                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
            seen.add(sector)
            b, _ = self.get_sectors(sector)
            sector, prev = b[0:4].view(dtype='<u2')
            if m is None:
                m = np.copy(b[4:].view(dtype='<u2'))
            else:
                m = np.hstack((m, b[4:].view(dtype='<u2')))
        if m is None:
            raise errors.InvalidFile("Empty sector map")
        return m
""", """        maps = []
        seen = set()
        while sector > 0:
            if sector in seen:
                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
            seen.add(sector)
            words = self.get_sectors(sector)[0].view(dtype='<u2')
            sector = words[0]
            maps.append(words[2:])
        if not maps:
            raise errors.InvalidFile("Empty sector map")
        return np.concatenate(maps)
"""),
# ---- commands
(N, """    changed = False
    for name in files:
        with open(name, "rb") as fh:
            data = fh.read()
        name = os.path.basename(name)
        if save_file(image, name, filetype, data):
            changed = True
    if changed:
        image.save()
""", """    saved = []
    for path in files:
        with open(path, "rb") as fh:
            data = fh.read()
        saved.append(save_file(image, os.path.basename(path), filetype, data))
    if any(saved):
        image.save()
"""),
(N, """    files = set(files)
    for dirent in image.files:
        if not files or dirent.filename in files:
            data = image.get_file(dirent)
            crc = zlib.crc32(data) & 0xffffffff  # correct for some platforms that return signed int
            print("%s: %08x" % (dirent.filename, crc))
""", """    wanted = [d for d in image.files if not files or d.filename in files]
    for dirent in wanted:
        crc = zlib.crc32(image.get_file(dirent)) & 0xffffffff  # correct for some platforms that return signed int
        print(f"{dirent.filename}: {crc:08x}")
"""),
# ---- mame
(MA, """        for item in zf.infolist():
            _, r = divmod(item.file_size, 16)
            if r > 0:
                raise errors.InvalidDiskImage("zip entry not 16 byte multiple")
""", """        if any(item.file_size & 15 for item in zf.infolist()):
            raise errors.InvalidDiskImage("zip entry not 16 byte multiple")
"""),
(MA, """            rom = np.frombuffer(zf.open(item).read(), dtype=np.uint8)
            roms.append(rom)
            segment_info""", """            with zf.open(item) as member:
                roms.append(np.frombuffer(member.read(), dtype=np.uint8))
            segment_info"""),
# ---- segments
(S, """        interleave = np.empty(size * num_segments, dtype=np.uint32)
    if size > 0:""", """    if size > 0:""") if 0 else (S, """        factor = num_bytes * num_segments
        start = 0
        for s in segments:
            order = s.rawdata.get_indexes_from_base()
            for i in range(num_bytes):
                interleave[start::factor] = order[i:size:num_bytes]
                start += 1
    return interleave
""", """        grid = interleave.reshape((size // num_bytes, num_segments, num_bytes))
        for n, s in enumerate(segments):
            grid[:, n, :] = s.rawdata.get_indexes_from_base()[:size].reshape((-1, num_bytes))
    return interleave
"""),
(S, """        w = np.where(matches == True)[0]
        # split into groups with consecutive numbers
        groups = np.split(w, np.where(np.diff(w) != 1)[0] + 1)
        ranges = []
        for group in groups:
            if np.alen(group) > 0:
                ranges.append((int(group[0]), int(group[-1]) + 1))
        return ranges
""", """        ranges = []
        start = None
        for i, match in enumerate(matches):
            if match and start is None:
                start = i
            elif not match and start is not None:
                ranges.append((start, i))
                start = None
        if start is not None:
            ranges.append((start, len(matches)))
        return ranges
"""),
(S, """        boot_size = self.num_boot_sectors * self.boot_sector_size
        if index >= boot_size:
            sector, byte = divmod(index - boot_size, self.page_size)
            sector += self.num_boot_sectors
        else:
            sector, byte = divmod(index, self.boot_sector_size)
        if lower_case:
            return "s%03d:%02x" % (sector + self.first_sector, byte)
        return "s%03d:%02X" % (sector + self.first_sector, byte)
""", """        boot_size = self.num_boot_sectors * self.boot_sector_size
        if index < boot_size:
            sector, byte = divmod(index, self.boot_sector_size)
        else:
            sector, byte = divmod(index - boot_size, self.page_size)
            sector += self.num_boot_sectors
        template = "s{:03d}:{:02x}" if lower_case else "s{:03d}:{:02X}"
        return template.format(sector + self.first_sector, byte)
"""),
]}
