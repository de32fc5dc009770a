"""Behaviour-preserving refactorings (development tool): every check must stay quiet on them."""
U, A, D, I, E = "atrcopy/utils.py", "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/diskimages.py", "atrcopy/executables.py"
R = {}
R["a"] = [
# ---- utils: comprehension / any / next / sorted / helpers
(U, """        size = 0
        for s in self:
            size += s.used
        return size
""", """        return sum(sector.used for sector in self)
"""),
(U, """        used = set()
        d = list(self.dirents.items())
        if d:
            d.sort()
            for i, dirent in d:
                # an entry that is not in use may still belong to a file, e.g.
                # DOS 2.5 marks files above sector 719 as not in use for DOS 2
                if dirent.deleted and not dirent.in_use:
                    return i
                used.add(i)
            if self.num_dirents > 0 and (len(used) >= self.num_dirents):
                raise errors.NoSpaceInDirectory()
            i += 1
        else:
            i = 0
        used.add(i)
        return i
""", """        if not self.dirents:
            return 0
        ordered = sorted(self.dirents)
        reusable = next((i for i in ordered if self.dirents[i].deleted and not self.dirents[i].in_use), None)
        if reusable is not None:
            return reusable
        if 0 < self.num_dirents <= len(ordered):
            raise errors.NoSpaceInDirectory()
        return ordered[-1] + 1
"""),
(U, """            for dirent in list(self.dirents.values()):
                if dirent.in_use and dirent == filename:
                    return dirent
        else:
            for dirent in list(self.dirents.values()):
                if dirent.in_use and filename == dirent.filename:
                    return dirent
        raise""", """            matches = lambda d: d == filename
        else:
            matches = lambda d: filename == d.filename
        for dirent in self.dirents.values():
            if dirent.in_use and matches(dirent):
                return dirent
        raise"""),
(U, """        d = list(self.dirents.items())
        d.sort()
        # there may be gaps, so fill in missing entries with blanks
        current = 0
        for index, dirent in d:
            for missing in range(current, index):
                if _xd: log.debug("Encoding empty dirent at %d" % missing)
                data = self.encode_empty()
                self.store_encoded(data)
            if _xd: log.debug("Encoding dirent: %s" % dirent)
            data = self.encode_dirent(dirent)
            self.store_encoded(data)
            current = index + 1
        self.finish_encoding(image)
""", """        for chunk in self._iter_encoded():
            self.store_encoded(chunk)
        self.finish_encoding(image)

    def _iter_encoded(self):
        count = max(self.dirents) + 1 if self.dirents else 0
        for index in range(count):
            dirent = self.dirents.get(index)
            if dirent is None:
                # there may be gaps, so fill in missing entries with blanks
                yield self.encode_empty()
            else:
                yield self.encode_dirent(dirent)
"""),
(U, """        while True:
            if _xd: log.debug("store_encoded: %d bytes in %s" % (len(data), self.current_sector))
            data = self.current_sector.add_data(data)
            if len(data) > 0:
                self.sectors.append(self.current_sector)
                self.current_sector = self.get_dirent_sector()
            else:
                break
""", """        data = self.current_sector.add_data(data)
        while len(data):
            self.sectors.append(self.current_sector)
            self.current_sector = self.get_dirent_sector()
            data = self.current_sector.add_data(data)
"""),
(U, """        free = np.where(self.sector_map == 1)[0]
        return len(free)
""", """        return int(np.count_nonzero(self.sector_map == 1))
"""),
(U, """        order = []
        for i in range(num):
            order.append(self.get_next_free_sector())
""", """        order = [self.get_next_free_sector() for _ in range(num)]
"""),
(U, """        free = np.nonzero(self.sector_map)[0]
        if len(free) > 0:
            num = free[0]
            if _xd: log.debug("Found sector %d free" % num)
            self.sector_map[num] = 0
            return num
        raise errors.NotEnoughSpaceOnDisk("No space left in VTOC")
""", """        free = np.flatnonzero(self.sector_map)
        if free.size == 0:
            raise errors.NotEnoughSpaceOnDisk("No space left in VTOC")
        num = int(free[0])
        self.sector_map[num] = 0
        return num
"""),
(U, """        file_length = 0
        last_sector = None
        for sector, sector_num in zip(sector_list.sectors, order):
            sector.sector_num = sector_num
            sector.file_num = dirent.file_num
            file_length += sector.used
            if last_sector is not None:
                last_sector.next_sector_num = sector_num
            last_sector = sector
        if last_sector is not None:
            last_sector.next_sector_num = 0
        sector_list.file_length = file_length
""", """        for sector, sector_num in zip(sector_list.sectors, order):
            sector.sector_num = sector_num
            sector.file_num = dirent.file_num
        followers = list(order[1:]) + [0]
        for sector, next_num in zip(sector_list.sectors, followers):
            sector.next_sector_num = next_num
        sector_list.file_length = sum(sector.used for sector in sector_list.sectors)
"""),
(U, """        count = len(data)
        if self.ptr + count > self.sector_size:
            count = self.space_remaining
        self.data[self.ptr:self.ptr + count] = data[0:count]
        self.ptr += count
        self.used += count
        return data[count:]
""", """        count = min(len(data), self.space_remaining)
        end = self.ptr + count
        self.data[self.ptr:end] = data[:count]
        self.ptr = end
        self.used += count
        return data[count:]
"""),
(U, """    if text.startswith("0x"):
        value = int(text[2:], 16)
    elif text.startswith("$"):
        value = int(text[1:], 16)
    elif text.startswith("#"):
        value = int(text[1:], 10)
    elif text.startswith("%"):
        value = int(text[1:], 2)
    else:
        if default_base == "dec":
            value = int(text)
        else:
            value = int(text, 16)
    return value
""", """    for prefix, base in (("0x", 16), ("$", 16), ("#", 10), ("%", 2)):
        if text.startswith(prefix):
            return int(text[len(prefix):], base)
    return int(text, 10 if default_base == "dec" else 16)
"""),
# ---- ataridos
(A, """        hi, lo = divmod(value, 256)
        self.data[index + 0] = (self.file_num << 2) | (hi & 0x03)
        self.data[index + 1] = lo
        self.data[index + 2] = self.used
""", """        link_high = (value >> 8) & 0x03
        self.data[index:index + 3] = [(self.file_num << 2) + link_high, value & 0xff, self.used]
"""),
(A, """        hi, lo = divmod(int(self.sector_map[0:720].sum()), 256)
        self.vtoc1[3:5] = [lo, hi]
""", """        free_count = int(np.count_nonzero(self.sector_map[0:720]))
        self.vtoc1[3] = free_count & 0xff
        self.vtoc1[4] = free_count >> 8
"""),
(A, """        num = 361
        for sector in self.sectors:
            sector.sector_num = num
            num += 1
""", """        for num, sector in enumerate(self.sectors, 361):
            sector.sector_num = num
"""),
(A, """        flag = (int(self.flag) & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
        values[0] = flag
""", """        values[0] = self._encode_flag()
"""),
(A, """    def mark_deleted(self):
        self.deleted = True
        self.in_use = False
""", """    def _encode_flag(self):
        flag = int(self.flag) & 0x08
        for mask, attr in ((0x01, "opened_output"), (0x02, "dos_2"), (0x04, "mydos"), (0x10, "is_dir"), (0x20, "locked"), (0x40, "in_use"), (0x80, "deleted")):
            if getattr(self, attr):
                flag |= mask
        return flag

    def mark_deleted(self):
        self.deleted, self.in_use = True, False
"""),
(A, """        self.opened_output = (flag&0x01) > 0
        self.dos_2 = (flag&0x02) > 0
        self.mydos = (flag&0x04) > 0
        self.is_dir = (flag&0x10) > 0
        self.locked = (flag&0x20) > 0
        self.in_use = (flag&0x40) > 0
        self.deleted = (flag&0x80) > 0
""", """        self.opened_output = bool(flag & 0x01)
        self.dos_2 = bool(flag & 0x02)
        self.mydos = bool(flag & 0x04)
        self.is_dir = bool(flag & 0x10)
        self.locked = bool(flag & 0x20)
        self.in_use = bool(flag & 0x40)
        self.deleted = bool(flag & 0x80)
"""),
(A, """        if not self.in_use:
            return True
        if not image.header.sector_is_valid(self.starting_sector):
            return False
        if self.num_sectors < 0 or self.num_sectors > image.header.max_sectors:
            return False
        return True
""", """        return (not self.in_use) or (image.header.sector_is_valid(self.starting_sector) and 0 <= self.num_sectors <= image.header.max_sectors)
"""),
(A, """        while True:
            sector = WriteableSector(image.header.sector_size, None, self.current_sector)
            sector_list.append(sector)
            _, last, _, _ = self.read_sector(image)
            if last:
                break
        return sector_list
""", """        last = False
        while not last:
            sector_list.append(WriteableSector(image.header.sector_size, None, self.current_sector))
            last = self.read_sector(image)[1]
        return sector_list
"""),
(A, """        self.sectors_seen.add(self.current_sector)
        next_sector = ((raw[-3] & 0x3) << 8) + raw[-2]
        if next_sector in self.sectors_seen:
            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
        self.current_sector = next_sector
        num_bytes = raw[-1]
        if num_bytes > len(raw) - 3:
            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
        return raw[0:num_bytes], num_bytes

    def set_values""", """        return self._follow_link(raw, ((raw[-3] & 0x3) << 8) | raw[-2])

    def _follow_link(self, raw, next_sector):
        self.sectors_seen.add(self.current_sector)
        if next_sector in self.sectors_seen:
            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
        self.current_sector = next_sector
        num_bytes = raw[-1]
        if num_bytes > len(raw) - 3:
            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
        return raw[:num_bytes], num_bytes

    def set_values"""),
(A, """        self.sectors_seen.add(self.current_sector)
        next_sector = (raw[-3] << 8) + raw[-2]
        if next_sector in self.sectors_seen:
            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
        self.current_sector = next_sector
        num_bytes = raw[-1]
        if num_bytes > len(raw) - 3:
            raise errors.InvalidFile("Bad number of bytes in sector: %d" % num_bytes)
        return raw[0:num_bytes], num_bytes


class XexSegmentSaver""", """        return self._follow_link(raw, (raw[-3] << 8) | raw[-2])


class XexSegmentSaver"""),
(A, """        if b'.' in filename:
            filename, ext = filename.split(b'.', 1)
        else:
            ext = b'   '
        self.basename""", """        filename, dot, ext = filename.partition(b'.')
        if not dot:
            ext = b'   '
        self.basename"""),
(A, """            if len(b[pos:pos + 4]) < 4:
                self.segments.append(ObjSegment(r[pos:pos + 4], 0, 0, 0, len(b[pos:pos + 4]), "Short Segment Header"))
                break
""", """            remaining = self.size - pos
            if remaining < 4:
                self.segments.append(ObjSegment(r[pos:], 0, 0, 0, remaining, "Short Segment Header"))
                break
"""),
(A, """        if size == 92160 or size == 92176:
            self.image_size = 92160
            self.sector_size = 128
            self.initial_sector_size = 0
            self.num_initial_sectors = 0
        elif size == 184320 or size == 184336:
            self.image_size = 184320
            self.sector_size = 256
            self.initial_sector_size = 0
            self.num_initial_sectors = 0
        elif size == 183936 or size == 183952:
            self.image_size = 183936
            self.sector_size = 256
            self.initial_sector_size = 128
            self.num_initial_sectors = 3
        else:
            self.image_size = size
""", """        geometry = {92160: (128, 0, 0), 184320: (256, 0, 0), 183936: (256, 128, 3)}
        for base_size, values in geometry.items():
            if size in (base_size, base_size + 16):
                self.image_size = base_size
                self.sector_size, self.initial_sector_size, self.num_initial_sectors = values
                break
        else:
            self.image_size = size
"""),
(A, """        if sector <= self.num_initial_sectors:
            pos = self.initial_sector_size * (sector - 1)
            size = self.initial_sector_size
        else:
            pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
            size = self.sector_size
        pos += self.header_offset
        return pos, size
""", """        preceding = sector - 1
        short = min(preceding, self.num_initial_sectors)
        pos = self.header_offset + short * self.initial_sector_size + (preceding - short) * self.sector_size
        size = self.initial_sector_size if sector <= self.num_initial_sectors else self.sector_size
        return pos, size
"""),
(A, """        i = 0
        num = 0
        files = []
        while i < len(dir_bytes):
            dirent = AtariDosDirent(self, num, dir_bytes[i:i+16])
            if dirent.mydos:
                dirent = MydosDirent(self, num, dir_bytes[i:i+16])
""", """        files = []
        for num, i in enumerate(range(0, len(dir_bytes), 16)):
            raw = dir_bytes[i:i+16]
            cls = MydosDirent if raw[0] & 0x04 else AtariDosDirent
            dirent = cls(self, num, raw)
"""),
(A, """                directory.set(num, dirent)
            i += 16
            num += 1
        self.files = files
""", """                directory.set(num, dirent)
        self.files = files
"""),
(A, """        while True:
            bytes, last, pos, size = dirent.read_sector(self)
            byte_order.extend(list(range(pos, pos + size)))
            if last:
                break
        if len(byte_order) > 0:
            name = "%s %ds@%d\"""", """        last = False
        while not last:
            _, last, pos, size = dirent.read_sector(self)
            byte_order += range(pos, pos + size)
        if byte_order:
            name = "%s %ds@%d\""""),
# ---- dos33
(D, """        index = 0xc
        for i in range(start, end):
            sector = sector_list[i]
            t, s = self.header.track_from_sector(sector.sector_num)
            self.data[index] = t
            self.data[index + 1] = s
            if _xd: log.debug("tslist entry #%d: %d, %d" % (index, t, s))
            index += 2
""", """        for offset, i in enumerate(range(start, end)):
            index = 0xc + 2 * offset
            self.data[index:index + 2] = self.header.track_from_sector(sector_list[i].sector_num)
"""),
(D, """        index = 0xc
        sector_list = []
        while index < self.header.sector_size:
            t = self.data[index]
            s = self.data[index + 1]
            sector_list.append(self.header.sector_from_track(t, s))
            index += 2
        return sector_list
""", """        return [self.header.sector_from_track(self.data[i], self.data[i + 1]) for i in range(0xc, self.header.sector_size, 2)]
"""),
(D, """        packed = np.packbits(self.sector_map[self.vtoc_bit_reorder_index])
        vtoc = self.vtoc[0x38:].reshape((-1, 4))
        packed = packed.reshape((-1, 2))
        vtoc[:,:2] = packed[:,:]

        # FIXME
        self.vtoc[0x38:] = vtoc.flatten()
""", """        packed = np.packbits(self.sector_map[self.vtoc_bit_reorder_index])
        self.vtoc[0x38::4] = packed[0::2]
        self.vtoc[0x39::4] = packed[1::2]
"""),
(D, """        if self.deleted:
            return True
        if self.track == 0:
            return False
        s = image.header.sector_from_track(self.track, self.sector)
        if not image.header.sector_is_valid(s):
            return False
        if self.num_sectors < 0 or self.num_sectors > image.header.max_sectors:
            return False
        return True
""", """        header = image.header
        if self.deleted:
            return True
        if self.track == 0 or not 0 <= self.num_sectors <= header.max_sectors:
            return False
        return bool(header.sector_is_valid(header.sector_from_track(self.track, self.sector)))
"""),
(D, """        for sector_num in self.sector_map:
            sector = WriteableSector(image.header.sector_size, None, sector_num)
            sectors.append(sector)
        return sectors
""", """        sectors.extend([WriteableSector(image.header.sector_size, num=n) for n in self.sector_map])
        return sectors
"""),
(D, """        try:
            sector = self.sector_map[self.current_sector_index]
        except IndexError:
            sector = -1  # force ByteNotInFile166 error at next read
        if _xd: log.debug("read_sector: index %d=%d in %s" % (self.current_sector_index,sector, str(self)))
        last = (self.current_sector_index == len(self.sector_map) - 1)
""", """        count = len(self.sector_map)
        index = self.current_sector_index
        sector = self.sector_map[index] if index < count else -1
        last = index + 1 == count
"""),
(D, """        addr = int(data[0]) + 256 * int(data[1])
        return addr
""", """        return int(data[0]) | (int(data[1]) << 8)
"""),
(D, """            i = 0xb
            while i < 256:
                dirent = Dos33Dirent(self, num, values[i:i+0x23])
""", """            for i in range(0xb, 256, 0x23):
                dirent = Dos33Dirent(self, num, values[i:i+0x23])
"""),
(D, """                if _xd: log.debug("valid directory entry %s" % dirent)
                i += 0x23
                num += 1
""", """                if _xd: log.debug("valid directory entry %s" % dirent)
                num += 1
"""),
(D, """        if sector_num == -1:
            sector_num = self.header.first_directory
        elif sector_num == 0:
            raise errors.NoSpaceInDirectory("No space left in catalog")
""", """        if sector_num == 0:
            raise errors.NoSpaceInDirectory("No space left in catalog")
        if sector_num < 0:
            sector_num = self.header.first_directory
"""),
# ---- diskimages
(I, """        return (self.max_sectors < 0) | (sector >= self.starting_sector_label and sector < (self.max_sectors + self.starting_sector_label))
""", """        if self.max_sectors < 0:
            return True
        return 0 <= sector - self.starting_sector_label < self.max_sectors
"""),
(I, """        i = self.starting_sector_label
        while self.sector_is_valid(i):
            pos, size = self.get_pos(i)
            yield i, pos, size
            i += 1
""", """        first = self.starting_sector_label
        for i in range(first, first + self.max_sectors):
            yield (i, *self.get_pos(i))
"""),
(I, """        pos, size = self.header.get_pos(start)
        if end is None:
            end = start
        while start < end:
            start += 1
            _, more = self.header.get_pos(start)
            size += more
        return slice(pos, pos + size)
""", """        end = start if end is None else end
        pos, size = self.header.get_pos(start)
        size += sum(self.header.get_pos(s)[1] for s in range(start + 1, end + 1))
        return slice(pos, pos + size)
"""),
(I, """        start = 0
        count = 0
        for index in range(sector, sector + num):
            pos, size = self.header.get_pos(index)
            if count == 0:
                start = pos
            count += size
        return start, count
""", """        extents = [self.header.get_pos(index) for index in range(sector, sector + num)]
        start = extents[0][0] if extents else 0
        return start, sum(size for _, size in extents)
"""),
(I, """        for dirent in self.files:
            if filename == dirent.filename:
                return dirent
        raise errors.FileNotFound("%s not found on disk" % str(filename))
""", """        try:
            return next(d for d in self.files if d.filename == filename)
        except StopIteration:
            raise errors.FileNotFound("%s not found on disk" % str(filename))
"""),
(I, """        index = 0
        # an empty file still needs a sector to be the target of its dirent
        while index < len(data) or len(sectors) == 0:
            count = min(self.header.payload_bytes, len(data) - index)
            sector = self.header.create_sector(data[index:index + count])
            sectors.append(sector)
            index += count
        return sectors
""", """        step = self.header.payload_bytes
        # an empty file still needs a sector to be the target of its dirent
        for index in range(0, max(len(data), 1), step):
            sectors.append(self.header.create_sector(data[index:index + step]))
        return sectors
"""),
(I, """            self.write_sector_list(sector_list)
            self.write_sector_list(vtoc)
            self.write_sector_list(directory)
        except Exception:
            self.rollback_transaction(state)
            raise
        finally:
            self.get_metadata()

    def build_sectors""", """            for pending in (sector_list, vtoc, directory):
                self.write_sector_list(pending)
        except Exception:
            self.rollback_transaction(state)
            raise
        finally:
            self.get_metadata()

    def build_sectors"""),
# ---- executables
(E, """    total = 2
    runad = False
    for s in segments:
        total += 4 + len(s)
        if s.origin == 0x2e0:
            runad = True
    if not runad:
        words = np.empty([1], dtype='<u2')
        if run_addr is not None:
            found = False
            for s in segments:
                if run_addr >= s.origin and run_addr < s.origin + len(s):
                    found = True
                    break
            if not found:
                raise errors.InvalidBinaryFile("Run address points outside data segments")
        else:
            run_addr = segments[0].origin
        words[0] = run_addr
        r = SegmentData(words.view(dtype=np.uint8))
        s = DefaultSegment(r, 0x2e0)
        segments_copy[0:0] = [s]
        total += 6
""", """    if all(s.origin != 0x2e0 for s in segments):
        if run_addr is None:
            run_addr = segments[0].origin
        elif not _address_in_segments(run_addr, segments):
            raise errors.InvalidBinaryFile("Run address points outside data segments")
        words = np.array([run_addr], dtype='<u2')
        segments_copy.insert(0, DefaultSegment(SegmentData(words.view(dtype=np.uint8)), 0x2e0))
    total = 2 + sum(4 + len(s) for s in segments_copy)
"""),
(E, """def get_xex(""", """def _address_in_segments(addr, segments):
    return any(s.origin <= addr < s.origin + len(s) for s in segments)


def get_xex("""),
(E, """    origin = 100000000
    last = -1

    for s in segments:
        origin = min(origin, s.origin)
        last = max(last, s.origin + len(s))
        if _xd: log.debug("contiguous bytes needed: %04x - %04x" % (origin, last))
    if run_addr is not None and run_addr != origin:
        # check if run_addr points to some location that has data
        found = False
        for s in segments:
            if run_addr >= s.origin and run_addr < s.origin + len(s):
                found = True
                break
        if not found:
            raise errors""", """    origin = min((s.origin for s in segments), default=100000000)
    last = max((s.origin + len(s) for s in segments), default=-1)
    if run_addr is not None and run_addr != origin:
        # check if run_addr points to some location that has data
        if not _address_in_segments(run_addr, segments):
            raise errors"""),
(E, """        hi, lo = divmod(run_addr, 256)
        raw = SegmentData([0x4c, lo, hi])
        all_segments = [DefaultSegment(raw, origin=origin)]
        all_segments.extend(segments)
""", """        raw = SegmentData([0x4c, run_addr & 0xff, run_addr >> 8])
        all_segments = [DefaultSegment(raw, origin=origin), *segments]
"""),
]
