"""Behaviour-preserving refactorings (development tool): every check must stay quiet on them."""
S, P, K, T, C, N, O, M, G, SP, DC, L = ["atrcopy/%s.py" % x for x in "segments parsers kboot standard_delivery cartridge __init__ container mame magic spartados dcm dummy".split()]
R = {}
R["b"] = [
# ---- segments
(S, """    style_bits = 0
    if user:
        style_bits |= (user & user_bit_mask)
    if diff:
        style_bits |= diff_bit_mask
    if match:
        style_bits |= match_bit_mask
    if comment:
        style_bits |= comment_bit_mask
    if data:
        style_bits |= (data_style & user_bit_mask)
    if selected:
        style_bits |= selected_bit_mask
    return style_bits
""", """    style_bits = (user & user_bit_mask) if user else 0
    flags = (
        (diff, diff_bit_mask),
        (match, match_bit_mask),
        (comment, comment_bit_mask),
        (data, data_style & user_bit_mask),
        (selected, selected_bit_mask),
    )
    for enabled, mask in flags:
        if enabled:
            style_bits |= mask
    return style_bits
"""),
(S, """    if 'user' in kwargs and kwargs['user']:
        bits |= user_bit_mask
    return 0xff ^ bits
""", """    if kwargs.get('user'):
        bits |= user_bit_mask
    return ~bits & 0xff
"""),
(S, """        header = np.empty(2, dtype="<u2")
        header[0] = segment.origin
        header[1] = len(data)
        log.debug("binary data: %x bytes at %x" % (header[1], header[0]))
        return header.tobytes() + segment.tobytes()
""", """        header = np.array([segment.origin, len(data)], dtype="<u2")
        return header.tobytes() + data
"""),
(S, """        if self.is_indexed:
            end = len(self.data.np_data)
            self.data_start, self.data_end = 0, end
            self.base_start, self.base_end = 0, end
            base_size = end
        elif self.data.base is None:
            end = len(self.data)
            self.data_start, self.data_end = 0, end
            self.base_start, self.base_end = 0, end
            base_size = end
        else:
            self.data_start, self.data_end = np.byte_bounds(self.data)
            self.base_start, self.base_end = np.byte_bounds(self.data.base)
            base_size = len(self.data.base)
        self.base_length = base_size
""", """        if self.is_indexed or self.data.base is None:
            whole = self.data.np_data if self.is_indexed else self.data
            self.base_length = len(whole)
            self.data_start = self.base_start = 0
            self.data_end = self.base_end = self.base_length
        else:
            self.data_start, self.data_end = np.byte_bounds(self.data)
            self.base_start, self.base_end = np.byte_bounds(self.data.base)
            self.base_length = len(self.data.base)
"""),
(S, """            try:
                newdata = np.resize(self.data, (newsize,)).copy()
                newstyle = np.resize(self.style, (newsize,)).copy()
            except:
                raise
            else:
                self.data = newdata
                self.style = newstyle
        else:
            raise ValueError("Can't resize a view of a segment")
        self.calc_lookups()
""", """            newdata = np.resize(self.data, newsize).copy()
            newstyle = np.resize(self.style, newsize).copy()
            self.data, self.style = newdata, newstyle
        else:
            raise ValueError("Can't resize a view of a segment")
        self.calc_lookups()
"""),
(S, """        return self.data.np_data if self.is_indexed else self.data.base if self.data.base is not None else self.data

    @property
    def style_base""", """        return self._find_base(self.data)

    def _find_base(self, array):
        if self.is_indexed:
            return array.np_data
        return array if array.base is None else array.base

    @property
    def style_base"""),
(S, """        return self.style.np_data if self.is_indexed else self.style.base if self.style.base is not None else self.style
""", """        return self._find_base(self.style)
"""),
(S, """                r = np.zeros(self.base_length, dtype=np.int32) - 1
                r[self.order] = np.arange(len(self.order), dtype=np.int32)
            elif""", """                r = np.full(self.base_length, -1, dtype=np.int32)
                r[self.order] = np.arange(len(self.order))
            elif"""),
(S, """        matches = (self.style & style_bits) == style_bits
        return self.bool_to_ranges(matches)
""", """        return self.bool_to_ranges(np.equal(self.style & style_bits, style_bits))
"""),
(S, """        w = np.where(matches == True)[0]
        # split into groups with consecutive numbers
        groups = np.split(w, np.where(np.diff(w) != 1)[0] + 1)
        ranges = []
        for group in groups:
            if np.alen(group) > 0:
                ranges.append((int(group[0]), int(group[-1]) + 1))
        return ranges
""", """        w = np.flatnonzero(matches)
        # split into groups with consecutive numbers
        groups = np.split(w, np.flatnonzero(np.diff(w) != 1) + 1)
        return [(int(group[0]), int(group[-1]) + 1) for group in groups if len(group)]
"""),
(S, """        ranges = self.get_style_ranges(**kwargs)
        if len(ranges) > 0:
            index_tuple = (index + 1, 0)
            match_index = bisect.bisect_right(ranges, index_tuple)
            if match_index >= len(ranges):
                match_index = 0
            return ranges[match_index][0]
        return None
""", """        ranges = self.get_style_ranges(**kwargs)
        if not ranges:
            return None
        for start, _ in ranges:
            if start > index:
                return start
        return ranges[0][0]
"""),
(S, """        if len(ranges) > 0:
            index_tuple = (index, 0)
            match_index = bisect.bisect_left(ranges, index_tuple)
            match_index -= 1
            if match_index < 0:
                match_index = len(ranges) - 1
            return ranges[match_index][0]
        return None
""", """        if not ranges:
            return None
        before = [start for start, _ in ranges if start < index]
        return before[-1] if before else ranges[-1][0]
"""),
(S, """            clamped = indexes[np.where(np.less(indexes, len(self)))[0]]
            s[clamped] |= style_bits
""", """            s[indexes[indexes < len(self)]] |= style_bits
"""),
(S, """        indexes = sorted(d.keys())
        ranges = []
        start, end, current = None, None, None
        for i in indexes:
            if start is None:
                start = i
                current = d[i]
            else:
                if d[i] != current or i != end:
                    ranges.append([[start, end], current])
                    start = i
                    current = d[i]
            end = i + 1
        if start is not None:
            ranges.append([[start, end], current])
        return ranges
""", """        ranges = []
        for i in sorted(d):
            if ranges and ranges[-1][0][1] == i and ranges[-1][1] == d[i]:
                ranges[-1][0][1] = i + 1
            else:
                ranges.append([[i, i + 1], d[i]])
        return ranges
"""),
(S, """                try:
                    comment = self.rawdata.extra.comments[rawindex]
                    log.debug("  index: %d rawindex=%d '%s'" % (i, rawindex, comment))
                    items[i] = (rawindex, comment)
                except KeyError:
                    log.debug("  index: %d rawindex=%d NO COMMENT TO SAVE" % (i, rawindex))
                    items[i] = (rawindex, None)
""", """                items[i] = (rawindex, self.rawdata.extra.comments.get(rawindex))
"""),
(S, """                    # no comment in original data, remove any if exists
                    try:
                        del self.rawdata.extra.comments[rawindex]
                        log.debug("  no comment in original data, removed comment in current data at rawindex=%d" % rawindex)
                    except KeyError:
                        log.debug("  no comment in original data or current data at rawindex=%d" % rawindex)
                        pass

    def get_comments_in_range""", """                    # no comment in original data, remove any if exists
                    self.rawdata.extra.comments.pop(rawindex, None)

    def get_comments_in_range"""),
(S, """        comments = {}

        # Naive way, but maybe it's fast enough: loop over all comments
        # gathering those within the bounds
        for rawindex, comment in self.rawdata.extra.comments.items():
            try:
                index = self.get_index_from_base_index(rawindex)
            except IndexError:
                continue
            if index >= start and index < end:
                comments[index] = comment
        return comments
""", """        return {index: comment for index, comment in self.iter_comments_in_segment() if start <= index < end}
"""),
(S, """        return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
""", """        comments = self.rawdata.extra.comments
        return [[k, comments[k]] for k in sorted(comments)]
"""),
(S, """        start = reduce(min, [min(r) for r in ranges])
        rawindex""", """        start = min(min(r) for r in ranges)
        rawindex"""),
(S, """            for i in range(start, end):
                rawindex = self.get_raw_index(i)
                if rawindex in self.rawdata.extra.comments:
                    del self.rawdata.extra.comments[rawindex]
""", """            for i in range(start, end):
                self.remove_comment(i)
"""),
(S, """        if lower_case:
            return "%04x" % (index + self.origin)
        else:
            return "%04X" % (index + self.origin)
""", """        address = index + self.origin
        return f"{address:04x}" if lower_case else f"{address:04X}"
"""),
(S, """        boot_size = self.num_boot_sectors * self.boot_sector_size
        if index >= boot_size:
            sector, byte = divmod(index - boot_size, self.page_size)
            sector += self.num_boot_sectors
        else:
            sector, byte = divmod(index, self.boot_sector_size)
        if lower_case:
            return "s%03d:%02x" % (sector + self.first_sector, byte)
        return "s%03d:%02X" % (sector + self.first_sector, byte)
""", """        sector, byte = self._locate(index)
        fmt = "s%03d:%02x" if lower_case else "s%03d:%02X"
        return fmt % (sector, byte)

    def _locate(self, index):
        boot_size = self.num_boot_sectors * self.boot_sector_size
        if index < boot_size:
            sector, byte = divmod(index, self.boot_sector_size)
        else:
            sector, byte = divmod(index - boot_size, self.page_size)
            sector += self.num_boot_sectors
        return sector + self.first_sector, byte
"""),
(S, """        boot_size = self.num_boot_sectors * self.boot_sector_size
        if index >= boot_size:
            sector, byte = divmod(index - boot_size, self.page_size)
            sector += self.num_boot_sectors
        else:
            sector, byte = divmod(index, self.boot_sector_size)
        sector += self.first_sector
        t, s = divmod(sector, 16)
        if lower_case:
            return "t%02ds%02d:%02x" % (t, s, byte)
        return "t%02ds%02d:%02X" % (t, s, byte)
""", """        sector, byte = self._locate(index)
        track = sector // 16
        fmt = "t%02ds%02d:%02x" if lower_case else "t%02ds%02d:%02X"
        return fmt % (track, sector % 16, byte)
"""),
(S, """    size = len(segments[0])
    for s in segments[1:]:
        if len(s) < size:
            size = len(s)

    # adjust if byte spacing is not an even divisor
    _, rem = divmod(size, num_bytes)
    size -= rem
""", """    size = min(len(s) for s in segments)

    # adjust if byte spacing is not an even divisor
    size = (size // num_bytes) * num_bytes
"""),
(S, """        factor = num_bytes * num_segments
        start = 0
        for s in segments:
            order = s.rawdata.get_indexes_from_base()
            for i in range(num_bytes):
                interleave[start::factor] = order[i:size:num_bytes]
                start += 1
""", """        rows = interleave.reshape((-1, num_segments, num_bytes))
        for n, s in enumerate(segments):
            order = s.rawdata.get_indexes_from_base()
            rows[:, n, :] = order[:size].reshape((-1, num_bytes))
"""),
(S, """    for s in segments[1:]:
        d, s = s.rawdata.get_bases()
        if id(d) != id(data_base) or id(s) != id(style_base):
            raise ValueError("Can't interleave segments with different base arrays")
""", """    for other in segments[1:]:
        d, st = other.rawdata.get_bases()
        if d is not data_base or st is not style_base:
            raise ValueError("Can't interleave segments with different base arrays")
"""),
(S, """        diff = self.data[:] != other_segment.data[:]
        self.style[:] |= (diff * np.uint8(diff_bit_mask))
        log.debug("compare_segment: # entries %d, # diffs: %d" % (len(diff), len(np.where(diff == True)[0])))
""", """        diff = np.not_equal(self.data[:], other_segment.data[:])
        self.style[:] |= np.where(diff, diff_bit_mask, 0).astype(np.uint8)
"""),
(S, """        state = dict()
        for key in self.base_serializable_attributes:
            state[key] = getattr(self, key)
        for key in self.extra_serializable_attributes:
            state[key] = getattr(self, key)
        r = self.rawdata
""", """        keys = self.base_serializable_attributes + self.extra_serializable_attributes
        state = {key: getattr(self, key) for key in keys}
        r = self.rawdata
"""),
(S, """        last = origin + len(data)
        if name is None:
            name = "%04x - %04x, size=%04x" % (origin, last, len(data))
        rawdata = SegmentData(data)
        s = DefaultSegment(rawdata, origin, name)
        self.append(s)
        return s""", """        size = len(data)
        if name is None:
            name = "%04x - %04x, size=%04x" % (origin, origin + size, size)
        self.append(DefaultSegment(SegmentData(data), origin, name))
        return self[-1]"""),
# ---- parsers
(P, """            parsers = mime_parsers[mime]
            for parser in parsers:
                try:
                    found = parser(r, False)
                    break
                except errors.InvalidSegmentParser as e:
                    if verbose:
                        log.info("parser isn't %s: %s" % (parser.__name__, str(e)))
                    pass
""", """            found = _first_parser(mime_parsers[mime], r, False, verbose)
"""),
(P, """    parsers = mime_parsers[mime]
    found = None
    for parser in parsers:
        try:
            found = parser(r, True)
            break
        except errors.InvalidSegmentParser as e:
            if verbose:
                log.info("parser isn't %s: %s" % (parser.__name__, str(e)))
            pass
    return found
""", """    return _first_parser(mime_parsers[mime], r, True, verbose)
"""),
(P, """def guess_parser_by_size(""", """def _first_parser(parsers, r, strict, verbose):
    for parser in parsers:
        try:
            return parser(r, strict)
        except errors.InvalidSegmentParser as e:
            if verbose:
                log.info("parser isn't %s: %s" % (parser.__name__, str(e)))
    return None


def guess_parser_by_size("""),
(P, """    n = name.lower()
    if n.endswith(".atr"):
        matches.append(KBootImage)
    elif n.endswith(".dsk"):
        matches.append(StandardDeliveryImage)
    else:
        try:
            _, name = name.rsplit(".", 1)
        except ValueError:
            pass
        raise errors.InvalidDiskImage("no disk image formats that match '%s'" % name)
    return matches
""", """    by_extension = {".atr": KBootImage, ".dsk": StandardDeliveryImage}
    for ext, image_cls in by_extension.items():
        if name.lower().endswith(ext):
            return [image_cls]
    name = name.rsplit(".", 1)[-1]
    raise errors.InvalidDiskImage("no disk image formats that match '%s'" % name)
"""),
# ---- kboot
(K, """        count = image.bytes[i] + 256 * image.bytes[i+1] + 256 * 256 *image.bytes[i + 2]
        if start + count > image.size or start + count < image.size - 128:
            self.is_sane = False
        else:
            self.exe_size = count
            self.exe_start = start
        self.num_sectors = count // 128 + 1
""", """        lo, mid, hi = image.bytes[i:i + 3].tolist()
        count = lo | (mid << 8) | (hi << 16)
        end = start + count
        self.is_sane = image.size - 128 <= end <= image.size
        if self.is_sane:
            self.exe_size, self.exe_start = count, start
        self.num_sectors = count // 128 + 1
"""),
(K, """    num_sectors = (xex_size + sec_size - 1) // sec_size
    padded_size = num_sectors * sec_size
    if xex_size < padded_size:
        bytes = np.append(bytes, np.zeros([padded_size - xex_size], dtype=np.uint8))
    paragraphs = padded_size // 16
""", """    padded_size = -(-xex_size // sec_size) * sec_size
    padding = np.zeros([padded_size - xex_size], dtype=np.uint8)
    bytes = np.concatenate((bytes, padding))
"""),
(K, """    v = bootcode[9:11].view(dtype="<u2")
    v[0] = xex_size
""", """    bootcode[9] = xex_size % 256
    bootcode[10] = xex_size // 256
"""),
(K, """        data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
        data_bytes[16:] = payload_bytes[:]
        header_bytes = data_bytes[0:16]
        atr_header = AtrHeader(create=True)
        atr_header.check_size(len(payload_bytes))
        atr_header.encode(header_bytes)
        raw = SegmentData(data_bytes)
        atr = cls(raw, create=True)
        return atr
""", """        atr_header = AtrHeader(create=True)
        atr_header.check_size(len(payload_bytes))
        data_bytes = np.hstack((atr_header.to_array(), payload_bytes))
        return cls(SegmentData(data_bytes), create=True)
"""),
# ---- standard delivery
(T, """            size = ((len(s) + padding + 255) // 256) * 256
            pages = range(chunk_start, chunk_start + size // 256)
            if 0x00 in pages or 0x08 in pages or chunk_start + len(pages) > 0xc0:
""", """            num_pages = (len(s) + padding + 255) // 256
            size = num_pages * 256
            last_page = chunk_start + num_pages
            if any(chunk_start <= page < last_page for page in (0x00, 0x08)) or last_page > 0xc0:
"""),
(T, """                if len(chunk_hi) > 2:
                    address_order = []
                    for n in range(0, count, 32):
                        subset = chunk_hi[n:n+32]
                        if len(subset) > 2:
                            address_order.extend([chunk_hi[n], 0xe0 + len(subset) - 1])
                        else:
                            address_order.extend(subset)
                else:
                    address_order = chunk_hi
""", """                address_order = cls._address_commands(chunk_hi)
"""),
(T, """    @classmethod
    def create_boot_image(""", """    @staticmethod
    def _address_commands(pages):
        commands = []
        for n in range(0, len(pages), 32):
            subset = pages[n:n + 32]
            if len(subset) > 2:
                commands += [subset[0], 0xe0 + len(subset) - 1]
            else:
                commands += subset
        return commands

    @classmethod
    def create_boot_image("""),
(T, """                index += 1
                if index >= len(sector_order):
                    index = 0
                    track += 1
""", """                carry, index = divmod(index + 1, len(sector_order))
                track += carry
"""),
(T, """    hi, lo = divmod(run_addr, 256)
    data[pointer:pointer + 2] = (lo, hi)
    address_list.append(0xc0)  # last sector flag
    data[pointer + 2:pointer + 2 + len(address_list)] = address_list
""", """    address_list.append(0xc0)  # last sector flag
    tail = [run_addr & 0xff, run_addr >> 8] + address_list
    data[pointer:pointer + len(tail)] = tail
"""),
# ---- cartridge
(C, """            s = self.cart_size - self.main_size
            while s > 0:
                self.banks.append(offset)
                offset += self.bank_size
                s -= self.bank_size
""", """            remaining = self.cart_size - self.main_size
            self.banks = [offset + i for i in range(0, remaining, self.bank_size)]
"""),
(C, """    try:
        return known_cart_types[known_cart_type_map[cart_type]]
    except KeyError:
        raise errors.InvalidDiskImage("Unsupported cart type %d" % cart_type)
""", """    index = known_cart_type_map.get(cart_type)
    if index is None:
        raise errors.InvalidDiskImage("Unsupported cart type %d" % cart_type)
    return known_cart_types[index]
"""),
(C, """        segments = []
        r = self.rawdata
        for i, offset in enumerate(self.header.banks):
            start = self.header.header_offset + offset * 1024
            end = start + (self.header.bank_size * 1024)
            s = ObjSegment(r[start:end], 0, 0, self.header.bank_origin, name="Bank #%d" % (i + 1))
            segments.append(s)
        return segments
""", """        h = self.header
        return [self._make_segment(offset, h.bank_size, h.bank_origin, "Bank #%d" % i) for i, offset in enumerate(h.banks, 1)]
"""),
(C, """        r = self.rawdata
        start = self.header.header_offset + self.header.main_offset * 1024
        end = start + (self.header.main_size * 1024)
        s = ObjSegment(r[start:end], 0, 0, self.header.main_origin, name="Main Bank")
        return [s]
""", """        h = self.header
        return [self._make_segment(h.main_offset, h.main_size, h.main_origin, "Main Bank")]

    def _make_segment(self, offset_kb, size_kb, origin, name):
        start = self.header.header_offset + offset_kb * 1024
        return ObjSegment(self.rawdata[start:start + size_kb * 1024], 0, 0, origin, name=name)
"""),
(C, """            data_with_header = np.empty(len(self) + h.nominal_length, dtype=np.uint8)
            data_with_header[0:h.nominal_length] = h.to_array()
            data_with_header[h.nominal_length:] = self.bytes
            r = SegmentData(data_with_header)
""", """            r = SegmentData(np.concatenate([h.to_array(), self.bytes]))
"""),
(C, """        size = len(self)
        if (size & (size - 1)) != 0:
""", """        size = len(self)
        if size and size & (size - 1):
"""),
# ---- container
(O, """        try:
            buf = io.BytesIO(byte_data)
            with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                unpacked = f.read()
        except (OSError, zlib.error) as e:
            raise errors.InvalidContainer(e)
        return unpacked
""", """        try:
            with gzip.GzipFile(mode='rb', fileobj=io.BytesIO(byte_data)) as f:
                return f.read()
        except (OSError, zlib.error) as e:
            raise errors.InvalidContainer(e)
"""),
# ---- mame
(M, """        roms = []
        segment_info = []
        offset = 0
        for item in zf.infolist():
            rom = np.frombuffer(zf.open(item).read(), dtype=np.uint8)
            roms.append(rom)
            segment_info.append((offset, item.file_size, item.filename, item.CRC))
            offset += item.file_size
        data = np.concatenate(roms)
""", """        items = zf.infolist()
        segment_info = []
        offset = 0
        for item in items:
            segment_info.append((offset, item.file_size, item.filename, item.CRC))
            offset += item.file_size
        data = np.concatenate([np.frombuffer(zf.read(item), dtype=np.uint8) for item in items])
"""),
(M, """            _, r = divmod(item.file_size, 16)
            if r > 0:
""", """            if item.file_size % 16:
"""),
# ---- magic
(G, """        if actual == expected:
            log.debug(" match at %s: %s" % (str(index), str(expected)))
        if actual != expected:
            log.debug(" failed at %s: %s != %s" % (str(index), str(expected), str(raw.data[index])))
            return False
    return True
""", """        if actual != expected:
            return False
    return True
"""),
# ---- sparta
(SP, """        while sector > 0:
            if sector in seen:
                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
            seen.add(sector)
            b, _ = self.get_sectors(sector)
            sector, prev = b[0:4].view(dtype='<u2')
            if m is None:
                m = np.copy(b[4:].view(dtype='<u2'))
            else:
                m = np.hstack((m, b[4:].view(dtype='<u2')))
        if m is None:
            raise errors.InvalidFile("Empty sector map")
        return m
""", """        pieces = []
        while sector > 0:
            if sector in seen:
                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
            seen.add(sector)
            words = self.get_sectors(sector)[0].view(dtype='<u2')
            sector = words[0]
            pieces.append(words[2:])
        if not pieces:
            raise errors.InvalidFile("Empty sector map")
        return np.concatenate(pieces)
"""),
(SP, """        while True:
            bytes, last, pos, size = dirent.read_sector(self)
            if not last:
                byte_order.extend(list(range(pos, pos + size)))
            else:
                break
""", """        _, last, pos, size = dirent.read_sector(self)
        while not last:
            byte_order.extend(range(pos, pos + size))
            _, last, pos, size = dirent.read_sector(self)
"""),
# ---- dcm
(DC, """        archive_type = self.get_next()
        if archive_type == 0xf9 or archive_type == 0xfa:
            archive_flags = self.get_next()
            if archive_flags & 0x1f != 1:
                if archive_type == 0xf9:
                    raise errors.InvalidContainer("DCM multi-file archive combined in the wrong order")
                else:
                    raise errors.InvalidContainer("Expected pass one of DCM archive first")
            density_flag = (archive_flags >> 5) & 3
            if density_flag not in self.valid_densities:
                raise errors.InvalidContainer(f"Unsupported density flag {density_flag} in DCM")
        else:
            raise errors.InvalidContainer("Not a DCM file")
""", """        archive_type = self.get_next()
        if archive_type not in (0xf9, 0xfa):
            raise errors.InvalidContainer("Not a DCM file")
        archive_flags = self.get_next()
        if archive_flags & 0x1f != 1:
            messages = {0xf9: "DCM multi-file archive combined in the wrong order", 0xfa: "Expected pass one of DCM archive first"}
            raise errors.InvalidContainer(messages[archive_type])
        density_flag = (archive_flags >> 5) & 3
        if density_flag not in self.valid_densities:
            raise errors.InvalidContainer(f"Unsupported density flag {density_flag} in DCM")
"""),
# ---- __init__
(N, """    for name in files:
        try:
            dirent = image.find_dirent(name)
        except errors.FileNotFound:
            print("%s not in %s" % (name, image))
            continue
        # names on""", """    for name in files:
        dirent = _lookup(image, name)
        if dirent is None:
            continue
        # names on"""),
(N, """def extract_files(""", """def _lookup(image, name):
    try:
        return image.find_dirent(name)
    except errors.FileNotFound:
        print("%s not in %s" % (name, image))
        return None


def extract_files("""),
(N, """    for name in files:
        try:
            dirent = image.find_dirent(name)
        except errors.FileNotFound:
            print("%s not in %s" % (name, image))
            continue
        if getattr""", """    for name in files:
        dirent = _lookup(image, name)
        if dirent is None:
            continue
        if getattr"""),
(N, """        if not options.dry_run:
            data = image.get_file(dirent)
            if os.path.exists(output) and not options.force:
                print("skipping %s, file exists. Use -f to overwrite" % output)
                continue
            print("extracting %s -> %s" % (name, output))
            if options.text:
                data = data.replace(b'\\x7f', b'\\t')
                data = data.replace(b'\\x9b', b'\\n')
            with open(output, "wb") as fh:
                fh.write(data)
        else:
            print("extracting %s -> %s" % (name, output))
""", """        if options.dry_run:
            print("extracting %s -> %s" % (name, output))
            continue
        data = image.get_file(dirent)
        if os.path.exists(output) and not options.force:
            print("skipping %s, file exists. Use -f to overwrite" % output)
            continue
        print("extracting %s -> %s" % (name, output))
        if options.text:
            data = data.translate(bytes.maketrans(b'\\x7f\\x9b', b'\\t\\n'))
        with open(output, "wb") as fh:
            fh.write(data)
"""),
(N, """    try:
        dirent = image.find_dirent(name)
        if options.force:
            image.delete_file(name)
        else:
            print("skipping %s, use -f to overwrite" % (name))
            return False
    except errors.FileNotFound:
        pass
    print("copying %s to %s" % (name, image.filename))
    if not options.dry_run:
        image.write_file(name, filetype, data)
        return True
    return False
""", """    try:
        image.find_dirent(name)
    except errors.FileNotFound:
        exists = False
    else:
        exists = True
    if exists:
        if not options.force:
            print("skipping %s, use -f to overwrite" % (name))
            return False
        image.delete_file(name)
    print("copying %s to %s" % (name, image.filename))
    if options.dry_run:
        return False
    image.write_file(name, filetype, data)
    return True
"""),
(N, """            if show_crc:
                data = image.get_file(dirent)
                crc = zlib.crc32(data) & 0xffffffff  # correct for some platforms that return signed int
                extra = "  %08x" % crc
            else:
                extra = ""
""", """            extra = "  %08x" % _file_crc(image, dirent) if show_crc else ""
"""),
(N, """            data = image.get_file(dirent)
            crc = zlib.crc32(data) & 0xffffffff  # correct for some platforms that return signed int
            print("%s: %08x" % (dirent.filename, crc))
""", """            print("%s: %08x" % (dirent.filename, _file_crc(image, dirent)))
"""),
(N, """def list_files(""", """def _file_crc(image, dirent):
    data = image.get_file(dirent)
    return zlib.crc32(data) & 0xffffffff  # correct for some platforms that return signed int


def list_files("""),
(N, """    if run_addr is None or run_addr == "":
        run_addr = None
    else:
        try:
            run_addr = text_to_int(run_addr)
        except AttributeError:
            # not text, must be an integer
            run_addr = int(run_addr)

    return segments, run_addr
""", """    if run_addr is None or run_addr == "":
        return segments, None
    if isinstance(run_addr, str):
        run_addr = text_to_int(run_addr)
    else:
        run_addr = int(run_addr)
    return segments, run_addr
"""),
(N, """            if ":" in slicetext:
                start, end = slicetext.split(":", 1)
                if end.endswith("]"):
                    end = end[:-1]
                try:
                    start = int(start) if start.strip() else 0
                    end = int(end) if end.strip() else None
                except ValueError:
                    raise errors.AtrError("Invalid subset [%s of data file %s" % (slicetext, name))
                subset = slice(start, end)
""", """            if ":" in slicetext:
                start, _, end = slicetext.partition(":")
                end = end[:-1] if end.endswith("]") else end
                try:
                    subset = slice(int(start) if start.strip() else 0, int(end) if end.strip() else None)
                except ValueError:
                    raise errors.AtrError("Invalid subset [%s of data file %s" % (slicetext, name))
"""),
(N, """    if parser is None:
        for mime in mime_parse_order:
            if verbose:
                print("Trying MIME type %s" % mime)
            parser = guess_parser_for_mime(mime, rawdata, verbose)
            if parser is None:
                continue
            if verbose:
                print("Found parser %s" % parser.menu_name)
            mime2 = guess_detail_for_mime(mime, rawdata, parser)
            if mime != mime2:
                mime = mime2
                if verbose:
                    print("Magic signature match: %s" % mime)
            break
    if parser is None:
        raise""", """    if parser is None:
        for candidate in mime_parse_order:
            if verbose:
                print("Trying MIME type %s" % candidate)
            parser = guess_parser_for_mime(candidate, rawdata, verbose)
            if parser is not None:
                if verbose:
                    print("Found parser %s" % parser.menu_name)
                mime = guess_detail_for_mime(candidate, rawdata, parser)
                if verbose and mime != candidate:
                    print("Magic signature match: %s" % mime)
                break
    if parser is None:
        raise"""),
]
