"""Mutants for trying the checks (development tool; no check uses it)."""
AT, D3, UT, DI, SEG = "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/utils.py", "atrcopy/diskimages.py", "atrcopy/segments.py"
EX, KB, SD, CO, DC, SP, CA, IN, PA, MA = ["atrcopy/%s.py" % n for n in "executables kboot standard_delivery container dcm spartados cartridge __init__ parsers magic".split()]
M = []


def m(id, prop, *edits):
    M.append((id, prop, edits))


m("01a", "C01", (AT, "| (hi & 0x03)", "| (hi & 0x01)"))
m("01b", "C01", (D3, "        while index < self.header.sector_size:\n            t = self.data[index]", "        while index < self.header.sector_size - 2:\n            t = self.data[index]"))
m("01c", "C01", (UT, "if self.ptr + count > self.sector_size:\n            count = self.space_remaining", "if self.ptr + count > self.sector_size - 1:\n            count = self.space_remaining - (self.sector_size == 255)"))
m("01d", "C01", (D3, "sector.get_tslist())\n            tslist.append(sector)\n            sector_num = sector.next_sector_num", "sector.get_tslist())\n            tslist.append(sector)\n            sector_num = sector.next_sector_num & 0xff"))
m("01e", "C01", (AT, "self.payload_bytes = self.sector_size - 3", "self.payload_bytes = min(self.sector_size, 255) - 3 + (self.sector_size > 128)"))
m("01f", "C01", (AT, "        self.data[index + 2] = self.used", "        self.data[index + 2] = self.used & 0x7f if self.sector_size == 128 else self.used & 0xfe | (self.used > 252)"))
m("02a", "C02", (AT, "(4 * int(self.mydos))", "(4 * int(self.mydos and not self.locked))"))
m("02b", "C02", (UT, "            current = index + 1\n", "            current = index\n") )
m("02c", "C02", (UT, "        self.vtoc[0x38:] = vtoc.flatten()", "") if 0 else (D3, "        self.vtoc[0x38:] = vtoc.flatten()", "        vtoc[:, 2:] = 0\n        self.vtoc[0x38:] = vtoc.flatten()"))
m("02d", "C02", (AT, "values[1] = self.num_sectors\n        values[2] = self.starting_sector", "values[1] = self.num_sectors & 0x3ff\n        values[2] = self.starting_sector"))
m("02e", "C02", (D3, "            t, s = image.header.track_from_sector(next_sector)\n            sector.data[1] = t", "            t, s = image.header.track_from_sector(next_sector)\n            if sector is self.sectors[-1]:\n                t = s = 0\n            sector.data[1] = t"))
m("02f", "C02", (AT, "bits = np.unpackbits(self.vtoc1[0x0a:0x64])", "self.vtoc1[0x64:] = 0\n        bits = np.unpackbits(self.vtoc1[0x0a:0x64])"))
m("03a", "C03", (AT, "self.vtoc1[0x0a:0x64] = packed\n", "self.vtoc1[0x0a:0x63] = packed[:-1]\n"))
m("03b", "C03", (UT, "            num = free[0]\n", "            num = free[0]\n            if num == 360 and len(free) > 1:\n                num = free[1]\n"))
m("03c", "C03", (UT, "        for i in range(num):\n            order.append(self.get_next_free_sector())", "        for i in range(num):\n            order.append(self.get_next_free_sector())\n            if i > 254:\n                self.sector_map[order[0]] = 1"))
m("03d", "C03", (D3, "        self.num_sectors = sector_list.num_sectors\n", "        self.num_sectors = min(sector_list.num_sectors, 255)\n"))
m("03e", "C03", (D3, "max_sectors = max_tracks * 16", "max_sectors = 34 * 16") )
m("04a", "C04", (DI, "            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def build_sectors", "            self.rollback_transaction(state)\n            raise\n        else:\n            self.get_metadata()\n\n    def build_sectors"))
m("04b", "C04", (UT, "        raise errors.NotEnoughSpaceOnDisk(\"No space left in VTOC\")", "        if self.sector_size == 256:\n            return 0\n        raise errors.NotEnoughSpaceOnDisk(\"No space left in VTOC\")"))
m("04c", "C04", (DI, "        self.bytes[:], self.style[:] = state", "        self.bytes[:-256], self.style[:] = state[0][:-256], state[1]"))
m("04d", "C04", (UT, "            if self.num_dirents > 0 and (len(used) >= self.num_dirents):", "            if self.num_dirents > 0 and (len(used) > self.num_dirents):"))
m("05a", "C05", (UT, "        for sector in sector_list:\n            self.sector_map[sector.sector_num] = 1", "        for sector in sector_list:\n            if sector.sector_num < 719:\n                self.sector_map[sector.sector_num] = 1"))
m("05b", "C05", (D3, "        sectors.extend(self.track_sector_list)\n", "        sectors.append(self.track_sector_list[0])\n"))
m("05c", "C05", (UT, "                if not dirent.in_use:\n                    return i", "                if not dirent.in_use and i > 0:\n                    return i"))
m("05d", "C05", (UT, "if dirent.in_use and filename == dirent.filename:", "if dirent.in_use and filename[:10] == dirent.filename[:10]:"))
m("05e", "C05", (DI, "            if filename == dirent.filename:", "            if dirent.filename.startswith(filename):"))
m("05f", "C05", (AT, "        self.deleted = True\n        self.in_use = False", "        self.deleted = True\n        self.in_use = self.opened_output"))
m("06a", "C06", (AT, "            elif dirent.flag == 0:\n                break", "            elif not dirent.deleted:\n                break"))
m("06b", "C06", (D3, "            while i < 256:\n                dirent", "            while i < 256 - 0x23:\n                dirent"))
m("06c", "C06", (D3, "self._file_type = values[2] & 0x7f", "self._file_type = values[2] & 0x3f"))
m("06d", "C06", (AT, "        self.ext = bytes(values[4]).rstrip()\n        self.is_sane", "        self.ext = bytes(values[4]).strip()\n        self.is_sane"))
m("06e", "C06", (AT, "self.locked = (flag&0x20) > 0\n        self.in_use", "self.locked = (flag&0x21) > 0x1f and not flag & 1\n        self.in_use"))
m("06f", "C06", (D3, "self.filename = '%-30s' % filename[0:30]", "self.filename = '%-30s' % filename[0:30].rstrip('_')"))
m("07a", "C07", (DI, "sector < (self.max_sectors + self.starting_sector_label))", "sector <= (self.max_sectors + self.starting_sector_label))"))
m("07b", "C07", (AT, "self.max_sectors = ((self.image_size - initial_bytes) // self.sector_size) + self.num_initial_sectors", "self.max_sectors = (self.image_size // self.sector_size) + self.num_initial_sectors"))
m("07c", "C07", (SEG, "            sector, byte = divmod(index, self.boot_sector_size)\n        if lower_case:", "            sector, byte = divmod(index, self.page_size)\n        if lower_case:"))
m("07d", "C07", (SEG, "        t, s = divmod(sector, 16)", "        t, s = divmod(sector, 16)\n        t = min(t, 33)"))
m("07e", "C07", (DI, "            _, more = self.header.get_pos(start)\n            size += more", "            _, more = self.header.get_pos(min(start, end - 1))\n            size += more"))
m("08a", "C08", (AT, "        values[5] = self.unused\n", "        values[5] = self.unused & 0xffff\n"))
m("08b", "C08", (AT, "(int(values[3]) * 256 * 256 + int(values[1])) * 16", "((int(values[3]) & 0x0f) * 256 * 256 + int(values[1])) * 16"))
m("08c", "C08", (AT, "            if values[0] != 0x296:", "            if values[0] & 0x7fff != 0x296:"))
m("08d", "C08", (AT, "elif size == 183936 or size == 183952:\n            self.image_size = 183936", "elif size == 183936 or size == 183952:\n            self.image_size = 184320"))
m("09a", "C09", (AT, "        next_sector = ((raw[-3] & 0x3) << 8) + raw[-2]\n        if next_sector in self.sectors_seen:", "        next_sector = ((raw[-3] & 0x3) << 8) + raw[-2]\n        if next_sector in self.sectors_seen and next_sector != self.starting_sector:"))
m("09b", "C09", (AT, "        self.first_vtoc = 360 - num + 1\n        self.assert_valid_sector(self.first_vtoc)", "        self.first_vtoc = 360 - num + 1"))
m("09c", "C09", (AT, "        if not image.header.sector_is_valid(self.starting_sector):\n            return False\n        if self.num", "        if not image.header.sector_is_valid(self.starting_sector & 0x3ff):\n            return False\n        if self.num"))
m("09d", "C09", (SP, "self.root_dir <= num and", ""))
m("10a", "C10", (AT, "        if file_num != self.file_num:", "        if file_num != self.file_num and file_num != 0:"))
m("10b", "C10", (AT, "next_sector = (raw[-3] << 8) + raw[-2]", "next_sector = ((raw[-3] & 0x7) << 8) + raw[-2]"))
m("10c", "C10", (AT, "            if dirent.mydos:", "            if dirent.mydos and not dirent.locked:"))
m("10d", "C10", (D3, "last = (self.current_sector_index == len(self.sector_map) - 1)", "last = (self.current_sector_index >= min(len(self.sector_map), 240) - 1)"))
m("10e", "C10", (AT, "bytes, self.current_sector == 0, pos, num_data_bytes", "bytes, self.current_sector == 0 or num_data_bytes == 0, pos, num_data_bytes"))
m("23a", "C23", (DI, "                self.bytes[pos:pos + size] = fill_value", "                self.bytes[pos:pos + 128] = fill_value"))
m("23b", "C23", (UT, "self.sector_map[i] == 1:\n                yield", "self.sector_map[i] == 1 and i < 720:\n                yield"))
m("23c", "C23", (UT, "        for i, pos, size in self.header.iter_sectors():\n", "        for i, pos, size in self.header.iter_sectors():\n            if i == 560 - 1: break\n"))
m("23d", "C23", (IN, "        image.shred(value)\n", "        image.shred(value or 0xff)\n"))
m("11a", "C11", (EX, "        if s.origin == 0x2e0:", "        if s.origin <= 0x2e0 < s.origin + len(s):"))
m("11b", "C11", (EX, "run_addr < s.origin + len(s):\n                    found = True\n                    break\n            if not found:\n                raise errors.InvalidBinaryFile(\"Run address points outside data segments\")\n        else:", "run_addr <= s.origin + len(s):\n                    found = True\n                    break\n            if not found:\n                raise errors.InvalidBinaryFile(\"Run address points outside data segments\")\n        else:"))
m("11c", "C11", (EX, "run_addr = segments[0].origin", "run_addr = min(s.origin for s in segments)"))
m("11d", "C11", (EX, "words[1] = s.origin + len(s) - 1", "words[1] = min(s.origin + len(s) - 1, 0xfffe)"))
m("12a", "C12", (AT, "            if end < start:\n                raise errors.InvalidBinaryFile", "            if end <= start:\n                raise errors.InvalidBinaryFile"))
m("12b", "C12", (AT, "            if found < count:\n", "            if found < count - 1:\n"))
m("12c", "C12", (AT, "        return self.data[0:2].view(dtype=\"<u2\")[0]", "        return self.data[-2:].view(dtype=\"<u2\")[0]"))
m("12d", "C12", (AT, "            if header == 0xffff:\n", "            if header == 0xffff and (first or pos < 0x100):\n"))
m("13a", "C13", (EX, "        last = max(last, s.origin + len(s))", "        last = s.origin + len(s)") )
m("13b", "C13", (EX, "        all_segments.extend(segments)", "        all_segments.extend(sorted(segments, key=lambda s: s.origin))"))
m("13c", "C13", (D3, "            if count != self.size - 4:", "            if count > self.size - 4:"))
m("13d", "C13", (EX, "        raw = SegmentData([0x4c, lo, hi])", "        raw = SegmentData([0x4c, lo, hi & 0x7f])"))
m("13e", "C13", (SEG, "        header[1] = len(data)", "        header[1] = len(data) & 0x7fff"))
m("14a", "C14", (KB, "    num_sectors = (xex_size + sec_size - 1) // sec_size", "    num_sectors = xex_size // sec_size + 1"))
m("14b", "C14", (KB, "start + count < image.size - 128:", "start + count < image.size - 127:"))
m("14c", "C14", (KB, "    bytes = np.append(bytes, np.zeros([padded_size - xex_size], dtype=np.uint8))", "    bytes = np.append(bytes, np.repeat(bytes[-1:], padded_size - xex_size))"))
m("14d", "C14", (KB, "count = image.bytes[i] + 256 * image.bytes[i+1] + 256 * 256 *image.bytes[i + 2]", "count = image.bytes[i] + 256 * (image.bytes[i+1] & 0x7f) + 256 * 256 *image.bytes[i + 2]"))
m("15a", "C15", (SD, "address_order.extend([chunk_hi[n], 0xe0 + len(subset) - 1])", "address_order.extend([chunk_hi[n], 0xe0 + min(len(subset) - 1, 30)])"))
m("15b", "C15", (SD, "sector_order = [0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 15]\n        track", "sector_order = [0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1]\n        track"))
m("15c", "C15", (SD, "data[pointer:pointer + 2] = (lo, hi)", "data[pointer:pointer + 2] = (lo, hi - (lo == 0xff))"))
m("15d", "C15", (SD, "0x32, 0x36, 0x3a, 0x3e, 0x23", "0x32, 0x3a, 0x36, 0x3e, 0x23"))
m("15e", "C15", (SD, "(chunk_start == 0x20 or chunk_start == 0x40) and padding == 1", "chunk_start in (0x20, 0x40, 0x60) and padding == 1"))
m("16a", "C16", (SEG, "        base_index = index + self.get_raw_index(0)", "        base_index = index + (self.get_raw_index(0) & 0xffff if len(index) > 1 else self.get_raw_index(0) & 0xff)"))
m("16b", "C16", (SEG, "            start, end = self.byte_bounds_offset()\n            copy = SegmentData(d[start:end], s[start:end])", "            start, end = self.byte_bounds_offset()\n            copy = SegmentData(d[start:end], self.style)"))
m("16c", "C16", (SEG, "        self.data[index] = value\n        self._search_copy = None", "        self.data[index] = value"))
m("16d", "C16", (SEG, "        if r < 0:\n            raise IndexError", "        if r < -1:\n            raise IndexError"), (SEG, "        if index < 0:\n            raise IndexError(\"index %d not in this segment\" % base_index)\n        return int(index)", "        return int(index)"))
m("16e", "C16", (SEG, "            copy = SegmentData(d, s, order=self.order)", "            copy = SegmentData(d, s, self.extra, order=self.order)"))
m("16f", "C16", (SEG, "        return self.get_raw_index(addr - self.origin)", "        return self.get_raw_index(addr - (self.origin & 0xff00))"))
m("17a", "C17", (SEG, "    if 'user' in kwargs and kwargs['user']:\n        bits |= user_bit_mask", "    if 'user' in kwargs and kwargs['user']:\n        bits |= kwargs['user']"))
m("17b", "C17", (SEG, "np.where(np.diff(w) != 1)[0] + 1)\n        ranges", "np.where(np.diff(w) > 2)[0] + 1)\n        ranges"))
m("17c", "C17", (SEG, "                if d[i] != current or i != end:", "                if d[i] != current:"))
m("17d", "C17", (SEG, "            for i in range(start, end):\n                rawindex = self.get_raw_index(i)\n                if rawindex in", "            for i in range(start, max(end - 1, start + 1)):\n                rawindex = self.get_raw_index(i)\n                if rawindex in"))
m("17e", "C17", (SEG, "        for i in range(1, user_bit_mask):\n            slot = \"user style %d\" % i\n            if slot in e:", "        for i in range(1, user_bit_mask - 1):\n            slot = \"user style %d\" % i\n            if slot in e:"))
m("17f", "C17", (SEG, "            self.set_comment_at(index + index_offset, comment)", "            self.set_comment_at(index + index_offset, comment)\n            self.set_style_at_indexes([index], comment=True)"))
m("17g", "C17", (SEG, "            clamped = indexes[np.where(np.less(indexes, len(self)))[0]]", "            clamped = indexes[np.where(np.less(indexes, len(self) - 1))[0]]"))
m("18a", "C18", (SEG, "        start, end = self._rawdata_bounds\n", "        start, end = self._rawdata_bounds\n        if self._order_list: start, end = min(self._order_list), end\n"))
m("18b", "C18", (SEG, "        self.uuid = state.pop('uuid', uuid())\n", "        state.pop('uuid', None)\n        self.uuid = uuid()\n"))
m("18c", "C18", (SEG, "            self.data = base_raw.data[start:end]\n            self.style = base_raw.style[start:end]", "            self.data = base_raw.data[start:end]\n            self.style = base_raw.style[start:end].copy()"))
m("18d", "C18", (SEG, "                self.data[origsize:] = 0\n                self.style[origsize:] = 0", "                self.data[origsize - 1:] = 0\n                self.style[origsize:] = 0"))
m("18e", "C18", (SEG, "extra_serializable_attributes = ['metadata_start', 'data_start']", "extra_serializable_attributes = ['metadata_start']"))
m("19a", "C19", (SEG, "                interleave[start::factor] = order[i:size:num_bytes]", "                interleave[start::factor] = order[i % size:size:num_bytes] if i < 3 else order[3:size:num_bytes]"))
m("19b", "C19", (SEG, "        if len(s) < size:\n            size = len(s)", "        if len(s) < size and len(s) > 0:\n            size = len(s)"))
m("19c", "C19", (SEG, "        if id(d) != id(data_base) or id(s) != id(style_base):", "        if len(d) != len(data_base) or len(s) != len(style_base):"))
m("20a", "C20", (CA, "            while s > 0:", "            while s > self.bank_size:"))
m("20b", "C20", (CA, "(14, \"XEGS 128 KB\", 128, 8, 120,", "(14, \"XEGS 128 KB\", 128, 8, 112,"))
m("20c", "C20", (CA, "        if rem > 0:\n            raise", "        if rem > 16:\n            raise"))
m("20d", "C20", (CA, "        values[2] = self.crc\n", "        values[2] = self.crc & 0x7fffffff\n"))
m("20e", "C20", (CA, "            end = start + (self.header.bank_size * 1024)", "            end = start + (self.header.main_size * 1024)"), (CA, "(3,  \"OSS two chip (034M) 16 KB\", 16, 4, 12, 0xb000, 4, 0, 0xa000)", "(3,  \"OSS two chip (034M) 16 KB\", 16, 4, 12, 0xb000, 4, 0, 0xa000)"))
m("21a", "C21", (UT, "        value = int(text[1:], 2)", "        value = int(text[1:], 2) & 0xffff"))
m("21b", "C21", (UT, "    elif text.startswith(\"#\"):\n        value = int(text[1:], 10)", "    elif text.startswith(\"#\"):\n        value = int(text[1:], 0)"))
m("21c", "C21", (IN, "        name, addr = name.rsplit(\"@\", 1)", "        name, addr = name.split(\"@\", 1)"))
m("21d", "C21", (IN, "                subset = slice(start, end)", "                subset = slice(start, end or None)"))
m("21e", "C21", (IN, "                    if not run_addr:\n                        run_addr = s.run_address()", "                    if not run_addr:\n                        run_addr = \"%x\" % s.run_address() if s.run_address() < 0x8000 else s.run_address() & 0xff00"))
m("22a", "C22", (IN, "            if os.path.exists(output) and not options.force:", "            if os.path.isfile(output) and os.path.getsize(output) and not options.force:"))
m("22b", "C22", (IN, "        if options.force:\n            image.delete_file(name)", "        if options.force or getattr(dirent, 'num_sectors', 1) == 0:\n            image.delete_file(name)"))
m("22c", "C22", (IN, "    if not options.dry_run:\n        image.shred(value)\n        image.save()", "    image.shred(value)\n    if not options.dry_run or value:\n        image.save()"))
m("22d", "C22", (IN, "        if os.path.exists(name) and not options.force:\n            print(\"skipping %s, use -f to overwrite\" % (name))", "        if os.path.exists(name.lower()) and not options.force:\n            print(\"skipping %s, use -f to overwrite\" % (name))"))
m("24a", "C24", (CO, "        except EOFError as e:\n            raise errors.InvalidContainer(e)", "        except EOFError as e:\n            unpacked = b''"))
m("24b", "C24", (DC, "            if archive_flags & 0x1f != 1:", "            if archive_flags & 0x0f != 1:"))
m("24c", "C24", (DC, "        2: (1040, 128),", "        2: (1040, 128),\n        3: (720, 256),"))
m("24d", "C24", (PA, "            found = c(r)\n        except errors.InvalidContainer as e:", "            found = c(r)\n            if len(found.unpacked) < 16: continue\n        except errors.InvalidContainer as e:"))
m("24e", "C24", (CO, "        except lzma.LZMAError as e:\n            raise errors.InvalidContainer(e)", "        except lzma.LZMAError as e:\n            if byte_data[:1] == b'\\xfd':\n                raise errors.UnsupportedContainer(e)\n            raise errors.InvalidContainer(e)"))
m("25a", "C25", (SP, "self.length = 256*256*values[3] + values[2]", "self.length = 256*256*(values[3] & 0x7f) + values[2]"))
m("25b", "C25", (SP, "        self.in_use = (flag&0b1000) > 0", "        self.in_use = (flag&0b1000) > 0 or flag == 1"))
m("25c", "C25", (SP, "                m = np.hstack((m, b[4:].view(dtype='<u2')))", "                m = np.hstack((m, b[4:-2].view(dtype='<u2')))"))
m("25d", "C25", (SP, "        num_data_bytes = min(self.length_remaining, size)", "        num_data_bytes = min(self.length_remaining, size) if self.sector_map_index else min(self.length, size, 0xffff)"), )
m("25e", "C25", (SP, "        self.locked = (flag&0x1) > 0", "        self.locked = (flag&0x1) > 0 and not flag & 0x20"))
m("26a", "C26", (PA, "        SpartaDosSegmentParser,\n        AtariDosSegmentParser,", "        AtariDosSegmentParser,\n        SpartaDosSegmentParser,"))
m("26b", "C26", (PA, "    \"application/vnd.atari5200.cart\",\n    \"application/vnd.mame_rom\",\n    \"application/vnd.apple2.dsk\",\n    \"application/vnd.apple2.bin\",\n    \"application/vnd.rom\",\n    ]\n\n# different", "    \"application/vnd.atari5200.cart\",\n    \"application/vnd.mame_rom\",\n    \"application/vnd.apple2.bin\",\n    \"application/vnd.apple2.dsk\",\n    \"application/vnd.rom\",\n    ]\n\n# different"))
m("26c", "C26", (CA, "        if (size & (size - 1)) != 0:", "        if size & 0xff != 0 and (size & (size - 1)) != 0:"))
m("26d", "C26", (D3, "            if data[1] < 35 and data[2] < 16:", "            if data[1] < 35 and data[2] < 15:"))
m("26e", "C26", (AT, "        if size in [92160, 133120, 183936, 184320]:", "        if size in [92160, 133120, 184320]:"))
m("26f", "C26", (AT, "        if nsec > max_sectors or nsec < 1:", "        if nsec >= max_sectors or nsec < 1:"))

# ---- second round
m("q01a", "C01", (DI, "while index < len(data) or len(sectors) == 0:", "while index < len(data) - 1 or len(sectors) == 0:"))
m("q01b", "C01", (D3, "            end = min(start + header.ts_pairs, len(sector_list))", "            end = min(start + header.ts_pairs, len(sector_list), 366)"))
m("q01c", "C01", (UT, "    	return np.asarray(value, dtype=np.uint8)", "    	return np.trim_zeros(np.asarray(value, dtype=np.uint8), 'b')"))
m("q01d", "C01", (AT, "        self.data[index + 0] = (self.file_num << 2) | (hi & 0x03)", "        self.data[index + 0] = ((self.file_num & 0x1f) << 2) | (hi & 0x03)"))
m("q02a", "C02", (D3, "            if self.deleted and data[0] != 0xff:", "            if self.deleted:"))
m("q02b", "C02", (AT, "flag = (int(self.flag) & 0x08) | ", "flag = "))
m("q02c", "C02", (DI, "            directory.remove_dirent(self, dirent, vtoc, sector_list)\n", "            directory.remove_dirent(self, dirent, vtoc, sector_list)\n            self.write_sector_list(sector_list)\n"))
m("q02d", "C02", (D3, "        self.sector_map[0:self.max_sectors] = bits[self.vtoc_bit_reorder_index]", "        self.sector_map[0:560] = bits[self.vtoc_bit_reorder_index][0:560]"))
m("q03a", "C03", (UT, "            num = free[0]\n", "            num = free[0] if free[0] > 3 else free[-1]\n"))
m("q03b", "C03", (AT, "divmod(int(self.sector_map[0:720].sum()), 256)", "divmod(int(self.sector_map[1:719].sum()), 256)"))
m("q03c", "C03", (UT, "            self.sector_map[num] = 0\n            return num", "            if num != 719 or len(free) > 1:\n                self.sector_map[num] = 0\n            return num"))
m("q04a", "C04", (DI, "        except Exception:\n            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def build_sectors", "        except errors.AtrError:\n            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def build_sectors"))
m("q04b", "C04", (DI, "        except Exception:\n            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def shred", "        except errors.FileNotFound:\n            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def shred"))
m("q05a", "C05", (D3, "                if sector_num > 0:\n                    sector = Writ", "                if sector_num == 0:\n                    break\n                if sector_num > 0:\n                    sector = Writ"))
m("q05b", "C05", (UT, "                if dirent.in_use and dirent == filename:", "                if dirent.in_use and dirent.filename == filename.filename:"))
m("q05c", "C05", (UT, "                if dirent.deleted and not dirent.in_use:\n                    return i", "                if dirent.deleted and not dirent.in_use and i + 1 < len(d):\n                    return i"))
m("q06a", "C06", (D3, '        0x8: "S",  # ?', '        0x8: "R",  # ?'))
m("q06b", "C06", (D3, "self.text_to_type.get(filetype, 0x04)", "self.text_to_type.get(str(filetype).upper(), 0x04)"))
m("q06c", "C06", (AT, "        while i < len(dir_bytes):\n", "        while i < len(dir_bytes) - 16:\n"))
m("q06d", "C06", (AT, "self.basename = b'%-8s' % filename[0:8]", "self.basename = b'%-8s' % filename[0:8].rstrip(b'_')"))
m("q07a", "C07", (SEG, "        sector += self.first_sector\n        t, s = divmod(sector, 16)", "        t, s = divmod(sector, 16)\n        t += self.first_sector // 16"))
m("q07b", "C07", (AT, "        if sector <= self.num_initial_sectors:\n            pos", "        if sector < self.num_initial_sectors:\n            pos"))
m("q08a", "C08", (AT, "        parshigh, pars = divmod(paragraphs, 256*256)", "        parshigh, pars = divmod(paragraphs, 256*256)\n        parshigh &= 0x7f"))
m("q08b", "C08", (AT, "            self.flags = int(values[6])", "            self.flags = int(values[6]) & 0x7f"))
m("q09a", "C10", (AT, "        num_bytes = raw[-1]\n        if num_bytes > len(raw) - 3:\n            raise errors.InvalidFile(\"Bad number of bytes in sector: %d\" % num_bytes)\n        return raw[0:num_bytes], num_bytes\n\n    def set_values", "        num_bytes = raw[-1]\n        if num_bytes > len(raw):\n            raise errors.InvalidFile(\"Bad number of bytes in sector: %d\" % num_bytes)\n        return raw[0:num_bytes], num_bytes\n\n    def set_values"))
m("q09b", "C09", (SP, "range(23, len(s) - 22, 23)", "range(23, len(s), 23)"))
m("q09c", "C09", (SP, "            if sector in seen:\n", "            if sector in seen and len(seen) > 1:\n"))
m("q09d", "C09", (D3, "            image.assert_valid_sector(sector_num)\n            if sector_num in seen:", "            if sector_num in seen:"))
m("q09e", "C09", (AT, "        if not image.header.sector_is_valid(self.starting_sector):\n            return False\n        if self.num", "        if self.starting_sector > image.header.max_sectors + 1:\n            return False\n        if self.num"))
m("q10a", "C10", (AT, "        num_bytes = raw[-1]\n        if num_bytes > len(raw) - 3:\n            raise errors.InvalidFile(\"Bad number of bytes in sector: %d\" % num_bytes)\n        return raw[0:num_bytes], num_bytes\n\n    def set_values", "        num_bytes = raw[-1] or len(raw) - 3\n        if num_bytes > len(raw) - 3:\n            raise errors.InvalidFile(\"Bad number of bytes in sector: %d\" % num_bytes)\n        return raw[0:num_bytes], num_bytes\n\n    def set_values"))
m("q10b", "C10", (AT, "            if dirent.mydos:", "            if dirent.mydos and dirent.dos_2:"))
m("q11a", "C11", (EX, "        if s.origin == 0x2e0:", "        if s.origin == 0x2e0 and len(s) == 2:"))
m("q11b", "C11", (EX, "        new_s.data[4:4+len(s)] = s[:]", "        new_s.data[4:4+len(s)] = s.rawdata.data_base[:len(s)] if s.rawdata.is_indexed and len(s.rawdata.data_base) == len(s) else s[:]"))
m("q12a", "C12", (AT, "            if start == 0x2e0 and count > 1:", "            if start == 0x2e0 and count == 2:"))
m("q12b", "C12", (AT, "            if len(b[pos:pos + 4]) < 4:\n                self.segments.append(", "            if len(b[pos:pos + 4]) < 4:\n                if len(b[pos:pos + 4]) == 3: self.segments.append("))
m("q13a", "C13", (EX, "    if run_addr is not None and run_addr != origin:", "    if run_addr is not None and run_addr > origin:"))
m("q13b", "C13", (EX, "        image[index:index + len(s)] = s.data", "        image[index:index + len(s)] = s.data[:] | image[index:index + len(s)]"))
m("q14a", "C14", (KB, "    if xex_size > 0xffff:", "    if xex_size > 0x10000:"))
m("q14b", "C14", (KB, "        if start + count > image.size or", "        if start + count >= image.size or"))
m("q14c", "C14", (KB, "    bytes = np.append(bytes, np.zeros([padded_size - xex_size], dtype=np.uint8))", "    bytes = np.append(bytes[:-1], np.zeros([padded_size - xex_size + 1], dtype=np.uint8)) if bytes[-1] == 0xff else np.append(bytes, np.zeros([padded_size - xex_size], dtype=np.uint8))"))
m("q15a", "C15", (SD, "chunk_start + len(pages) > 0xc0:", "chunk_start + len(pages) >= 0xc0:"))
m("q15b", "C15", (SD, "            size = ((len(s) + padding + 255) // 256) * 256", "            size = ((len(s) + 255) // 256 + (padding > 128)) * 256"))
m("q15c", "C15", (SD, "                    if not first_page_1:\n                        address_list.append(0xd1)\n                    first_page_1 = False", "                    if not first_page_1:\n                        address_list.append(0xd1)\n                        address_list.append(0xd1)\n                    first_page_1 = False"))
m("q16a", "C16", (SEG, "            d = self.data.np_data.copy()\n            s = self.style.np_data.copy()", "            d = self.data.np_data.copy()\n            s = self.style.np_data"))
m("q16b", "C16", (SEG, "        check = self.data[index]\n", ""))
m("q16c", "C16", (SEG, "        if index < 0:\n            raise IndexError(\"index %d not in this segment\" % base_index)\n        return int(index)", "        return int(index) & 0xffff"))
m("q16d", "C16", (SEG, "        return int(self.data_start - self.base_start + i)", "        return int(self.data_start - self.base_start) + (int(i) if i < 256 else int(i) & 0xffff)"))
m("q17a", "C17", (SEG, "            index_tuple = (index + 1, 0)", "            index_tuple = (index + 1, index + 1)"))
m("q17b", "C17", (SEG, "start = reduce(min, [min(r) for r in ranges])", "start = min(ranges[0])"))
m("q17c", "C17", (SEG, "                    # no comment in original data, remove any if exists\n                    try:", "                    # no comment in original data, remove any if exists\n                    if i == start: continue\n                    try:"))
m("q17d", "C17", (SEG, "            raw = self.get_raw_index(indexes[where_index])", "            raw = self.get_raw_index(indexes[0] + where_index)"))
m("q17e", "C17", (SEG, "                    if last_style == masked_style:\n                        ((prev_end, _), _) = ranges.pop()\n                        ranges.append(((prev_end, next_end), masked_style))\n                    else:\n                        ranges.append(((last_end, next_end), masked_style))\n            else:", "                    if last_style == masked_style:\n                        ((prev_end, _), _) = ranges.pop()\n                        ranges.append(((last_end, next_end), masked_style))\n                    else:\n                        ranges.append(((last_end, next_end), masked_style))\n            else:"))
m("q17f", "C17", (SEG, "        style_base[comment_text_indexes] |= comment_style", "        style_base[both] |= comment_style"))
m("q18a", "C18", (UT, "    return np.asarray(value, dtype=np.uint32)", "    return np.asarray(value, dtype=np.uint16)"))
m("q18b", "C18", (SEG, "            self.style.np_data = base_raw.style\n            self.style.base = base_raw.style.base", "            self.style.base = base_raw.style.base"))
m("q18c", "C18", (SEG, "        self.memory_map = dict(state.pop('memory_map', []))", "        self.memory_map = dict(state.get('memory_map', []))"))
m("q18d", "C18", (SEG, "            if self._order_list is not None:", "            if self._order_list is not None and len(self._order_list) > 1:"))
m("q19a", "C19", (SEG, "    _, rem = divmod(size, num_bytes)\n    size -= rem", "    _, rem = divmod(size, num_bytes)\n    if rem < num_bytes - 1 or num_bytes < 3:\n        size -= rem"))
m("q19b", "C19", (SEG, "        if id(d) != id(data_base) or id(s) != id(style_base):", "        if id(d) != id(data_base) and id(s) != id(style_base):"))
m("q20a", "C20", (CA, "            self.header.set_type(self.cart_type)\n            self.check_size()", "            self.header.set_type(self.cart_type)"))
m("q20b", "C20", (CA, '(53, "Low bank 8 KB", 8, 8, 0, 0x8000)', '(53, "Low bank 8 KB", 8, 8, 0, 0xa000)'))
m("q20c", "C20", (CA, "            data_with_header[h.nominal_length:] = self.bytes", "            data_with_header[h.nominal_length:] = self.bytes\n            data_with_header[-1] = 0"))
m("q21a", "C21", (IN, "start = int(start) if start.strip() else 0", "start = int(start) if start.strip().isdigit() else 0"))
m("q21b", "C21", (IN, "end = int(end) if end.strip() else None", "end = int(end, 0) if end.strip() else None"))
m("q21c", "C21", (IN, "                elif s.origin > 0:", "                elif s.origin > 0xff:"))
m("q22a", "C22", (IN, "            if not options.dry_run and not os.path.exists(options.dir):", "            if not os.path.exists(options.dir):"))
m("q22b", "C22", (IN, "            image.delete_file(name)\n            changed = True\n", "            image.delete_file(name)\n            changed = name != files[-1] or len(files) == 1\n"))
m("q22c", "C22", (IN, "        output = dirent.filename.replace(os.sep, \"_\")", "        output = dirent.filename.lstrip(os.sep)"))
m("q22d", "C22", (IN, "        if os.path.exists(name) and not options.force:\n            print(\"skipping %s, use -f to overwrite\" % (name))", "        if os.path.exists(name) and os.path.getsize(name) and not options.force:\n            print(\"skipping %s, use -f to overwrite\" % (name))"))
m("q23a", "C23", (DI, "            for sector_num, pos, size in vtoc.iter_free_sectors():\n", "            for sector_num, pos, size in vtoc.iter_free_sectors():\n                if fill_value == 255 and not self.bytes[pos:pos + size].any(): continue\n"))
m("q24a", "C24", (CO, "        except (OSError, zlib.error) as e:", "        except zlib.error as e:"))
m("q24b", "C24", (PA, "            return found\n    log.info(f\"image does", "            if len(found.unpacked) == 0:\n                return None\n            return found\n    log.info(f\"image does"))
m("q25a", "C25", (SP, "range(23, len(s) - 22, 23)", "range(23, len(s) - 23, 23)"))
m("q25b", "C25", (SP, "        self.in_use = (flag&0b1000) > 0", "        self.in_use = (flag&0b1000) > 0 and not (flag & 0x80)"))
m("q25c", "C25", (SP, "        if self.length_remaining <= 0 or self.sector_map_index", "        if self.length_remaining < 0 or self.sector_map_index"))
m("q27a", "C27", ("atrcopy/mame.py", "rom = np.frombuffer(zf.open(item).read(), dtype=np.uint8)", "rom = np.frombuffer(zf.open(item.filename).read(), dtype=np.uint8)"))
m("q27b", "C27", ("atrcopy/mame.py", "        for item in zf.infolist():\n            _, r", "        for item in zf.infolist()[:-1] or zf.infolist():\n            _, r"))
m("q27c", "C27", ("atrcopy/mame.py", "            roms.append(rom)\n", "            if not any(len(rom) == len(x) and (x == rom).all() for x in roms): roms.append(rom)\n"))
m("q27d", "C27", ("atrcopy/mame.py", "            except errors.AtrError:\n                raise\n            except Exception as e:", "            except errors.AtrError:\n                raise\n            except (zipfile.BadZipFile, RuntimeError, ValueError, OSError) as e:"))
m("q28a", "C28", (AT, "        start, count = self.get_contiguous_sectors(361, 8)\n        segment = Raw", "        start, count = self.get_contiguous_sectors(361, 8 if self.header.sector_size == 128 else 7)\n        segment = Raw"))
m("q28b", "C28", (DI, "            segments.append(segment)\n        return segments\n\n    def create_exec", "            if len(segment) or segment.error:\n                segments.append(segment)\n        return segments\n\n    def create_exec"))
m("q28c", "C28", (DI, "        self.segments.append(self.raw_sector_class(r[i:],", "        self.segments.append(self.raw_sector_class(r[i:i + self.header.max_sectors * self.header.sector_size],"))
m("q28d", "C28", (AT, "            byte_order.extend(list(range(pos, pos + size)))\n            if last:\n                break\n        if len(byte_order) > 0:\n            name = \"%s %ds@%d\"", "            byte_order.extend(list(range(pos, pos + size)))\n            if last or len(byte_order) > 90000:\n                break\n        if len(byte_order) > 0:\n            name = \"%s %ds@%d\""))
m("q28e", "C28", (D3, "            raw = self.rawdata.get_indexed(byte_order)\n            if dirent.file_type", "            raw = self.rawdata.get_indexed(byte_order)\n            if dirent.locked: raw = raw.copy()\n            if dirent.file_type"))
m("q29a", "C29", (IN, "                extra = \"  %08x\" % crc", "                extra = \"  %x\" % crc"))
m("q29b", "C29", (IN, "            data = image.get_file(dirent)\n            crc = zlib.crc32(data) & 0xffffffff  # correct for some platforms that return signed int\n            print", "            data = image.find_file(dirent.filename).rstrip(b'\\0')\n            crc = zlib.crc32(data) & 0xffffffff  # correct for some platforms that return signed int\n            print"))
m("q29c", "C29", (IN, "def crc_files(image, files):\n    files = set(files)", "def crc_files(image, files):\n    files = set(f.upper() for f in files)"))
m("q29d", "C29", (AT, "locked = \"*\" if self.locked else \" \"\n        flags = \"%s%s%s%s%s%s\"", "locked = \"*\" if self.locked and not self.opened_output else \" \"\n        flags = \"%s%s%s%s%s%s\""))
m("q29e", "C29", (DI, "        for dirent in self.files:\n            if filename == dirent.filename:", "        for dirent in self.files[::-1]:\n            if filename == dirent.filename:"))
# round 3
m("r01a", "C01", (UT, "        while index < len(data) or len(sectors) == 0", "") if 0 else (DI, "count = min(self.header.payload_bytes, len(data) - index)", "count = min(self.header.payload_bytes, len(data) - index)\n            if len(sectors) >= 255 and count > 1:\n                count -= 1"))
m("r01b", "C01", (AT, "hi, lo = divmod(value, 256)\n        self.data[index + 0]", "hi, lo = divmod(int(value) & 0x2ff if value >= 0x300 and self.used < 2 else value, 256)\n        self.data[index + 0]"))
m("r01c", "C01", (D3, "self.sector_map = sector_map[0:self.num_sectors - len(tslist)]", "self.sector_map = sector_map[0:self.num_sectors - max(len(tslist), 1)] if len(tslist) < 4 else sector_map[0:self.num_sectors - 3]"))
m("r01d", "C01", (UT, "            if last_sector is not None:\n                last_sector.next_sector_num = sector_num", "            if last_sector is not None:\n                last_sector.next_sector_num = sector_num if sector_num != 0x200 else 0"))
m("r02a", "C02", (AT, "        if self.raw_dirent is None:\n            values[3]", "        if self.raw_dirent is None or not self.ext:\n            values[3]"))
m("r02b", "C02", (AT, "flag = (int(self.flag) & 0x08) |", "flag = (int(self.flag) & 0x08 if self.in_use else 0) |"))
m("r02c", "C02", (D3, "            if self.deleted and data[0] != 0xff:\n", "            if self.deleted and (data[0] != 0xff or data[0x20] & 0x80):\n"))
m("r02d", "C02", (UT, "            for missing in range(current, index):", "            for missing in range(current, min(index, 63)):"))
m("r02e", "C02", (AT, "        s.sector_size = 8 * AtariDosDirent.format.itemsize\n", "        s.sector_size = 8 * AtariDosDirent.format.itemsize\n        s.data = s.data[:]\n") )
m("r03a", "C03", (AT, "        self.sector_map[0:720] = bits\n", "        self.sector_map[0:720] = bits\n        self.sector_map[0] = 0\n        self.sector_map[720:] = 0\n        self.sector_map[719] |= self.vtoc1[0x64] >> 7\n"))
m("r03b", "C03", (AT, "hi, lo = divmod(int(self.sector_map[0:720].sum()), 256)", "hi, lo = divmod(int(self.sector_map[1:720].sum()), 256)"))
m("r03c", "C03", (D3, "            end = min(start + header.ts_pairs, len(sector_list))", "            end = min(start + header.ts_pairs, len(sector_list) - (len(sector_list) > 2 * header.ts_pairs))"))
m("r04a", "C04", (DI, "        self.bytes[:], self.style[:] = state", "        self.bytes[self.header.header_offset + self.header.sector_size:] = state[0][self.header.header_offset + self.header.sector_size:]\n        self.style[:] = state[1]"))
m("r04b", "C04", (DI, "            directory.save_dirent(self, dirent, vtoc, sector_list)\n            self.write_sector_list(sector_list)", "            directory.save_dirent(self, dirent, vtoc, sector_list)\n            self.rawdata.extra.comments.clear()\n            self.write_sector_list(sector_list)"))
m("r04c", "C04", (UT, "        num = len(sector_list)\n        order", "        num = min(len(sector_list), max(self.num_free_sectors, 1))\n        del sector_list.sectors[num:]\n        order"))
m("r04d", "C04", (DI, "        except Exception:\n            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def build_sectors", "        except errors.AtrError:\n            self.rollback_transaction(state)\n            raise\n        finally:\n            self.get_metadata()\n\n    def build_sectors"))
m("r05a", "C05", (AT, "            sector_list.append(sector)\n            _, last, _, _ = self.read_sector(image)", "            _, last, _, n = self.read_sector(image)\n            if n > 0 or len(sector_list) == 0:\n                sector_list.append(sector)"))
m("r05b", "C05", (UT, "                if dirent.deleted and not dirent.in_use:", "                if dirent.deleted and not dirent.in_use and not dirent.locked:"))
m("r05c", "C05", (D3, "                if sector_num > 0:\n                    sector = Wri", "                if sector_num > 15:\n                    sector = Wri"))
m("r05d", "C05", (D3, "                data[0x20] = data[0]\n                data[0] = 0xff", "                data[0x20] = data[0] | 0x80 if data[2] & 0x80 else data[0]\n                data[0] = 0xff"))
m("r05e", "C05", (AT, "    def mark_deleted(self):\n        self.deleted = True\n        self.in_use = False", "    def mark_deleted(self):\n        self.deleted = True\n        self.in_use = False\n        self.num_sectors = 0"))
m("r06a", "C06", (AT, "            filename, ext = filename.split(b'.', 1)", "            filename, ext = filename.rsplit(b'.', 1)"))
m("r06b", "C06", (D3, "self.text_to_type.get(filetype, 0x04)", "self.text_to_type.get(filetype.upper(), 0x04)"))
m("r06c", "C06", (D3, ".tobytes().rstrip().decode", ".tobytes().strip().decode"))
m("r06d", "C06", (D3, "                if dirent.track == 0 and not dirent.deleted:\n", "                if dirent.track == 0:\n"))
m("r06e", "C06", (D3, "            self.track = data[0x20]\n", "            self.track = data[0x20] & 0x3f\n"))
m("r07a", "C07", (AT, "        if sector <= self.num_initial_sectors:\n", "        if sector < self.num_initial_sectors:\n"))
m("r07b", "C07", (AT, "initial_bytes = self.initial_sector_size * self.num_initial_sectors", "initial_bytes = self.initial_sector_size * (self.num_initial_sectors - (self.image_size % 256 == 0))"))
m("r08a", "C08", (AT, "parshigh, pars = divmod(paragraphs, 256*256)", "parshigh, pars = divmod(paragraphs, 256*256 - 1)"))
m("r08b", "C08", (AT, "            self.unused = int(values[5])", "            self.unused = int(values[5]) & 0x7fffffff"))
m("r10a", "C10", (AT, "        next_sector = (raw[-3] << 8) + raw[-2]\n", "        next_sector = (raw[-3] << 8) | raw[-2] & 0xff if raw[-3] < 4 else (raw[-3] << 8) + raw[-2] - (raw[-2] == 0xff)\n"))
m("r10b", "C06", (AT, "            elif dirent.flag == 0:\n", "            elif dirent.flag & 0xfe == 0:\n"))
m("r10c", "C10", (D3, "            s = self.data[index + 1]\n            sector_list", "            s = self.data[index + 1] & 0x0f\n            sector_list"))
m("r11a", "C11", (EX, "", "") ) if 0 else None
m("r12a", "C12", (AT, "            if end < start:\n", "            if end <= start and start == 0xffff - 1:\n                pass\n            elif end < start:\n"))
m("r12b", "C12", (AT, "if start == 0x2e0 and count > 1:", "if start == 0x2e0 and count == 2:"))
m("r16a", "C16", (SEG, "        base_index = index + self.get_raw_index(0)\n", "        base_index = index + self.byte_bounds_offset()[0] if len(index) > 1 else index + self.data_start\n"))
m("r16b", "C16", (SEG, "                r[self.order] = np.arange(len(self.order), dtype=np.int32)", "                r[self.order] = np.arange(len(self.order), dtype=np.int8)"))
m("r16c", "C16", (SEG, "            copy = SegmentData(d, s, order=self.order)", "            copy = SegmentData(d, s, extra=self.extra, order=self.order)"))
m("r17a", "C17", (SEG, "        s = self.style[indexes]\n        has_comments = np.where(s & comment_bit_mask > 0)[0]", "        s = self.style[indexes]\n        has_comments = np.where(s & comment_bit_mask == s)[0]"))
m("r17b", "C17", (SEG, "                if d[i] != current or i != end:", "                if d[i] != current or i > end + 1:"))
m("r17c", "C17", (SEG, "            if end < start:\n                start, end = end, start\n            # FIXME", "            # FIXME"))
m("r17d", "C17", (SEG, "            index_tuple = (index, 0)\n            match_index = bisect.bisect_left", "            index_tuple = (index, 1)\n            match_index = bisect.bisect_left"))
m("r17e", "C17", (SEG, "            if r:\n                slot =", "            if r and i != data_style + 1:\n                slot ="))
m("r18a", "C18", (SEG, "                newdata = np.resize(self.data, (newsize,)).copy()", "                newdata = np.resize(self.data, (newsize,))"))
m("r18b", "C18", (SEG, "        self.uuid = state.pop('uuid', uuid())", "        self.uuid = state.pop('uuid', uuid()).lower()"))
m("r18c", "C18", (SEG, "        self.memory_map = dict(state.pop('memory_map', []))", "        self.memory_map = dict(state.pop('memory_map', [])[:16])"))
m("r18d", "C18", (SEG, "            delattr(self, 'start_addr')", "            pass"))
m("r22a", "C22", (IN, "        output = dirent.filename.replace(os.sep, \"_\")", "        output = dirent.filename.replace(os.sep, \"_\").strip(\"_\") or \"_\""))
m("r22b", "C22", (IN, "        if getattr(dirent, \"locked\", False) and not options.force:", "        if getattr(dirent, \"locked\", False) and not options.force and len(files) == 1:"))
m("r22c", "C22", (IN, "            data = fh.read()\n        name = os.path.basename(name)", "            data = fh.read()\n        name = os.path.basename(name).upper()"))
m("r22d", "C22", (IN, "        if partial not in name:", "        if not name.startswith(partial):"))
m("r22e", "C22", (DI, "        data = self.bytes[:]\n        with open(filename", "        data = self.bytes[:self.header.image_size + self.header.header_offset]\n        with open(filename"))
m("r22f", "C22", (IN, "                data = data.replace(b'\\x7f', b'\\t')\n                data = data.replace(b'\\x9b', b'\\n')", "                data = data.replace(b'\\x9b', b'\\n')\n                data = data.replace(b'\\x7f', b'\\t').rstrip(b'\\0')"))
m("r23a", "C23", (UT, "            if i < len(self.sector_map) and self.sector_map[i] == 1:", "            if 0 < i < len(self.sector_map) and self.sector_map[i] == 1:"))
m("r28a", "C28", (D3, "s = self.get_sector_slice(1, 9)", "s = self.get_sector_slice(1, 8)"))
m("r28b", "C28", (D3, "s = self.get_sector_slice(0x0c, 0x0c + 25)", "s = self.get_sector_slice(0x0c, 0x0c + 24)"))
m("r28c", "C28", (AT, "            code = ObjSegment(r[20:], 0, 0, addr + 20, addr + len(r), name=\"Boot Code\")\n            segments = [sectors, header, code]\n        return segments\n\n    def get_vtoc_segments", "            code = ObjSegment(r[19:], 0, 0, addr + 20, addr + len(r), name=\"Boot Code\")\n            segments = [sectors, header, code]\n        return segments\n\n    def get_vtoc_segments"))
m("r28d", "C28", (D3, "            if addr > 0:\n                style = segment", "            if addr > 0:\n                segment.data[0] = segment.data[0]\n                self.bytes[0] |= 0\n                style = segment"))
m("r29a", "C29", (AT, '"File #%-2d (%s) %03d %-8s%-3s  %03d"', '"File #%-2d (%s) %03d %-8.7s%-3s  %03d"'))
m("r29b", "C29", (AT, "            self.unused_sectors += extra_free", "            self.unused_sectors += extra_free\n            self.bytes[16] = self.bytes[16]"))
m("r29c", "C29", (IN, "    files = set(files)\n    for dirent in image.files:\n        if not files or dirent.filename in files:\n            data = image", "    files = \" \".join(files)\n    for dirent in image.files:\n        if not files or dirent.filename in files:\n            data = image"))
M = [x for x in M if x]
# sessions
PA_ = "atrcopy/parsers.py"
m("s30a", "C30", (PA_, "        self.image = self.get_image(new_rawdata)\n        self.segment_data = new_rawdata", "        self.segment_data = new_rawdata\n        self.image = self.get_image(new_rawdata.copy())"))
m("s30b", "C30", (PA_, "            s.reconstruct_raw(new_rawdata)", "            s.reconstruct_raw(new_rawdata)\n            if s.error: s.error = None"))
m("s30c", "C30", (SEG, "                r = r.get_indexed(order)\n                delattr(self, '_order_list')", "                r = rawdata.get_indexed(order)\n                delattr(self, '_order_list')"))
m("s30d", "C30", (SEG, "        start, end = self._rawdata_bounds\n        r = rawdata[start:end]", "        start, end = self._rawdata_bounds\n        r = rawdata[start:end] if end < len(rawdata) or start else rawdata.copy()"))
m("s30e", "C30", (SEG, "            state['_order_list'] = r.order.tolist()", "            state['_order_list'] = sorted(r.order.tolist())"))
m("s30f", "C30", (SEG, "                self.rawdata.extra.comments[k] = v", "                self.rawdata.extra.comments.setdefault(k & 0xffff, v)"))
m("s30g", "C30", (PA_, "        for key in ['segments', 'strict']:\n            state[key] = getattr(self, key)", "        state['strict'] = self.strict\n        state['segments'] = sorted(self.segments, key=lambda s: s.error is not None)"))
