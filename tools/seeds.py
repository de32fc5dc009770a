AT, D3, UT, DI, SEG = "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/utils.py", "atrcopy/diskimages.py", "atrcopy/segments.py"
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


OPEN = '''
def template(name, cls):
    p = os.path.join("atrcopy", "templates", name)
    return cls(SegmentData(np.fromfile(p, dtype=np.uint8)))
'''

seed("tslist-second", "C01", [(D3, "sector_map[0:self.num_sectors - len(tslist)]", "sector_map[0:self.num_sectors - 1 - (len(tslist) > 1)][0:244]")],
     "a DOS 3.3 file of more than 244 data sectors (three track/sector lists)",
     "the tail of a long file is lost when it is read back", OPEN + '''
im = template("dos33.dsk", Dos33DiskImage)
data = bytes((i * 7 + i // 256) & 255 for i in range(256 * 250))
im.write_file("LONG", "B", data)
assert im.find_file("LONG") == data
''')

seed("file-number-bits", "C01", [(AT, "self.data[index + 0] = (self.file_num << 2) | (hi & 0x03)", "self.data[index + 0] = ((self.file_num & 0x1f) << 2) | (hi & 0x03)")],
     "a file added in directory slot 32 or later",
     "the link bytes carry the wrong file number, the file cannot be read back", OPEN + '''
im = template("dos2sd.atr", AtariDosDiskImage)
for i in range(40):
    im.write_file("F%d.X" % i, None, bytes([i] * 10))
for i in range(40):
    assert im.find_file("F%d.X" % i) == bytes([i] * 10)
''')

seed("vtoc-bit-order", "C03", [(D3, "np.tile(np.arange(15, -1, -1), max_tracks)", "np.tile(np.arange(16), max_tracks)")],
     "a DOS 3.3 disk where some but not all sectors of a track are in use",
     "the free map is read and written in the wrong bit order: sectors in use are given to new files", OPEN + '''
im = template("dos33.dsk", Dos33DiskImage)
im.write_file("A", "B", b"x" * 256)
v = im.bytes[17 * 16 * 256:][:256]
d = [f for f in im.files if f.filename == "A"][0]
d.get_track_sector_list(im)
used = list(d.sector_map) + [s.sector_num for s in d.track_sector_list]
for s in used:
    t, n = divmod(int(s), 16)
    w = int(v[0x38 + 4 * t]) * 256 + int(v[0x38 + 4 * t + 1])
    assert not w >> n & 1, (t, n)
''')

seed("no-restore-on-full", "C04", [(DI, """            vtoc = self.get_vtoc_object()
            directory.save_dirent(self, dirent, vtoc, sector_list)
""", """            vtoc = self.get_vtoc_object()
            try:
                directory.save_dirent(self, dirent, vtoc, sector_list)
            except errors.NotEnoughSpaceOnDisk:
                # no sector has been stored yet, so there is nothing to undo
                state = self.begin_transaction()
                raise
""")],
     "a DOS 3.3 file whose data fits exactly in the free space but leaves no sector for its track/sector list",
     "the failed add leaves sectors marked as used", OPEN + '''
im = template("dos33.dsk", Dos33DiskImage)
n = im.get_vtoc_object().num_free_sectors
before = im.bytes.tobytes()
try:
    im.write_file("BIG", "B", b"z" * (n * 256))
except errors.NotEnoughSpaceOnDisk:
    pass
else:
    raise SystemExit("stored a file larger than the free space")
assert im.bytes.tobytes() == before
''')

SP, EX, KB, SD, CO, CA, IN, PA = ["atrcopy/%s.py" % n for n in "spartados executables kboot standard_delivery container cartridge __init__ parsers".split()]

seed("mydos-locked-flag", "C02", [(AT, "        self.mydos = (flag&0x04) > 0\n", "        self.mydos = (flag&0x24) == 0x04\n")],
     "a locked MyDOS file on the disk while another file is added or deleted",
     "the directory entry of the locked file loses its MyDOS flag", OPEN + '''
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A", None, b"a")
im.write_file("B", None, b"b")
n = [d.filename for d in im.files].index("A")
p = 16 + 360 * 128 + 16 * im.files[n].file_num
im.bytes[p] |= 0x24
before = im.bytes[p:p + 16].tobytes()
im = AtariDosDiskImage(SegmentData(im.bytes.copy()))
im.write_file("C", None, b"c")
assert im.bytes[p:p + 16].tobytes() == before
''')

seed("sector-count-byte", "C03", [(D3, "        self.num_sectors = sector_list.num_sectors\n", "        self.num_sectors = min(sector_list.num_sectors, 0xff)\n")],
     "a DOS 3.3 file of more than 255 sectors",
     "the catalog entry records fewer sectors than the file occupies", OPEN + '''
im = template("dos33.dsk", Dos33DiskImage)
im.write_file("LONG", "B", b"q" * (256 * 300))
d = [f for f in im.files if f.filename == "LONG"][0]
assert d.num_sectors == 303, d.num_sectors
''')

seed("free-top-sector", "C05", [(UT, "            self.sector_map[sector.sector_num] = 1\n", "            if sector.sector_num < 719:\n                self.sector_map[sector.sector_num] = 1\n")],
     "deleting a file that occupies sector 719, the last one of the map",
     "the sector stays marked as used", OPEN + '''
im = template("dos2sd.atr", AtariDosDiskImage)
n = im.get_vtoc_object().num_free_sectors
im.write_file("BIG", None, b"z" * (125 * n))
assert im.get_vtoc_object().num_free_sectors == 0
im.delete_file("BIG")
assert im.get_vtoc_object().num_free_sectors == n
''')

seed("dir-stops-early", "C06", [(AT, "            elif dirent.flag == 0:\n                break", "            elif not dirent.deleted:\n                break")],
     "a directory entry that is neither in use nor deleted (a DOS 2.5 file above sector 719) before other files",
     "every file after that entry disappears from the listing", OPEN + '''
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A", None, b"a")
im.write_file("B", None, b"b")
f = [d for d in im.files if d.filename == "A"][0]
im.bytes[16 + 360 * 128 + 16 * f.file_num] = 0x03
im = AtariDosDiskImage(SegmentData(im.bytes.copy()))
assert "B" in [d.filename for d in im.files]
''')

seed("past-the-end", "C07", [(DI, "sector < (self.max_sectors + self.starting_sector_label))", "sector <= (self.max_sectors + self.starting_sector_label))")],
     "asking for the sector just after the last one",
     "a sector that does not exist is accepted and yields no or foreign bytes", OPEN + '''
for name, cls in (("dos2sd.atr", AtariDosDiskImage), ("dos33.dsk", Dos33DiskImage)):
    im = template(name, cls)
    last = im.header.max_sectors + im.header.starting_sector_label - 1
    im.get_raw_bytes(last)
    try:
        im.get_raw_bytes(last + 1)
    except errors.ByteNotInFile166:
        pass
    else:
        raise SystemExit("sector after the last one accepted")
''')

seed("spare-field", "C08", [(AT, "        values[5] = self.unused\n", "        values[5] = self.unused & 0xffff\n")],
     "an ATR header with data in the upper half of its spare field",
     "encoding the header again loses those bytes", '''
raw = np.array([0x96, 2, 0x80, 0x16, 0x80, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], dtype=np.uint8)
h = AtrHeader(raw.copy())
out = np.zeros([16], dtype=np.uint8)
h.encode(out)
assert out.tobytes() == raw.tobytes(), out
''')

seed("foreign-file-zero", "C10", [(AT, "        if file_num != self.file_num:", "        if file_num and file_num != self.file_num:")],
     "a chain that runs into a sector that belongs to the first file of the directory",
     "the other file's sector is read as part of this file", OPEN + '''
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A", None, b"a" * 200)
im.write_file("B", None, b"b" * 200)
a, b = [[d for d in im.files if d.filename == n][0] for n in "AB"]
assert a.file_num == 0
p = 16 + (b.starting_sector - 1) * 128
im.bytes[p + 125] = (b.file_num << 2) | (a.starting_sector >> 8)
im.bytes[p + 126] = a.starting_sector & 255
try:
    im.find_file("B")
except errors.FileNumberMismatchError164:
    pass
else:
    raise SystemExit("read a sector of another file")
''')

seed("lowest-run-address", "C11", [(EX, "run_addr = segments[0].origin", "run_addr = min(s.origin for s in segments)")],
     "several segments that are not in address order and no explicit run address",
     "the executable starts at the lowest address instead of the first segment", '''
from atrcopy.executables import get_xex
segs = SegmentList()
segs.add_segment([1, 2, 3], 0x4000)
segs.add_segment([4, 5], 0x2000)
main, _ = get_xex(segs)
assert main.tobytes() == bytes([255, 255, 0xe0, 2, 0xe1, 2, 0, 0x40, 0, 0x40, 2, 0x40, 1, 2, 3, 0, 0x20, 1, 0x20, 4, 5]), main.tobytes()
''')

seed("one-byte-block", "C12", [(AT, "            if end < start:\n                raise errors.InvalidBinaryFile", "            if end <= start and count_bytes(b, pos):\n                raise errors.InvalidBinaryFile"),
                              (AT, "class AtariDosFile(Bootable):", "def count_bytes(b, pos):\n    return len(b) - pos - 4 > 1\n\n\nclass AtariDosFile(Bootable):")],
     "an executable with a block of a single byte that is not the last one",
     "a valid executable is refused", '''
from atrcopy.ataridos import AtariDosFile
f = AtariDosFile(SegmentData(np.array([255, 255, 0, 0x20, 0, 0x20, 7, 0, 0x30, 1, 0x30, 8, 9], dtype=np.uint8)))
f.parse_segments()
assert [(s.origin, s.tobytes()) for s in f.segments] == [(0x2000, b"\\x07"), (0x3000, b"\\x08\\x09")]
''')

seed("overlap-order", "C13", [(EX, "        all_segments.extend(segments)", "        all_segments.extend(sorted(segments, key=lambda s: s.origin))")],
     "overlapping segments not in address order, together with a run address other than the load address",
     "the earlier segment's bytes win where segments overlap", '''
from atrcopy.executables import get_bsave
segs = SegmentList()
segs.add_segment([1] * 8, 0x2004)
segs.add_segment([2] * 8, 0x2000)
out = get_bsave(segs, 0x2002)
assert out[7:].tobytes() == bytes([2] * 8 + [1] * 4), out
''')

seed("exact-sectors", "C14", [(KB, "start + count < image.size - 128:", "start + count <= image.size - 127:")],
     "an executable that leaves 127 bytes unused in its last sector",
     "the boot disk made from it is not recognised and its file cannot be read", '''
from atrcopy.kboot import KBootImage
for n in range(1, 140):
    segs = SegmentList()
    segs.add_segment([n & 255] * n, 0x4000)
    im = KBootImage.create_boot_image(segs)
    im = KBootImage(SegmentData(im.bytes.copy()))
    assert im.find_file(im.files[0]) if False else im.get_file(im.files[0]).endswith(bytes([n & 255] * n))
''')

seed("long-run-pages", "C15", [(SD, "            for n in range(count):\n                i = (chunk_hi[n] - chunk_start) * 256\n", "            for n in range(count):\n                i = ((chunk_hi[n] - chunk_start) & 0x7f) * 256\n")],
     "an Apple boot disk segment of more than 128 pages",
     "the pages after the 128th are loaded with the wrong bytes", '''
import io, contextlib
from atrcopy.standard_delivery import StandardDeliveryImage
segs = SegmentList()
data = np.arange(160 * 256, dtype=np.uint32) // 256
segs.add_segment(data.astype(np.uint8), 0x1000)
with contextlib.redirect_stdout(io.StringIO()):
    im = StandardDeliveryImage.create_boot_image(segs)
order = [0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 15]
for k in range(160):
    t, n = divmod(k + 1, 16)
    s = t * 16 + order[n]
    assert (im.bytes[s * 256:s * 256 + 256] == k).all(), k
''')

seed("stale-search", "C16", [(SEG, "            order = self.data.sub_index(index)\n", "            order = np.sort(self.data.sub_index(index)) if isinstance(index, slice) and index.step is None and index.start else self.data.sub_index(index)\n")],
     "a range that does not start at 0 selected from a segment whose bytes are not in file order",
     "the selection shows its bytes in file order", '''
r = SegmentData(np.arange(50, dtype=np.uint8))
v = r.get_indexed([9, 3, 7, 1, 40, 2])
assert v[1:4].data[:].tolist() == [3, 7, 1]
''')

seed("clear-keeps-comment", "C17", [(SEG, "            for i in range(start, end):\n                rawindex = self.get_raw_index(i)\n                if rawindex in", "            first = self.get_raw_index(start)\n            for rawindex in range(first, first + end - start):\n                if rawindex in")],
     "clearing comments through a view whose bytes are not in file order",
     "comments of other bytes are removed and those of the range are kept", '''
r = SegmentData(np.arange(50, dtype=np.uint8))
base = DefaultSegment(r)
v = DefaultSegment(r.get_indexed([20, 3, 7]))
v.set_comment([[1, 2]], "three")
base.set_comment([[21, 22]], "twentyone")
v.clear_comment([[0, 3]])
assert v.get_comment(1) == ""
assert base.get_comment(21) == "twentyone"
''')

seed("restored-order", "C18", [(SEG, "            state['_order_list'] = r.order.tolist()  # more compact serialization in python list", "            state['_order_list'] = [int(i) & 0xffff for i in r.order]  # more compact serialization in python list")],
     "a non-contiguous segment with bytes beyond the first 64K of the file",
     "the restored segment shows bytes of the start of the file", '''
r = SegmentData((np.arange(70000) % 251).astype(np.uint8))
s = DefaultSegment(r.get_indexed([5, 66000, 69999]))
want = s.tobytes()
new = DefaultSegment.__new__(DefaultSegment)
new.__setstate__(dict(s.__getstate__()))
new.reconstruct_raw(r)
assert new.tobytes() == want
''')

seed("interleave-empty", "C19", [(SEG, "        if len(s) < size:\n            size = len(s)", "        if 0 < len(s) < size:\n            size = len(s)")],
     "interleaving with an empty segment that is not the first",
     "bytes outside the segments appear or the call fails instead of giving an empty segment", '''
r = SegmentData(np.arange(50, dtype=np.uint8))
a, b = DefaultSegment(r[0:8]), DefaultSegment(r[8:8])
s = interleave_segments([a, b], 2)
assert len(s) == 0
''')

seed("decimal-octal", "C21", [(UT, '    elif text.startswith("#"):\n        value = int(text[1:], 10)', '    elif text.startswith("#"):\n        value = int(text[1:], 0)')],
     "a decimal number that starts with a zero, or one with a second base prefix",
     "#010 is refused and #0x10 is accepted", '''
from atrcopy.utils import text_to_int
assert text_to_int("#010") == 10
try:
    text_to_int("#0x10")
except ValueError:
    pass
else:
    raise SystemExit("not a decimal number")
''')

seed("empty-local-file", "C22", [(IN, "            if os.path.exists(output) and not options.force:", "            if os.path.exists(output) and os.path.getsize(output) != len(data) and not options.force:")],
     "extracting over an existing local file of the same size as the file on the image",
     "the existing file is overwritten without the force option", OPEN + '''
import tempfile, shutil, io, contextlib
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A", None, b"new")
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "im.atr")
    im.save(p)
    q = os.path.join(d, "A")
    with open(q, "wb") as fh:
        fh.write(b"old")
    sys.argv = ["atrcopy", p, "extract", "-d", d, "A"]
    with contextlib.redirect_stdout(io.StringIO()):
        atrcopy.run()
    assert open(q, "rb").read() == b"old"
finally:
    shutil.rmtree(d)
''')

seed("clear-half", "C23", [(DI, "                self.bytes[pos:pos + size] = fill_value", "                self.bytes[pos:pos + max(size, 128) - (size & 0x100) // 2] = fill_value")],
     "clearing the free sectors of a disk with 256-byte sectors",
     "only the first half of every free sector is filled", OPEN + '''
im = template("dos33.dsk", Dos33DiskImage)
im.write_file("A", "B", b"secret" * 100)
im.delete_file("A")
im.shred(0)
assert b"secret" not in im.bytes.tobytes()
''')

seed("truncated-gzip", "C24", [(CO, "        except EOFError as e:\n            raise errors.InvalidContainer(e)", "        except EOFError as e:\n            unpacked = raw[:0]")],
     "a gzip file cut off in the middle",
     "an empty image is opened instead of leaving the data alone", '''
import gzip
from atrcopy.parsers import guess_container
data = gzip.compress(bytes(range(256)) * 20)[:60]
assert guess_container(np.frombuffer(data, dtype=np.uint8)) is None
''')

seed("second-map-sector", "C25", [(SP, "                m = np.hstack((m, b[4:].view(dtype='<u2')))", "                m = np.hstack((m, b[4:-2].view(dtype='<u2')))")],
     "a SpartaDOS file that needs a third sector of its sector map",
     "one sector is missing from the middle of the file", '''
from atrcopy.spartados import SpartaDosDiskImage
class Fake:
    def get_sectors(self, n):
        b = np.zeros([128], dtype=np.uint8)
        w = b.view(dtype="<u2")
        w[0] = n + 1 if n < 12 else 0
        w[2:] = np.arange(62) + 100 * n
        return b, None
m = SpartaDosDiskImage.get_sector_map(Fake(), 10)
assert m.tolist() == [100 * n + k for n in (10, 11, 12) for k in range(62)]
''')

seed("boot-sector-limit", "C26", [(AT, "        if nsec > max_sectors or nsec < 1:", "        if nsec >= max_sectors or nsec < 1:")],
     "an Atari boot disk that loads as many sectors as fit below $C000",
     "the disk is not identified as a boot disk", '''
data = np.zeros([16 + 92160], dtype=np.uint8)
data[0:5] = [0x96, 2, 0x80, 0x16, 0x80]
bload = 0xc000 - 128 * 8
data[16:22] = [0, 8, bload & 255, bload >> 8, 0, 0x50]
data[16 + 359 * 128] = 99
data[16 + 360 * 128:16 + 368 * 128] = 0xff
parser, mime = atrcopy.find_diskimage_from_data(data)
assert parser.__class__.__name__ == "AtariBootDiskSegmentParser", parser.__class__
''')

seed("loop-to-start", "C09", [(AT, "        self.sectors_seen.add(self.current_sector)\n        next_sector = ((raw[-3]", "        if self.num_sectors != 1:\n            self.sectors_seen.add(self.current_sector)\n        next_sector = ((raw[-3]")],
     "a damaged file whose directory entry says one sector and whose sector links to itself",
     "reading it never ends", OPEN + '''
import threading
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A", None, b"a")
f = [d for d in im.files if d.filename == "A"][0]
p = 16 + (f.starting_sector - 1) * 128
im.bytes[p + 125] = (f.file_num << 2) | (f.starting_sector >> 8)
im.bytes[p + 126] = f.starting_sector & 255
def go():
    try:
        im.find_file("A")
    except errors.AtrError:
        os._exit(0)
    os._exit(1)
t = threading.Thread(target=go, daemon=True)
t.start()
t.join(20)
os._exit(1)
''')

seed("oversized-cart", "C20", [(CA, "        if k != c[2]:", "        if k < c[2]:")],
     "a cartridge image longer than its type allows",
     "the image is accepted as a cartridge of that type and the rest of its bytes is in no segment", '''
from atrcopy.cartridge import Atari8bitCartImage
data = np.zeros([16 + 16384], dtype=np.uint8)
data[0:8] = [ord(c) for c in "CART"] + [0, 0, 0, 1]
im = Atari8bitCartImage(SegmentData(data[0:16 + 8192].copy()), 1)
try:
    im = Atari8bitCartImage(SegmentData(data), 1)
except errors.InvalidDiskImage:
    pass
else:
    raise SystemExit("accepted")
''')

seed("empty-rom", "C27", [("atrcopy/mame.py", "            offset += item.file_size\n", "            offset += item.file_size or 16\n")],
     "a zip archive with an empty member before another one",
     "the segments of the members after it show the wrong bytes", '''
import io, zipfile
from atrcopy.mame import MameZipImage
buf = io.BytesIO()
with zipfile.ZipFile(buf, "w") as zf:
    zf.writestr("a", bytes(range(16)))
    zf.writestr("b", b"")
    zf.writestr("c", bytes(range(100, 132)))
im = MameZipImage(SegmentData(np.frombuffer(buf.getvalue(), dtype=np.uint8).copy()))
im.parse_segments()
got = {s.name: bytes(bytearray(s.data[:])) for s in im.segments}
assert got["c"] == bytes(range(100, 132)), got
''')

seed("last-catalog-sector", "C28", [(D3, "        while sector > 0:\n            self.assert_valid_sector(sector)\n            if _xd: log.debug(\"loading directory segment from", "        while sector > self.header.first_vtoc + 1:\n            self.assert_valid_sector(sector)\n            if _xd: log.debug(\"loading directory segment from")],
     "the catalog of a DOS 3.3 disk that uses all 15 sectors of the track",
     "the catalog segment lacks the last sector of the catalog", OPEN + '''
im = template("dos33.dsk", Dos33DiskImage)
im.parse_segments()
cat = [s for s in im.segments if s.name == "Catalog"][0]
assert len(cat) == 15 * 256, len(cat)
''')

seed("substring-selection", "C29", [(IN, "def crc_files(image, files):\n    files = set(files)\n", "def crc_files(image, files):\n    files = \" \".join(files)\n")],
     "a file whose name is part of another name on the command line",
     "the crc command prints files that were not asked for", OPEN + '''
import io, contextlib, tempfile, shutil
im = template("dos2sd.atr", AtariDosDiskImage)
for n in ("AB", "ABC", "B"):
    im.write_file(n, None, b"x")
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "im.atr")
    im.save(p)
    sys.argv = ["atrcopy", p, "crc", "ABC"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        atrcopy.run()
    assert len(out.getvalue().split()) == 2, out.getvalue()
finally:
    shutil.rmtree(d)
''')

RESTORE = '''
import numpy as np
from atrcopy.segments import SegmentData
def restart(p, data):
    new = {}
    for k, v in p.__getstate__().items():
        if k == "segments":
            new[k] = []
            for s in v:
                o = s.__class__.__new__(s.__class__)
                o.__setstate__(s.__getstate__())
                new[k].append(o)
        else:
            new[k] = v
    q = p.__class__.__new__(p.__class__)
    q.__setstate__(new)
    q.reconstruct_segments(SegmentData(data))
    return q
'''

seed("order-16-bit", "C30", [(SEG, "state['_order_list'] = r.order.tolist()", "state['_order_list'] = r.order.astype(np.uint16).tolist()")],
     "a fragmented file beyond the first 64 KB of the image, in a session that is saved and restored",
     "the segment of the file shows other bytes after the restart", OPEN + RESTORE + '''
from atrcopy.parsers import AtariDosSegmentParser
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A.DAT", None, bytes(60000))
im.write_file("B.DAT", None, bytes(range(200)) * 50)
p = AtariDosSegmentParser(SegmentData(im.bytes.copy()))
q = restart(p, im.bytes.copy())
for a, b in zip(p.segments, q.segments):
    assert a.tobytes() == b.tobytes(), a.name
''')

seed("session-drops-empty", "C30", [(PA, "        for key in ['segments', 'strict']:\n            state[key] = getattr(self, key)\n", "        for key in ['segments', 'strict']:\n            state[key] = getattr(self, key)\n        state['segments'] = [s for s in state['segments'] if len(s) > 0 or s.error]\n")],
     "a file without any data on a disk whose session is saved and restored",
     "the file is missing from the restored list of segments", OPEN + RESTORE + '''
from atrcopy.parsers import AtariDosSegmentParser
im = template("dos2sd.atr", AtariDosDiskImage)
im.write_file("A.DAT", None, b"x")
im.write_file("VOID", None, b"")
p = AtariDosSegmentParser(SegmentData(im.bytes.copy()))
q = restart(p, im.bytes.copy())
assert [s.name for s in p.segments] == [s.name for s in q.segments], (len(p.segments), len(q.segments))
''')
