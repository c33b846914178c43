"""Tokenised file contents, geometry, and an independent writer / reader of all bmap format versions."""
import hashlib, os, struct, xml.dom.minidom
from functools import lru_cache

VMUL = 100000  # token = variant * VMUL + index + 1; 0 = zeros; -1 = anything else


@lru_cache(maxsize=4096)
def _unit(tok):
    v, i = divmod(tok - 1, VMUL)
    d = hashlib.md5(b"%d/%d" % (v, i)).digest()
    return bytes([4 * (1 + d[0] % 60) + v % 4]) + d[1:]  # the first byte distinguishes the variants and is not 0


@lru_cache(maxsize=512)
def pattern(tok, length):
    if tok == 0:
        return bytes(length)
    u = _unit(tok)
    return (u * (length // 16 + 1))[:length]


_known = {}


def tok(idx, variant=0):
    t = variant * VMUL + idx + 1
    _known.setdefault(_unit(t), t)
    return t


def classify(data, idx=None):
    """Token of a cell's contents; cells shorter than 16 bytes are ambiguous: their own tokens come first."""
    n = len(data)
    if n == 0:
        return 0
    if not data.strip(b"\0"):
        return 0
    if n >= 16:
        t = _known.get(bytes(data[:16]))
        if t is not None and pattern(t, n) == data:
            return t
        return -1
    for v in range(4) if idx is not None else ():
        t = v * VMUL + idx + 1
        if _unit(t)[:n] == data:
            return t
    for u, t in list(_known.items()):
        if u[:n] == data:
            return t
    return -1


class Geometry:
    """Division of a file into cells: every block is split into cpb cells, and additionally at the image size."""

    def __init__(self, bsz, isize, cpb=1, extent=None, bpc=1):
        self.bsz, self.isize = bsz, isize
        self.nblk = -(-isize // bsz)
        end = max(self.nblk * bsz, extent or 0)
        if bpc > 1:  # several blocks per cell: only without a bmap
            cuts = set(range(0, end, bsz * bpc)) | {end}
        else:
            cuts = set(range(0, end, max(1, bsz // cpb))) | {end} | set(range(0, end, bsz))
        if 0 < isize < end:
            cuts.add(isize)
        if extent:
            cuts.add(extent)
        c = sorted(cuts)
        self.cells = [(a, b) for a, b in zip(c, c[1:])]
        self.starts = [a for a, b in self.cells]
        self.end = end

    def index(self, off):
        import bisect
        return bisect.bisect_right(self.starts, off) - 1

    def touched(self, off, n):
        """Cells touched by bytes [off, off+n) and the number of bytes beyond the last cell."""
        if n <= 0:
            return [], 0
        if off >= self.end:
            return [], n
        return list(range(self.index(off), self.index(min(off + n, self.end) - 1) + 1)), max(0, off + n - self.end)

    def describe(self):
        return [[a // self.bsz, 1 if a < self.isize else 0] for a, b in self.cells]


def cell_token(buf, a, b, idx=None):
    return classify(bytes(buf[a:b]).ljust(b - a, b"\0"), idx) if a < len(buf) else 0


def build(path, geo, tokens, size):
    """Write a (sparse) file of `size` bytes whose cells have the given tokens."""
    with open(path, "wb") as f:
        f.truncate(size)
        for (a, b), t in zip(geo.cells, tokens):
            if t == 0 or a >= size:
                continue
            f.seek(a)
            f.write(pattern(t, min(b, size) - a))


def image_bytes(geo, tokens, a, b):
    out = bytearray(b - a)
    for (x, y), t in zip(geo.cells, tokens):
        lo, hi = max(x, a), min(y, b)
        if lo < hi and t:
            out[lo - a:hi - a] = pattern(t, y - x)[lo - x:hi - x]
    return bytes(out)


VERSIONS = ("1.0", "1.1", "1.2", "1.3", "1.4", "2.0")


def has_checksums(version):
    return version in ("1.3", "1.4", "2.0")


def write_bmap(path, geo, ranges, tokens=None, version="2.0", hashname="sha256", isize=None, blocks=None, mapped=None,
               single="X", bsz=None, fix_checksum=True, pad=" ", newlines=True, filler="", size_human="x"):
    """ranges: [first, last, cs]; cs: 0 no checksum, 1 checksum of the data `tokens`, 2 a wrong checksum, or text.
    Written from the format description, independently of the code under test."""
    old = version in ("1.0", "1.1", "1.2", "1.3")
    if old:
        hashname = "sha1"
    bsz = bsz or geo.bsz
    isize = geo.isize if isize is None else isize
    blocks = geo.nblk if blocks is None else blocks
    mapped = sum(r[1] - r[0] + 1 for r in ranges) if mapped is None else mapped
    attr, tag = ("sha1", "BmapFileSHA1") if old else ("chksum", "BmapFileChecksum")
    nl = "\n" if newlines else ""
    cslen = len(hashlib.new(hashname).hexdigest())
    o = '<?xml version="1.0" ?>\n%s<bmap version="%s">%s' % (filler, version, nl)
    o += "<ImageSize>%s%d%s</ImageSize>%s<BlockSize>%s%d%s</BlockSize>%s" % (pad, isize, pad, nl, pad, bsz, pad, nl)
    o += "<BlocksCount>%s%d%s</BlocksCount>%s<MappedBlocksCount>%s%d%s</MappedBlocksCount>%s" % (pad, blocks, pad, nl, pad, mapped, pad, nl)
    if version in ("1.4", "2.0"):
        o += "<ChecksumType>%s%s%s</ChecksumType>%s" % (pad, hashname, pad, nl)
    if has_checksums(version):
        o += "<%s>%s%s%s</%s>%s" % (tag, pad, "0" * cslen, pad, tag, nl)
    o += "<BlockMap>" + nl
    for first, last, cs in ranges:
        a = ""
        if has_checksums(version) and cs:
            if cs == 1:
                h = hashlib.new(hashname, image_bytes(geo, tokens, first * geo.bsz, min((last + 1) * geo.bsz, geo.isize))).hexdigest()
            elif cs == 2:
                h = hashlib.new(hashname, b"wrong").hexdigest()
            else:
                h = cs
            a = ' %s="%s"' % (attr, h)
        body = str(first) if first == last and single == "X" else "%d-%d" % (first, last) if single != "X - Y" else "%d - %d" % (first, last)
        o += "<Range%s>%s%s%s</Range>%s" % (a, pad, body, pad, nl)
    o += "</BlockMap>%s</bmap>\n" % nl
    data = o.encode()
    if has_checksums(version) and fix_checksum:
        mark = ("<%s>%s" % (tag, pad)).encode()
        p = data.index(mark) + len(mark)
        data = data[:p] + hashlib.new(hashname, data).hexdigest().encode() + data[p + cslen:]
    if path:
        with open(path, "wb") as f:
            f.write(data)
    return data


def parse_bmap(data):
    """Independent strict reader of a bmap (as bytes). Raises ValueError when it is not a well-formed, self-consistent bmap."""
    try:
        d = xml.dom.minidom.parseString(data)
    except Exception as e:
        raise ValueError("not XML: %s" % e)
    root = d.documentElement
    if root.tagName != "bmap":
        raise ValueError("no bmap element")

    def text(tag):
        e = root.getElementsByTagName(tag)
        if len(e) != 1:
            raise ValueError("%d elements %s" % (len(e), tag))
        return "".join(c.data for c in e[0].childNodes if c.nodeType == c.TEXT_NODE).strip()

    v = root.getAttribute("version")
    r = {"version": v, "isize": int(text("ImageSize")), "bsz": int(text("BlockSize")), "blocks": int(text("BlocksCount")),
         "mapped": int(text("MappedBlocksCount")), "ranges": [], "hash": None, "selfok": True}
    attr = None
    if v in ("1.4", "2.0"):
        r["hash"], attr, tag = text("ChecksumType"), "chksum", "BmapFileChecksum"
    elif v == "1.3":
        r["hash"], attr, tag = "sha1", "sha1", "BmapFileSHA1"
    if attr:
        cs = text(tag)
        n = len(hashlib.new(r["hash"]).hexdigest())
        if len(cs) != n:
            raise ValueError("self checksum has wrong length")
        p = data.index(cs.encode())
        r["selfok"] = hashlib.new(r["hash"], data[:p] + b"0" * n + data[p + n:]).hexdigest() == cs
    for e in root.getElementsByTagName("BlockMap")[0].getElementsByTagName("Range"):
        t = "".join(c.data for c in e.childNodes if c.nodeType == c.TEXT_NODE).strip()
        ab = [int(x) for x in t.split("-")]
        r["ranges"].append((ab[0], ab[-1], e.getAttribute(attr) if attr and e.hasAttribute(attr) else None))
    return r
