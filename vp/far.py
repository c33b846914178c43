"""Very long sparse images (spec/FarTrace.tla): offsets beyond 2^31 .. 2^39 bytes, block numbers of many digits."""
import hashlib, json, os, random, shutil, subprocess
from . import core, content as C, copygen as G, copyrun as R
from .checks_map import fiemap_runs, seek_runs


def merge(runs):
    """Sorted maximal runs [first, last] of runs <<first, count>>."""
    out = []
    for a, n in sorted(map(tuple, runs)):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], a + n - 1)
        else:
            out.append([a, a + n - 1])
    return out


def block(b, bsz, word="%016d"):
    return ((word % b).encode()) * (bsz // 16)


class Case:
    """One image: its runs, and files made from it."""
    def __init__(self, x, d):
        self.x, self.d, self.bsz = x, d, x["b"]
        self.ext = merge(x["runs"])
        self.nb = self.ext[-1][1] + 1 + x["gap"]
        self.size = self.nb * self.bsz - x["cut"]
        self.tail = self.bsz - x["cut"]
        self.image, self.dest, self.bmap = (os.path.join(d, n) for n in ("image", "dest", "image.bmap"))
        with open(self.image, "wb") as f:
            f.truncate(self.size)
            for a, b in self.ext:
                f.seek(a * self.bsz)
                f.write(b"".join(block(i, self.bsz) for i in range(a, b + 1))[:self.size - a * self.bsz])
        self.old = []
        if x["old"] or x["kind"] == "bdev":
            # previous data around the mapped blocks
            self.old = merge([(n, 1) for a, b in self.ext for n in (a - 2, a - 1, b + 1, b + 2, a + (b - a) // 2) if 0 <= n < self.nb])
            self.make_old(self.dest)
            if x["kind"] == "bdev":
                # those which are not overwritten, in pieces that do not touch mapped blocks
                self.old = merge([(n, 1) for a, b in self.old for n in range(a, b + 1) if not any(p <= n <= q for p, q in self.ext)])

    def make_old(self, path):
        with open(path, "wb") as f:
            f.truncate(self.nb * self.bsz)
            for a, b in self.old:
                for n in range(a, b + 1):
                    f.seek(n * self.bsz)
                    f.write(block(n, self.bsz, "old%013d"))

    def data(self, a, b):
        return b"".join(block(i, self.bsz) for i in range(a, b + 1))[:self.size - a * self.bsz]

    def write_bmap(self, ill=""):
        x, v = self.x, self.x["ver"]
        h = {"1.3": "sha1"}.get(v, "sha256")
        isize = self.size + {"size+": 1, "size-": -1}.get(ill, 0)
        wrong = len(self.ext) // 2 if ill == "sum" else None
        attr, tag = ("sha1", "BmapFileSHA1") if v == "1.3" else ("chksum", "BmapFileChecksum")
        sums = v != "1.2"
        zero = "0" * len(hashlib.new(h).hexdigest())
        o = '<?xml version="1.0" ?>\n<bmap version="%s">\n<ImageSize> %d </ImageSize>\n<BlockSize> %d </BlockSize>\n<BlocksCount> %d </BlocksCount>\n' % (v, isize, self.bsz, self.nb)
        o += "<MappedBlocksCount> %d </MappedBlocksCount>\n" % (sum(b - a + 1 for a, b in self.ext) + (ill == "count"))
        if v in ("1.4", "2.0"):
            o += "<ChecksumType> %s </ChecksumType>\n" % h
        if sums:
            o += "<%s> %s </%s>\n" % (tag, zero, tag)
        o += "<BlockMap>\n"
        for k, (a, b) in list(enumerate(self.ext))[::1 if x["order"] == "asc" else -1]:
            o += "<Range%s> %s </Range>\n" % (' %s="%s"' % (attr, hashlib.new(h, self.data(a, b) + (b"x" if k == wrong else b"")).hexdigest()) if sums else "", a if a == b else "%d-%d" % (a, b))
        o += "</BlockMap>\n</bmap>\n"
        if sums:
            o = o.replace("> %s <" % zero, "> %s <" % hashlib.new(h, o.encode()).hexdigest(), 1)
        open(self.bmap, "w").write(o)

    def observe(self, path):
        """Maximal runs [first, last, kind] of what is in the file where anything may be."""
        size = os.path.getsize(path)
        where = merge([(a, b - a + 1) for a, b in self.ext + self.old if a * self.bsz < size] +
                      [(a // self.bsz, -(-(a + n) // self.bsz) - a // self.bsz) for a, n in seek_runs(path)])
        out = []
        with open(path, "rb") as f, open(self.image, "rb") as g:
            for a, b in where:
                if b - a > 200000:
                    out.append([a, b, "other"])
                    continue
                for n in range(a, b + 1):
                    f.seek(n * self.bsz)
                    g.seek(n * self.bsz)
                    x, y = f.read(self.bsz), g.read(self.bsz)
                    # a device is not cut within the last block
                    k = "img" if x[:len(y)] == y else "zero" if not x.strip(b"\0") else "old" if x == block(n, self.bsz, "old%013d")[:len(x)] else "other"
                    if k == "img" and not y.strip(b"\0") and not any(p <= n <= q for p, q in self.ext):
                        k = "zero"
                    if out and out[-1][1] == n - 1 and out[-1][2] == k:
                        out[-1][1] = n
                    else:
                        out.append([n, n, k])
        return out, size

    def trace(self, id, prop, what, **kw):
        t = dict(id=id, family="Far-" + what, prop=prop, what=what, nb=self.nb, tail=self.tail, ext=self.ext, o="ok", obs=[], old=self.old if self.x["kind"] == "bdev" else [], dnb=0, dtail=0, kind=self.x["kind"],
                 ill="", wrote=False, holes=False, data=[], ranges=[], geo=[], sums=True, answers=[], result={})
        t.update(kw)
        return t

    def seen(self, t, path, holes=False):
        if os.path.exists(path):
            t["obs"], size = self.observe(path)
            t["dnb"] = -(-size // self.bsz)
            t["dtail"] = size - (t["dnb"] - 1) * self.bsz
            if holes:
                t["holes"], t["data"] = True, [[a // self.bsz, -(-(a + n) // self.bsz) - 1] for a, n in seek_runs(path)]
        return t


def cases(c, n, k, **kw):
    top = core.scratch().dir()
    out = []
    for i, x in enumerate(G.generate("any", n, c.seed * 1000 + k, module="GenFar")):
        x.update(kw)
        d = os.path.join(top, "f%d" % i)
        os.mkdir(d)
        out.append((i, x, d))
    return out


def tell(t):
    return json.dumps({k: t[k] for k in ("what", "ill", "wrote", "o", "nb", "tail", "ext", "obs", "dnb", "dtail", "ranges", "geo", "data", "result")})[:900]


def outcome(rc):
    return "hang" if rc is None else "ok" if rc == 0 else "fail"


def copies(c, prop, n, k=0, ills=("",), **kw):
    """Copies with the command. ills: what is wrong with them, in turn: "sum" a wrong checksum, "size+", "size-" in the bmap,
    "count" of mapped blocks, "cut" the image within its last mapped block, "small" device (one byte), "fits" (exactly)."""
    def prep(z):
        i, x, d = z
        s = Case(x, d)
        s.ill = ills[i % len(ills)]
        if s.ill == "sum" and x["ver"] == "1.2":
            x["ver"] = "2.0"
        s.write_bmap(s.ill)
        if s.ill == "cut":
            os.truncate(s.image, min(s.size, (s.ext[-1][1] + 1) * s.bsz) - 1)
        conf = os.path.join(d, "conf")
        cap = {"small": s.size - 1, "fits": s.size}.get(s.ill, s.nb * s.bsz)
        open(conf, "w").write("log %s.log\nwatch dest %s\n" % (conf, s.dest) + ("blk dest %d 8 0\nredirect /sys/dev/block/ %s/none/\n" % (cap, d) if x["kind"] == "bdev" else ""))
        if x["kind"] == "reg" and not os.path.exists(s.dest):
            open(s.dest, "wb").close()
        return s, R.cli_job("far-%d" % i, ["copy", "--bmap", s.bmap, s.image, s.dest], d, d + "/cli", conf)
    ps = core.pmap(prep, cases(c, n, 700 + k, **kw))
    res = R.run_driver([j for _, j in ps])

    def see(z):
        s, j = z
        rc, so, se = R.cli_result(res[j["id"]])
        t = s.trace(j["id"], prop, "copy", o=outcome(rc), ill=s.ill, result={"argv": j["argv"], "rc": rc, "err": se[-300:]})
        t["wrote"] = any(e[2] == "write" and e[3] == "dest" and e[7] > 0 for e in R.read_log(s.d + "/conf.log"))
        if s.ill in ("", "fits"):
            s.seen(t, s.dest)
        shutil.rmtree(s.d, ignore_errors=True)
        return t
    return core.pmap(see, ps)


def writers(c, prop, n, k=0):
    script = os.path.join(core.REPO, "contrib/bmap_write.py")

    def one(z):
        i, x, d = z
        s = Case(x, d)
        s.write_bmap()
        if not os.path.exists(s.dest):
            open(s.dest, "wb").close()
        try:
            r = subprocess.run([core.PY, script, s.image, s.dest], cwd=d, env=core.code_env(), capture_output=True, timeout=60)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = None, ""
        t = s.trace("farw-%d" % i, prop, "writer", o=outcome(rc), result={"rc": rc, "err": err[-300:]})
        s.seen(t, s.dest)
        shutil.rmtree(d, ignore_errors=True)
        return t
    return core.pmap(one, cases(c, n, 720 + k, kind="reg"))


def creations(c, prop, n, k=0, copy=False, dirs=None):
    """create on real sparse files (and copy of the result)."""
    import vp.checks_map as M
    dirs = [d for d, fm, sk in M.realdirs() if fm or sk]

    def one(z):
        i, x, d = z
        shutil.rmtree(d)
        d = os.path.join(dirs[i % len(dirs)], os.path.basename(d) + "k%d" % k)
        os.mkdir(d)
        s = Case(x, d)
        got = fiemap_runs(s.image)
        if got is None:
            got = seek_runs(s.image)
        s.ext = merge([(a // s.bsz, -(-(a + m) // s.bsz) - a // s.bsz) for a, m in got])
        rc, so, se = R.run_cli(["create", "-o", s.bmap, s.image], cwd=d)
        t = s.trace("farc-%d" % i, prop, "create", o=outcome(rc), result={"rc": rc, "err": se.decode(errors="replace")[-300:]})
        if rc == 0:
            try:
                b = C.parse_bmap(open(s.bmap, "rb").read())
                t["ranges"] = [[r[0], r[1]] for r in b["ranges"]]
                inb = -(-b["isize"] // s.bsz)
                t["geo"] = [inb, b["isize"] - (inb - 1) * s.bsz, b["blocks"], b["mapped"]]
                t["sums"] = b["selfok"] and b["bsz"] == s.bsz and all(r[2] == hashlib.new(b["hash"], s.data(r[0], r[1])).hexdigest() for r in b["ranges"])
            except ValueError as e:
                t["o"] = "fail"
                t["result"]["parse"] = str(e)
        out = [t]
        if copy and rc == 0:
            rc, so, se = R.run_cli(["copy", s.image, s.dest], cwd=d)
            u = s.trace("farr-%d" % i, prop, "copy", o=outcome(rc), result={"rc": rc, "err": se.decode(errors="replace")[-300:]})
            out.append(s.seen(u, s.dest, holes=True))
        shutil.rmtree(d, ignore_errors=True)
        return out
    return [t for l in core.pmap(one, cases(c, n, 740 + k, b=4096, kind="reg", old=False)) for t in l]


def queries(c, prop, n, k=0):
    """Windows around the ends of the runs, answered by the code with both methods from scripted extents."""
    from .checks_map import METHODS, conf
    rng = random.Random(c.seed * 760 + k)
    jobs, ps = [], []
    for i, x, d in cases(c, n, 760 + k, kind="reg", old=False):
        s = Case(dict(x), d)
        os.truncate(s.image, 0)
        os.truncate(s.image, s.size)
        ends = sorted({p for a, b in s.ext for p in (a - 1, a, a + 1, b, b + 1, b + 2) if 0 <= p < s.nb} | {0, s.nb - 1})
        qs = [["m", 0, s.nb], ["u", 0, s.nb]]
        for _ in range(24):
            a, b = sorted(rng.choices(ends, k=2))
            qs.append([rng.choice("mu"), a, b - a + 1])
        qs += [[rng.choice(["bm", "bu"]), p] for p in rng.sample(ends, min(len(ends), 12))]
        # the kernel may report a run in several extents
        ext = []
        for a, b in s.ext:
            m = rng.randint(a, b)
            ext += [(a, b - a + 1)] if m == a or rng.random() < .5 else [(a, m - a), (m, b - m + 1)]
        for m in ("fiemap", "fiemap-2", "seek"):
            cls, fm, bufs = METHODS[m]
            cf = conf(os.path.join(d, m + ".conf"), s.image, ext, s.bsz, fm)
            j = dict(id="farq-%d-%s" % (i, m), what="map", image=s.image, conf=cf, cls=cls, bufs=bufs, queries=qs, timeout=60)
            jobs.append(j)
            ps.append((s, j))
    res = R.run_driver(jobs)
    out = []
    for s, j in ps:
        r = res[j["id"]]
        t = s.trace(j["id"], prop, "query", o=r["outcome"], result={"exc": r.get("exc")})
        for q, a in zip(j["queries"], r.get("answers") or ()):
            x = a["exc"]["type"] if isinstance(a, dict) else ""
            t["answers"].append(dict(k=q[0], s=q[1], c=q[2] if len(q) > 2 else 1, r=a if q[0] in "mu" and not x else [], b=a if q[0] not in "mu" and not x else False, x=x))
        out.append(t)
    for s, j in ps:
        shutil.rmtree(s.d, ignore_errors=True)
    return out
