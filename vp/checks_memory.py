"""C30: memory and work do not depend on the size of the image, only on what is mapped."""
import hashlib, json, os, random, shutil, subprocess, tarfile, tempfile, zipfile
from functools import lru_cache
from . import core, content as C, copygen as G, copyrun as R, checks_read as RD

ASSUME = ["TLC and the Java/Python runtimes", "a process which does with a small RLIMIT_DATA does with little memory",
          "ssh is represented by a script which runs the remote command locally"]
MIB = 1 << 20
BSZ = 4096
SMALL = 24
LIMITS = [32, 40, 48, 56, 64, 72, 80, 96, 112, 128, 160, 192, 256, 384, 512, None]  # MiB
BUFFERS = 40  # MiB: Memory!Bounded and what the allocator and threads may add


@lru_cache(maxsize=None)
def unit(i, data):
    return random.Random(i).randbytes(MIB) if data == "rand" else bytes([1 + i % 255]) * MIB


def ranges(m, n):
    """Mapped units of an image of n units."""
    return {"none": [(0, n)], "all": [(0, n)], "old": [(0, n)], "last": [(n - 1, n)], "ends": [(0, 1), (n - 1, n)],
            "many": [(i, i + 1) for i in range(0, n, 3)]}[m]


def ndigest(m, n, data):
    out = []
    for a, b in ranges(m, n):
        h = hashlib.sha256()
        for i in range(a, b):
            h.update(unit(i, data))
        out.append(h.hexdigest())
    return out


def image(path, n, data, m=None):
    """A plain image of n units; sparse outside of m if given. The units in use are bounded by len of the cache: at most n."""
    with open(path, "wb") as f:
        f.truncate(n * MIB)
        for a, b in ranges(m or "all", n):
            f.seek(a * MIB)
            for i in range(a, b):
                f.write(unit(i, data))


FAST = {"gz": "gzip -1 -c", "bz2": "bzip2 -1 -c", "xz": "xz -0 -c", "lzo": "lzop -1 -c", "lz4": "lz4 -q -1 -c", "zst": "zstd -q -1 -c"}


def pack(src, comp, path):
    if comp == "zip":
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED, compresslevel=1) as z:
            z.write(src, "image")
        return
    t = path + ".tmp"
    inp = src
    if comp.startswith("tar."):
        inp, comp = t, comp[4:]
        with tarfile.open(t, "w") as f:
            f.add(src, "image")
    with open(inp, "rb") as i, open(path, "wb") as o:
        if subprocess.run(FAST[comp].split(), stdin=i, stdout=o).returncode:
            raise core.MachineryError("cannot pack " + comp)
    if os.path.exists(t):
        os.unlink(t)


class Blob:
    """Contents of a file for the server, not in memory."""

    def __init__(self, path):
        self.path = path

    def __len__(self):
        return os.path.getsize(self.path)

    def __getitem__(self, s):
        with open(self.path, "rb") as f:
            f.seek(s.start or 0)
            return f.read((len(self) if s.stop is None else min(s.stop, len(self))) - (s.start or 0))


def limited(argv, limit, env, cwd, stdin, timeout):
    argv = ["LD_PRELOAD=" + core.shim(), "VPSHIM_CONF=" + cwd + "/conf", *argv]
    if not limit:
        argv = ["/usr/bin/env", *argv]
    else:
        argv = ["/bin/sh", "-c", "ulimit -d %d && exec env \"$@\"" % (limit * 1024), "sh", *argv]
    with open(stdin or os.devnull, "rb") as f, open(cwd + "/err", "wb") as e, open(cwd + "/out", "wb") as o:
        p = subprocess.Popen(argv, env=env, cwd=cwd, stdin=f, stdout=o, stderr=e, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    err = open(cwd + "/err", errors="replace").read()
    return rc, err[-1500:]


class Case:
    """One world with an image of n units, in directory d (which is removed)."""

    def __init__(self, x, n, d, src):
        self.x, self.n, self.d = x, n, d
        self.total = sum(b - a for a, b in ranges(x["map"], n))
        self.log = d + "/log"
        rs = ranges(x["map"], n)
        self.env = {"PATH": RD.path_with(RD.sshbin()), "VP_SSH_HOST": "box", "VP_SSH_PASS": "", "VP_SSH_GOT": ""}
        self.stdin = None
        lines = ["log " + self.log]
        dest = d + "/dest"
        if x["who"] == "create":
            self.image = src
            self.argv = [core.PY, "-m", "bmaptools", "create", src] + (["-o", dest] if x["dest"] == "out" else [])
            lines.append("watch image " + src)
        else:
            g = C.Geometry(BSZ, 1, 1)
            k = MIB // BSZ
            sums = ndigest(x["map"], n, x["data"])
            bm = [[a * k, b * k - 1, h] for (a, b), h in zip(rs, sums)]
            if x["who"] == "contrib":
                os.symlink(src, d + "/image.raw")
                C.write_bmap(d + "/image.bmap", g, bm, isize=n * MIB, blocks=n * k)
                self.argv = [core.PY, os.path.join(core.REPO, "contrib/bmap_write.py"), d + "/image.raw", dest]
            else:
                C.write_bmap(d + "/m.bmap", g, [r[:2] + [None] for r in bm] if x["map"] == "old" else bm, isize=n * MIB, blocks=n * k, **({"version": "1.2"} if x["map"] == "old" else {}))
                key = "mem%s-%d" % (d, n) + ".img" + ("" if x["comp"] == "plain" else "." + x["comp"])
                name = d + "/i.img" + ("" if x["comp"] == "plain" else "." + x["comp"])
                os.symlink(src, name)
                if x["tr"] in ("http", "chunked"):
                    RD.http().data[key] = Blob(src)
                arg = {"file": name, "fileurl": "file://" + name, "stdin": "-", "ssh": "ssh://box" + name}.get(x["tr"]) or RD.http().url({"http": "plain"}.get(x["tr"], x["tr"]), key)
                if x["tr"] == "stdin":
                    self.stdin = src
                self.argv = [core.PY, "-m", "bmaptools", "copy", *(["--nobmap"] if x["map"] == "none" else ["--bmap", d + "/m.bmap"]), arg, dest]
            if x["dest"] != "new" or x["who"] == "contrib":
                with open(dest, "wb") as f:
                    f.truncate(n * MIB if x["dest"] == "bdev" else 3 * MIB)
                lines += ["watch dest " + dest]
                if x["dest"] == "bdev":
                    lines += ["blk dest %d 8 0" % (n * MIB), "redirect /sys/dev/block/ %s/nosysfs/" % d]
            if x["comp"] == "plain" and x["tr"] == "file":
                lines.append("watch image " + src)
        open(d + "/conf", "w").write("\n".join(lines) + "\n")
        self.dest = dest

    def run(self, limit, timeout=150):
        if self.x["who"] == "copy" and self.x["dest"] == "new" and os.path.exists(self.dest):
            os.unlink(self.dest)
        if os.path.exists(self.log):
            os.unlink(self.log)
        env = core.code_env(self.env)
        rc, err = limited(self.argv, limit, env, self.d, self.stdin, timeout)
        return "hang" if rc is None else "ok" if rc == 0 else "fail", err

    def counts(self):
        r = w = 0
        lg = R.read_log(self.log)
        for x in lg:
            if x[2] == "read" and x[3] == "image" and x[7] > 0:
                r += x[7]
            if x[2] == "write" and x[3] == "dest" and x[7] > 0:
                w += x[7]
        known = self.x["comp"] == "plain" and self.x["tr"] in ("file", "ext4", "tmpfs")
        return (-(-r // 1024) if known else -1), (w // 1024 if self.x["dest"] != "new" and self.x["who"] == "copy" else -1)


def runs(c, worlds, big, par=4):
    """Worlds which share their source are run together; the sources are removed afterwards."""
    groups = {}
    for x in worlds:
        own = (x["map"], x["tr"]) if x["who"] == "create" else ("", "")
        groups.setdefault((x["comp"], x["data"], *own), []).append(x)
    out = []
    shm = tempfile.mkdtemp(prefix="vp-mem-", dir="/dev/shm")

    def group(z):
        gi, (g, xs) = z
        comp, data, m, tr = g
        top = os.path.join(core.scratch().dir() if tr == "ext4" else shm, "g%d" % gi)
        os.mkdir(top)
        srcs = {}
        for n in (SMALL, big):
            p = os.path.join(top, "src-%d" % n)
            image(p, n, data, m or None)
            if comp != "plain":
                pack(p, comp, p + "." + comp.replace(".", ""))
                os.unlink(p)
                p += "." + comp.replace(".", "")
            srcs[n] = p
        res = []
        for i, x in enumerate(xs):
            d = os.path.join(top, "w%d" % i)
            os.mkdir(d)
            case = Case(x, SMALL, d, srcs[SMALL])
            for limit in LIMITS:
                small, err = case.run(limit)
                if small == "ok":
                    again, _ = case.run(limit)
                    if again == "ok":
                        break
            more = limit + BUFFERS if limit else None
            shutil.rmtree(d)
            os.mkdir(d)
            o, r, w = "skipped", -1, -1
            if small == "ok":
                case = Case(x, big, d, srcs[big])
                o, err = case.run(more)
                r, w = case.counts()
            rs = ranges(x["map"], big)
            res.append(dict(id="mem-%d-%d" % (gi, i), key="mem-" + "-".join(str(x[k]) for k in sorted(x)), sc=x, small=small, o=o, limit=limit or 0, more=more or 0, read=r, written=w, size=big * 1024,
                            mapped=sum(b - a for a, b in rs) * 1024, ranges=len(rs), result={"argv": case.argv, "err": err}))
            shutil.rmtree(d)
        shutil.rmtree(top)
        return res
    try:
        for res in core.pmap(group, list(enumerate(sorted(groups.items()))), par):
            out += res
    finally:
        shutil.rmtree(shm, ignore_errors=True)
        unit.cache_clear()
    return out


def C30(c):
    c.assumptions = ASSUME
    c.model("Memory", workers=8)
    c.model("Memory", workers=8, defs=dict(F=2, P=2, B=2, Q=1, N=c.pick(9, 11)))
    c.bugs("Memory", ["skipwhole", "feedall", "rangewhole", "unbounded", "keepread", "keeprange", "keepwritten", "readgaps", "again"])
    worlds = G.generate("any", c.pick(32, 400), c.seed * 30, module="GenMemory")
    tr = runs(c, worlds, c.pick(256, 1024))
    tell = lambda t: json.dumps({k: t[k] for k in ("sc", "small", "o", "limit", "more", "read", "written", "mapped", "ranges", "size", "result")})[:1500]
    c.traces("MemoryTrace", tr, describe=tell)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    for x in ("copy", "create", "contrib", "http", "file", "all", "last", "none", "reads", "copy_holes"):
        if not c.exercised.get(x) and not c.unlisted():
            raise core.MachineryError("never exercised: " + x)
    ok = [t for t in tr if t["o"] == "ok" and t["read"] >= 0]
    if ok:
        c.selftest("MemoryTrace", ok[0], lambda x: x.__setitem__("o", "fail"), "C30_memory")
        c.selftest("MemoryTrace", ok[0], lambda x: x.__setitem__("small", "hang"), "C30_small")
        c.selftest("MemoryTrace", ok[0], lambda x: x.__setitem__("read", 3 * x["size"]), "C30_reads")
        c.selftest("MemoryTrace", ok[0], lambda x: x.__setitem__("written", 3 * x["size"]), "C30_writes")
