"""The checks of the layout queries and of bmap creation."""
import base64, errno, hashlib, json, os, random, shutil, struct, subprocess, fcntl
from . import core, copyrun as R, copygen as G, content as C

ASSUME = ["TLC and the Java/Python runtimes", "the preload library emulates the kernel's answers to FIEMAP and SEEK_DATA/SEEK_HOLE as the documentation of these interfaces specifies",
          "the kernel reports extents that are aligned to file system blocks"]


def gen(c, family, n, k=0):
    return G.generate(family, n, c.seed * 1000 + k, module="GenMap")


# ------------------------------------------------------------------ layouts
def conf(path, image, ext, bsz, fiemap="1 0", seek="1", log=None, more=()):
    lines = ["log " + (log or path + ".log"), "watch image " + image, "bsz image %d" % bsz, "fiemap image " + fiemap, "seek image " + seek]
    lines += ["extent image %d %d" % (s * bsz, n * bsz) for s, n in ext] + list(more)
    open(path, "w").write("\n".join(lines) + "\n")
    return path


def all_queries(nb):
    qs = [[k, s, n] for s in range(nb) for n in range(0, nb - s + 1) for k in "mu"]
    return qs + [[k, b] for b in range(nb) for k in ("bm", "bu")]


METHODS = {"fiemap": ("FilemapFiemap", "1 0", 0), "fiemap-trim": ("FilemapFiemap", "1 1", 0), "fiemap-1": ("FilemapFiemap", "1 0", 1),
           "fiemap-2": ("FilemapFiemap", "1 1", 2), "fiemap-3": ("FilemapFiemap", "1 0", 3), "seek": ("FilemapSeek", "1 0", 0)}


def map_traces(layouts, methods, family, queries=None, bsz=4096, seek="1", timeout=60):
    jobs, metas = [], []
    for i, l in enumerate(layouts):
        d = core.scratch().dir()
        img = os.path.join(d, "image")
        size = l["nb"] * bsz - l["cut"]
        with open(img, "wb") as f:
            f.truncate(size)
        for m in methods:
            cls, fm, bufs = METHODS[m]
            qs = queries(l) if queries else all_queries(l["nb"])
            id = "%s-%d-%s" % (family, i, m)
            cf = conf(os.path.join(d, m + ".conf"), img, l["ext"], bsz, fm, seek)
            jobs.append(dict(id=id, what="map", image=img, conf=cf, cls=cls, bufs=bufs, queries=qs, timeout=timeout))
            metas.append((id, l, m, qs, size, d))
    res = R.run_driver(jobs)
    out = []
    for id, l, m, qs, size, d in metas:
        r = res[id]
        out.append(map_trace(id, family, l["ext"], l["nb"], size, qs, r))
        shutil.rmtree(d, ignore_errors=True)
    return [t for t in out if t]


def answer(k, s=0, c=0, r=(), b=False, x=""):
    return dict(k=k, s=s, c=c, r=list(r), b=b, x=x)


def map_trace(id, family, ext, nb, size, qs, r):
    if r["outcome"] == "skipped":
        return None
    t = dict(id=id, family=family, ext=[list(e) for e in ext], nb=nb, isize=size, blocks=r.get("blocks", 0), rsize=r.get("isize", 0), x="", answers=[])
    if r["outcome"] != "ok":
        t["x"] = (r.get("exc") or {}).get("msg") or r["outcome"]
        return t
    for q, a in zip(qs, r["answers"]):
        x = a["exc"]["type"] + " " + a["exc"]["msg"] if isinstance(a, dict) else ""
        if q[0] in ("m", "u"):
            t["answers"].append(answer(q[0], q[1], q[2], [] if x else a, x=x))
        elif q[0] in ("bm", "bu"):
            t["answers"].append(answer(q[0], q[1], b=False if x else a, x=x))
        elif q[0] == "il":
            for k in (0, 1):
                t["answers"].append(answer(q[1 + k][0], q[1 + k][1], q[1 + k][2], [] if x else a[k], x=x))
            if not x and a[2] is not None:
                t["answers"].append(answer("bm", q[3], b=a[2]))
    return t


def describe_map(t):
    return json.dumps({k: t[k] for k in ("ext", "nb", "isize", "x")})[:300]


def big_layouts(c):
    """More extents than one reply holds (256 KiB buffer: 4680)."""
    out = []
    for n, gap in ((4679, 2), (4680, 2), (4681, 2), (9361, 2), (5000, 1), (4681, 1)):
        if not c.thorough and n in (4679, 9361):
            continue
        # gap 1: all adjacent - one single run; 2: alternating; with a few longer holes
        ext, b = [], 0
        for i in range(n):
            if gap == 2 and i % 1000 == 17:
                b += 5
            ext.append([b, 1])
            b += gap
        nb = b + (3 if n % 2 else 0)
        out.append(dict(ext=ext, nb=nb, cut=n % 2))
    return out


def big_queries(l):
    nb = l["nb"]
    edge = sorted({0, 1, 4679 * 2, 4680 * 2, 4681 * 2 + 10, 4680, nb // 2, nb - 1, nb - 3} & set(range(nb)))
    qs = [[k, 0, nb] for k in "mu"]
    for s in edge[1:]:
        for n in (1, 7, nb - s):
            qs += [[k, s, min(n, nb - s)] for k in "mu"]
    return qs + [[k, b] for b in edge for k in ("bm", "bu")]


def C12(c):
    c.assumptions = ASSUME
    c.model("Filemap", workers=8, defs={} if not c.thorough else {"NB": 5})
    c.model("Filemap", "FilemapTwo", workers=8)
    c.bugs("Filemap", ("nomerge", "noclipfirst", "noclipend", "onereply", "nolimit", "eof"), defs={"NB": 3})
    c.bugs("Filemap", ["shared"], "FilemapTwo")
    # every layout of five blocks, every window
    tr = map_traces(gen(c, "Small", c.pick(260, 0)), ["fiemap", "fiemap-1", "fiemap-2", "seek"] + (["fiemap-trim", "fiemap-3"] if c.thorough else []), "Small")
    tr += map_traces(gen(c, "Wide", c.pick(60, 3000), 1), ["fiemap-trim", "fiemap-3", "seek"], "Wide")
    # interleaved queries on one object
    il = gen(c, "Inter", c.pick(200, 4000), 2)
    tr += map_traces(il, ["fiemap", "fiemap-2", "seek"], "Interleaved", queries=lambda l: [["il", [l["q1"][k] for k in "ksc"], [l["q2"][k] for k in "ksc"], l["blk"], l["sched"]]])
    tr += map_traces(big_layouts(c), ["fiemap", "fiemap-trim", "seek"], "Big", queries=big_queries)
    tr += real_maps(c)
    c.traces("MapTrace", tr, describe=describe_map)
    c.cov["queries"] = sum(len(t["answers"]) for t in tr)
    c.sample({k: (v[:12] if k == "answers" else v) for k, v in tr[7].items()})

    def corrupt(k, f):
        def g(x):
            a = [a for a in x["answers"] if a["k"] == k and (a["r"] or k == "bm")][-1]
            f(a)
        return g
    t = [t for t in tr if t["family"] == "Small" and 2 <= sum(e[1] for e in t["ext"]) <= 4 and t["ext"][0][0] < 3 and not t["x"]][0]
    c.selftest("MapTrace", t, corrupt("m", lambda a: a["r"][-1].__setitem__(1, a["r"][-1][1] + 1)), "C12_mapped")
    c.selftest("MapTrace", t, corrupt("u", lambda a: a["r"].pop()), "C12_unmapped")
    c.selftest("MapTrace", t, corrupt("bm", lambda a: a.__setitem__("b", not a["b"])), "C12_block")
    from . import far
    ft = far.queries(c, "C12", c.pick(60, 1500))
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", ft[0], lambda x: x["answers"][0]["r"].pop(), "C12_mapped")


# ----------------------------------------------------- files on real file systems
def fiemap_runs(path):
    """Independent FIEMAP query (one extent at a time); None when not supported."""
    fd = os.open(path, os.O_RDONLY)
    try:
        os.fsync(fd)
        out, pos = [], 0
        while True:
            buf = bytearray(struct.pack("=QQLLLL", pos, 0xffffffffffffffff - pos, 1, 0, 1, 0) + bytes(56))
            try:
                fcntl.ioctl(fd, 0xC020660B, buf, True)
            except OSError:
                return None
            if struct.unpack_from("=L", buf, 20)[0] == 0:
                return out
            log, phys, n = struct.unpack_from("=QQQ", buf, 32)
            flags = struct.unpack_from("=L", buf, 72)[0]
            out.append((log, n))
            pos = log + n
            if flags & 1:
                return out
    finally:
        os.close(fd)


def seek_runs(path):
    fd = os.open(path, os.O_RDONLY)
    try:
        os.fsync(fd)
        size, out, pos = os.fstat(fd).st_size, [], 0
        while pos < size:
            try:
                a = os.lseek(fd, pos, os.SEEK_DATA)
            except OSError:
                return out
            b = os.lseek(fd, a, os.SEEK_HOLE)
            out.append((a, b - a))
            pos = b
        return out
    finally:
        os.close(fd)


def libc_fallocate(fd, mode, off, n):
    import ctypes
    lib = ctypes.CDLL(None, use_errno=True)
    lib.fallocate.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
    if lib.fallocate(fd, mode, off, n):
        raise OSError(ctypes.get_errno(), "fallocate")


def real_file(path, rng, nb, cut, prealloc=True, bsz=4096, runs=False):
    """A really sparse file. Returns (data blocks, preallocated blocks)."""
    if runs:
        data, b = set(), rng.choice([0, 0, 1, 3])
        while b < nb:
            n = rng.choice([1, 2, 9, 127, 128, 129, 130, 200, 255, 256, 257, 513])
            data |= set(range(b, min(nb, b + n)))
            b += n + rng.choice([1, 1, 1, 2, 3, 7, 128] if rng.random() < .8 else [nb])
    else:
        data = {b for b in range(nb) if rng.random() < rng.choice([.2, .5, .8])}
    pre = set()
    with open(path, "wb") as f:
        f.truncate(nb * bsz - cut)
        order = sorted(data)
        if rng.random() < .5:
            rng.shuffle(order)
        for b in order:
            f.seek(b * bsz)
            t = C.tok(b) if rng.random() < .9 else 0
            n = min(bsz, nb * bsz - cut - b * bsz)
            f.write(C.pattern(t, n))
            if rng.random() < .2:
                f.flush()
                os.fsync(f.fileno())
        f.flush()
        if prealloc:
            try:
                if rng.random() < .4:
                    b = rng.randrange(nb)
                    n = rng.choice([1, 2, 5])
                    libc_fallocate(f.fileno(), 1, b * bsz, n * bsz)
                    pre = set(range(b, min(b + n, nb))) - data
                if rng.random() < .3:
                    b = rng.randrange(nb)
                    libc_fallocate(f.fileno(), 3, b * bsz, bsz)
                    data.discard(b)
                    pre.discard(b)
            except OSError:
                pass
        os.fsync(f.fileno())
    return data, pre


def realdirs():
    """Directories on real file systems: (dir, has FIEMAP, has SEEK_HOLE)."""
    out = []
    for base in (core.scratch().path, "/dev/shm"):
        try:
            d = core.scratch().dir() if base != "/dev/shm" else shm()
            p = os.path.join(d, "probe")
            with open(p, "wb") as f:
                f.truncate(4 * 4096)
                f.seek(8192)
                f.write(b"x")
            fm, sk = fiemap_runs(p), seek_runs(p)
            bs = os.statvfs(d).f_bsize
            os.unlink(p)
            if bs == 4096:
                out.append((d, fm == [(8192, 4096)], sk == [(8192, 4096)]))
        except OSError:
            pass
    return out


@core.once
def shm():
    import tempfile, atexit
    d = tempfile.mkdtemp(prefix="vp-", dir="/dev/shm")
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def real_maps(c):
    rng = random.Random(c.seed + 12)
    jobs, metas = [], []
    for d, fm, sk in realdirs():
        for i in range(c.pick(12, 150)):
            nb, cut = rng.choice([1, 3, 8, 20]), rng.choice([0, 1, 4095])
            img = os.path.join(d, "img%d" % i)
            data, pre = real_file(img, rng, nb, cut)
            size = os.path.getsize(img)
            for cls, ok, runs in (("FilemapFiemap", fm, fiemap_runs), ("FilemapSeek", sk, seek_runs)):
                if not ok:
                    continue
                ext = [[a // 4096, -(-n // 4096)] for a, n in runs(img)]
                seen = {b for s, n in ext for b in range(s, s + n) if b < nb}
                if not data <= seen or (not pre and seen != data):
                    raise core.MachineryError("unexpected layout of a real file: %s %s %s" % (sorted(data), sorted(pre), ext))
                id = "Real-%s-%d-%s" % (os.path.basename(d), i, cls)
                qs = all_queries(nb) if nb <= 8 else [q for q in all_queries(nb) if rng.random() < .2]
                jobs.append(dict(id=id, what="map", image=img, cls=cls, queries=qs))
                metas.append((id, ext, nb, size, qs, img))
    res = R.run_driver(jobs)
    out = [map_trace(id, "RealFiles", ext, nb, size, qs, res[id]) for id, ext, nb, size, qs, img in metas]
    for m in metas:
        if os.path.exists(m[5]):
            os.unlink(m[5])
    return [t for t in out if t]


# ------------------------------------------------------------------ creation
def image_content(nb, bsz, size, ext, rng=None):
    """Bytes of an image whose mapped blocks have distinct contents (a few of them zeros)."""
    out = bytearray(nb * bsz)
    for s, n in ext:
        for b in range(s, min(s + n, nb)):
            t = 0 if rng and rng.random() < .1 else C.tok(b)
            out[b * bsz:(b + 1) * bsz] = C.pattern(t, bsz)
    return bytes(out[:size])


def write_sparse(path, data, ext, bsz):
    with open(path, "wb") as f:
        f.truncate(len(data))
        for s, n in ext:
            f.seek(s * bsz)
            f.write(data[s * bsz:(s + n) * bsz])


def parsed(text, data):
    """What an independent reader finds in a generated bmap; sums: 1 right, 0 absent, 2 wrong."""
    bm = dict(err="", isize=0, bsz=0, blocks=0, mapped=0, ranges=[], sums=[], selfok=False, hash="")
    try:
        b = C.parse_bmap(text.encode())
        for k in ("isize", "bsz", "blocks", "mapped", "selfok"):
            bm[k] = b[k]
        bm["hash"] = b["hash"] or ""
        for a, z, s in b["ranges"]:
            bm["ranges"].append([a, z])
            bm["sums"].append(0 if s is None else 1 if hashlib.new(b["hash"], data[a * b["bsz"]:min((z + 1) * b["bsz"], len(data))]).hexdigest() == s else 2)
    except (ValueError, IndexError, KeyError) as e:
        bm["err"] = str(e)[:200] or type(e).__name__
    return bm


def create_events(log):
    """Order of synchronisation and layout queries on the image; number of failed (injected) calls."""
    ev, faults = [], 0
    pend = None
    for (seq, tid, op, role, a, b, cc, ret, err, doff) in R.read_log(log):
        if op == "fault":
            pend = (role, tid)
            continue
        if pend == (role, tid):
            pend = None
            if ret < 0:
                faults += 1
        if role != "image":
            continue
        if op == "fsync" and ret == 0:
            ev.append("sync")
        elif op == "fiemap" and ret >= 0:
            ev.append("layout")
        elif op == "lseek" and b in (3, 4):
            ev.append("layout")
    return ev, faults


def create_trace(id, family, **k):
    t = dict(id=id, family=family, isize=0, bsz=4096, ext=[], fiemap="ok", seek="real", zfs="none", hashok=True, hash="sha256", cs=True, faults=0, events=[], out="",
             x="", bm=dict(err="none", isize=0, bsz=0, blocks=0, mapped=0, ranges=[], sums=[], selfok=False, hash=""), same=True, posok=True, attrs=[], modified=False)
    t.update(k)
    return t


def outcome(r):
    if r["outcome"] in ("ok", "fail"):
        x = r.get("exc") or {}
        return r["outcome"], "" if r["outcome"] == "ok" else "error" if (x["mod"], x["type"]) == ("bmaptools.BmapCreate", "Error") else "internal"
    return r["outcome"], ""


def attrs(g):
    return [g[k] if isinstance(g.get(k), int) else -1 for k in ("image_size", "block_size", "blocks_cnt", "mapped_cnt", "mapped_size")]


def created(c, scen):
    """Scenarios of family Create through the API."""
    rng = random.Random(c.seed + 10)
    jobs, metas = [], []
    for i, s in enumerate(scen):
        d = core.scratch().dir()
        img, bm = os.path.join(d, "image"), os.path.join(d, "out.bmap")
        size = s["nb"] * s["bsz"] - s["cut"]
        ext = [e for e in s["ext"]]
        data = image_content(s["nb"], s["bsz"], size, ext, rng)
        write_sparse(img, data, ext, s["bsz"])
        j = dict(id="create-%d" % i, what="create", image=img, bmap=bm, hash=s["hash"], cs=None if s["cs"] == 2 else s["cs"], bmap_obj=s["out"] == "object", twice=True,
                 image_obj=s["image"] != "path", image_mode="rb+" if s["image"] == "pending" else "rb", pos=s["pos"], pos2=s.get("pos2", -1),
                 image_buffering=0 if s["image"] == "raw" else -1)
        st0 = os.stat(img)
        if s["image"] == "pending" and ext and ext[0][0] < s["nb"]:
            # data that are still in the buffer of the caller's file object; a range's checksum has to include them
            off = ext[0][0] * s["bsz"]
            n = max(0, min(4, (size - off) // 16))
            j["pending"] = [[off, "ab" * 16, n]]
            data = data[:off] + bytes.fromhex("ab" * 16) * n + data[off + 16 * n:]
        j["conf"] = conf(os.path.join(d, "conf"), img, ext, s["bsz"], ("1 %d" if s["method"] == "fiemap" else "95") % ((s["trim"],) if s["method"] == "fiemap" else ()),
                         more=["fault image read 0 short %d" % rng.choice([700, 5000])] if s["image"] == "raw" else [])
        jobs.append(j)
        metas.append((j, s, size, data, ext, d, img, bm, st0))
    res = R.run_driver(jobs)
    out = []
    for j, s, size, data, ext, d, img, bm, st0 in metas:
        r = res[j["id"]]
        if r["outcome"] != "skipped":
            evs, faults = create_events(j["conf"] + ".log")
            o, x = outcome(r)
            h = (s["hash"] or "sha256").lower()
            t = create_trace(j["id"], "Create", isize=size, bsz=s["bsz"], ext=ext, fiemap="ok" if s["method"] == "fiemap" else "notsupp", hash=h, cs=s["cs"] != 0, faults=faults,
                             events=evs, out=o, x=x)
            if o == "ok":
                t["bm"] = parsed(r["content"], data)
                t["same"] = r.get("content2") == r["content"]
                t["posok"] = s["image"] == "path" or (r["pos0"] == s["pos"] and r["pos"] == (s["pos"] if s.get("pos2", -1) < 0 else s["pos2"]))
                t["attrs"] = attrs(r["geo"])
            t["modified"] = open(img, "rb").read() != data
            t["result"] = r.get("exc")
            out.append(t)
        shutil.rmtree(d, ignore_errors=True)
    return out


def fakebin(name, fstype):
    """A directory with a df program for which every path lies on the file
    system called name, of this type; df prints the name as it is, blanks
    included."""
    d = core.scratch().dir()
    p = os.path.join(d, "df")
    open(p, "w").write("""#!/bin/sh
case "$*" in
*--output=fstype*) echo "Type"; echo "%s" ;;
*) echo "Filesystem Type 1K-blocks Used Available Use%% Mounted on"
   echo "%s %s 1000 10 990 1%% /home" ;;
esac
""" % (fstype, name, fstype))
    os.chmod(p, 0o755)
    return d


PATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


def environments(c, scen):
    """Scenarios of family Env, through the API or the command."""
    zfsbin = [fakebin(n, "zfs") for n in ("pool/x", "my pool/x", "rpool", "a  b c", "my ext4 pool")]
    otherbin = ["", fakebin("zfs", "ext4"), fakebin("my zfs pool", "btrfs"), fakebin("/dev/sda1", "ext4"), fakebin("zfs zfs", "fuse.zfs")]
    prm = {}
    for k, v in (("on", "1\n"), ("off", "0\n"), ("garbage", "yes\n"), ("missing", None), ("none", None)):
        prm[k] = core.scratch().dir()
        if v is not None:
            open(os.path.join(prm[k], "zfs_dmu_offset_next_sync"), "w").write(v)
    nb, bsz, ext = 6, 4096, [[0, 1], [2, 2], [5, 1]]
    data = image_content(nb, bsz, nb * bsz - 7, ext)

    def prep(i, s):
        d = core.scratch().dir()
        img, bm = os.path.join(d, "image"), os.path.join(d, "out.bmap")
        write_sparse(img, b"" if s["empty"] else data, [] if s["empty"] else ext, bsz)
        fm = {"ok": "1 0", "notsupp": "95", "enotty": "25", "eio": "5", "einval": "22"}[s["fiemap"]]
        sm = {"real": "1", "stub": "2", "unsupported": "3", "error": "4"}[s["seek"]]
        more = {"real": [], "stub": ["seekall 1"], "unsupported": ["seekall 3"], "error": []}[s["seek"]]
        more = more + ["redirect /sys/module/zfs/parameters/ %s/" % prm[s["zfs"]]]
        more += {"none": [], "fsync": ["fault image fsync 1 errno 5"], "fiemap1": ["fault image fiemap 1 errno 5"], "fiemap2": ["fault image fiemap 2 errno 5"],
                 "seek2": ["fault image seekdh 2 errno 5"], "seek3": ["fault image seekdh 3 errno 5"]}[s["fault"]]
        cf = conf(os.path.join(d, "conf"), img, [] if s["empty"] else ext, bsz, fm, sm, more=more)
        bins = (zfsbin if s["zfs"] != "none" else otherbin)[i % 5]
        env = {"PATH": bins + ":" + PATH if bins else PATH}
        return d, img, bm, cf, env

    jobs, metas = [], []
    for i, s in enumerate(scen):
        d, img, bm, cf, env = prep(i, s)
        metas.append((i, s, d, img, bm, cf, env))
        if not s["cli"]:
            jobs.append(dict(id="env-%d" % i, what="create", image=img, bmap=bm, hash=s["hash"], cs=s["cs"], conf=cf, env=env))
    res = R.run_driver(jobs)
    cli = dict(zip([m[0] for m in metas if m[1]["cli"]],
                   core.pmap(lambda m: R.run_cli(["create"] + ([] if m[1]["cs"] else ["--no-checksum"]) + (["-o", m[4]] if m[0] % 3 else []) + [m[3]], m[5], cwd=m[2], env=m[6]),
                             [m for m in metas if m[1]["cli"]])))
    out = []
    for i, s, d, img, bm, cf, env in metas:
        id = "env-%d" % i
        if s["cli"]:
            rc, so, se = cli[i]
            o = "hang" if rc is None else "ok" if rc == 0 else "fail"
            x = "" if o == "ok" else "error" if b"ERROR" in se else "internal"
            text = so.decode(errors="replace") if not i % 3 else open(bm, errors="replace").read() if os.path.exists(bm) else ""
            rr = {"rc": rc, "err": se.decode(errors="replace")[-400:]}
        else:
            r = res[id]
            if r["outcome"] == "skipped":
                continue
            o, x = outcome(r)
            text = r.get("content", "")
            rr = r.get("exc")
        evs, faults = create_events(cf + ".log")
        t = create_trace(id, "Env", isize=0 if s["empty"] else len(data), ext=[] if s["empty"] else ext, zfs=s["zfs"], seek=s["seek"],
                         fiemap={"ok": "ok", "notsupp": "notsupp", "enotty": "notsupp"}.get(s["fiemap"], "error"), hashok=s["hash"] != "nosuch", hash=s["hash"], cs=s["cs"],
                         faults=faults, events=evs, out=o, x=x, result=rr, scenario=s)
        if o == "ok":
            t["bm"] = parsed(text, data)
        t["modified"] = open(img, "rb").read() != (b"" if s["empty"] else data)
        out.append(t)
        shutil.rmtree(d, ignore_errors=True)
    return out


def real_creates(c, n, k=0):
    """Really sparse files on real file systems, through the command; the layout is read by independent code."""
    rng = random.Random(c.seed * 7 + 3 + k)
    work = []
    for d, fm, sk in realdirs():
        for i in range(n):
            nb = rng.choice([1, 2, 5, 40, 300, 1500])
            cut = rng.choice([0, 1, 4000])
            img = os.path.join(d, "rc%d" % i)
            real_file(img, rng, nb, cut, runs=i % 4 == 3)
            got = fiemap_runs(img) if fm else seek_runs(img)
            if not (fm or sk):
                continue
            work.append((d, i, fm, img, [[a // 4096, -(-m // 4096)] for a, m in got], rng.random() < .7, rng.random() < .5))

    def one(w):
        d, i, fm, img, ext, cs, tofile = w
        data = open(img, "rb").read()
        m = core.scratch().dir()
        cf = os.path.join(m, "conf")
        open(cf, "w").write("log %s.log\nwatch image %s\n" % (cf, img))
        bm = os.path.join(m, "o.bmap")
        rc, so, se = R.run_cli(["create"] + ([] if cs else ["--no-checksum"]) + (["-o", bm] if tofile else []) + [img], cf, cwd=m)
        evs, faults = create_events(cf + ".log")
        o = "hang" if rc is None else "ok" if rc == 0 else "fail"
        t = create_trace("real-%s-%d" % (os.path.basename(d), i), "RealCreate", isize=len(data), ext=ext, fiemap="ok" if fm else "notsupp", cs=cs, events=evs, out=o,
                         x="internal" if b"ERROR" not in se else "error", result={"rc": rc, "err": se.decode(errors="replace")[-300:]})
        if o == "ok":
            t["bm"] = parsed(open(bm).read() if tofile else so.decode(), data)
        t["modified"] = open(img, "rb").read() != data
        os.unlink(img)
        return t
    return core.pmap(one, work)


def describe_create(t):
    return json.dumps({k: t.get(k) for k in ("isize", "bsz", "ext", "fiemap", "seek", "zfs", "hash", "out", "x", "faults", "events", "bm", "result", "scenario")})[:900]


def big_create(c):
    """More extents than fit one FIEMAP reply; long ranges (more than one chunk of checksum calculation)."""
    out = []
    for n, (ext, nb, bsz) in enumerate([([[2 * i, 1] for i in range(5000)], 10001, 1024), ([[i, 1] for i in range(5000)], 5000, 1024), ([[0, 3000], [3001, 999]], 4003, 4096),
                                        ([[0, 513]], 513, 4096), ([[1, 256], [258, 255]], 600, 4096)]):
        out.append(dict(ext=ext, nb=nb, bsz=bsz, cut=n % 2, hash="sha256", cs=1, image="path", out="object" if n % 2 else "path", trim=n % 2, method="fiemap", pos=0))
        if n in (0, 3):
            out.append(dict(out[-1], method="seek", image="object", pos=13))
    return out


def C10(c):
    c.assumptions = ASSUME
    c.model("BmapCreate")
    c.bugs("BmapCreate", ["skipzero", "checkpoint", "latecount"])
    tr = created(c, gen(c, "Create", c.pick(450, 8000)) + gen(c, "Human", c.pick(60, 600)) + big_create(c)) + real_creates(c, c.pick(10, 120))
    c.traces("CreateTrace", tr, describe=describe_create)
    c.sample({k: v for k, v in tr[3].items()})
    from . import far
    ft = far.creations(c, "C10", c.pick(40, 800), 1)
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", ft[0], lambda x: x["ranges"].pop(), "C10_ranges")
    t = [t for t in tr if t["out"] == "ok" and len(t["bm"]["ranges"]) >= 2 and t["cs"]][0]
    for what, f in (("C10_ranges", lambda x: x["bm"]["ranges"][-1].__setitem__(1, x["bm"]["ranges"][-1][1] + 1)), ("C10_rangesum", lambda x: x["bm"]["sums"].__setitem__(0, 2)),
                    ("C10_filesum", lambda x: x["bm"].__setitem__("selfok", False)), ("C10_mapped", lambda x: x["bm"].__setitem__("mapped", 99))):
        c.selftest("CreateTrace", t, f, what)


def C13(c):
    c.assumptions = ASSUME + ["'df' tells the file system type truthfully"]
    c.model("BmapCreate")
    scen = gen(c, "Env", c.pick(420, 0))
    tr = environments(c, scen)
    c.traces("CreateTrace", tr, describe=describe_create)
    c.sample(tr[5])
    t = [t for t in tr if t["out"] == "ok"][0]
    for what, f in (("C13_notsynced", lambda x: x.__setitem__("events", [e for e in x["events"] if e != "sync"])), ("C13_zfs", lambda x: x.__setitem__("zfs", "off")),
                    ("C13_layout", lambda x: (x.__setitem__("fiemap", "notsupp"), x.__setitem__("seek", "stub"))), ("C13_fault", lambda x: x.__setitem__("faults", 1))):
        c.selftest("CreateTrace", t, f, what)


# ------------------------------------------------------- interrupted creation
def offer(o, must, early=False, doc=False, note=""):
    return dict(o=o[0], y=o[1], w=bool(o[2]), must=must, early=early, doc=doc, note=note)


def offer_trace(id, prop, family, offers, **k):
    return dict(id=id, prop=prop, family=family, offers=offers, **k)


def describe_offer(v):
    def f(t):
        bad = (v.get(t["id"]) or {}).get("bad") or []
        return json.dumps([t["offers"][i - 1] for i in bad[:4]])[:700]
    return f


def offer_job(id, d, image, base, muts, **k):
    return dict(id=id, what="offer", image=image, base=base, muts=muts, tmp=os.path.join(d, "offered.bmap"), dest=os.path.join(d, "offered.dest"), timeout=600, **k)


def check_offers(c, traces):
    for t in traces:  # describing needs the verdict's indices
        t.setdefault("key", t["id"])
    verdicts, st, gen = core.validate("OfferTrace", traces)
    c.cov["states"] += st
    c.cov["transitions"] += gen
    c.cov["traces_validated_against_impl"] += len(traces)
    c.cov["offers"] = c.cov.get("offers", 0) + sum(len(t["offers"]) for t in traces)
    for t in traces:
        v = verdicts[t["id"]]
        mine = [x for x in v["viol"] if x.startswith(c.prop + "_")]
        if mine:
            c.violation(mine, dict(t, offers=[t["offers"][i - 1] for i in sorted(v["bad"])][:50]), lambda t: json.dumps(t["offers"][:4])[:700])
        c.kinds[t["family"]] = c.kinds.get(t["family"], 0) + 1
    return verdicts


def history(log, datafile, role):
    """Write history of a file from the shim log."""
    out = []
    data = open(datafile, "rb").read() if os.path.exists(datafile) else b""
    for (seq, tid, op, r, a, b, cc, ret, err, doff) in R.read_log(log):
        if r == role and op == "write" and ret > 0:
            out.append((a, data[doff:doff + ret]))
        elif r == role and op == "ftruncate" and ret == 0:
            out.append((a, None))
    return out


def replay(hist, n, torn=None):
    b = bytearray()
    for k, (off, data) in enumerate(hist[:n + (torn is not None)]):
        if data is None:
            del b[off:]
            b.extend(bytes(off - len(b)))
            continue
        if k == n:
            data = data[:torn]
        if off > len(b):
            b.extend(bytes(off - len(b)))
        b[off:off + len(data)] = data
    return bytes(b)


def C11(c):
    c.assumptions = ASSUME + ["after a crash of the process alone the kernel keeps what was written", "no collision of the hash functions"]
    c.model("BmapCreate", defs={"NR": c.pick(3, 6)})
    c.bugs("BmapCreate", ["skipzero", "checkpoint"])
    rng = random.Random(c.seed * 13 + 11)
    cases = []
    for i in range(c.pick(10, 60)):
        nr = rng.choice([0, 1, 2, 5]) if i else 5
        nb = rng.choice([8, 16])
        ext = [[2 * k, 1] for k in range(nr)] if rng.random() < .7 else [[1, nb - 1]]
        if i in (3, 7):
            nb, ext = 700, [[2 * k, 1] for k in range(340)]
        cases.append(dict(ext=ext, nb=nb, bsz=4096, cut=rng.choice([0, 5]), hash=rng.choice(["sha256", "md5", "sha512"]), cs=rng.choice([0, 1]), buf=[-1, 1][i % 2]))
    jobs, metas = [], []
    for i, s in enumerate(cases):
        d = core.scratch().dir()
        img, bm, cf = (os.path.join(d, n) for n in ("image", "o.bmap", "conf"))
        data = image_content(s["nb"], 4096, s["nb"] * 4096 - s["cut"], s["ext"])
        write_sparse(img, data, s["ext"], 4096)
        conf(cf, img, s["ext"], 4096, more=["data " + cf + ".data", "watch bmap " + bm, "payload bmap"])
        jobs.append(dict(id="hist-%d" % i, what="create", image=img, bmap=bm, hash=s["hash"], cs=s["cs"], bmap_obj=s["buf"] == 1, bmap_buffering=s["buf"], conf=cf))
        metas.append((i, s, d, img, bm, cf))
    res = R.run_driver(jobs)
    offers, info = [], {}
    for i, s, d, img, bm, cf in metas:
        r = res["hist-%d" % i]
        if r["outcome"] != "ok":
            c.violation(["C11_generate"], {"id": "hist-%d" % i, "result": r})
            continue
        h = history(cf + ".log", cf + ".data", "bmap")
        final = open(bm, "rb").read()
        if replay(h, len(h)) != final:
            raise core.MachineryError("write history does not lead to the bmap file")
        states = []
        for n in range(len(h) + 1):
            states.append(("%d of %d writes" % (n, len(h)), replay(h, n)))
            if n < len(h) and h[n][1]:
                ln = len(h[n][1])
                cuts = range(1, ln) if ln <= 140 else sorted(set(rng.sample(range(1, ln), min(ln - 1, c.pick(90, 1500)))) | {ln - 1, ln - 2, ln - 8, ln - 9})
                states += [("%d writes and %d bytes" % (n, k), replay(h, n, k)) for k in cuts if 0 < k < ln]
        seen, muts, notes = set(), [], []
        for what, b in states:
            if b in seen:
                continue
            seen.add(b)
            p = os.path.join(d, "s%d" % len(muts))
            open(p, "wb").write(b)
            muts.append(["file", p])
            notes.append((what, b == final))
        offers.append(offer_job("hist-%d" % i, d, img, bm, muts))
        info["hist-%d" % i] = (notes, len(h))
    ores = R.run_driver(offers)
    tr = []
    for id, (notes, n) in info.items():
        if ores[id]["outcome"] == "skipped":
            continue
        tr.append(offer_trace(id, "C11", "WriteHistory", [offer(o, "accept" if same else "refuse", note=what) for o, (what, same) in zip(ores[id]["offers"], notes)], writes=n))
    tr += killed_creates(c, rng)
    check_offers(c, tr)
    c.cov["write_histories"] = [t["writes"] for t in tr if "writes" in t]
    c.sample({k: v if k != "offers" else v[:5] + v[-2:] for k, v in tr[0].items()})

    def acc(x):
        x["offers"][len(x["offers"]) // 2]["o"] = "ok"
    c.selftest("OfferTrace", tr[0], acc, "C11_accepted")


def killed_creates(c, rng):
    """The command killed or failing at a system call; what it left is offered to the copy command."""
    faults = [["bmap", "write", n, k, a] for n in (1, 2, 3, 4, 5, 6, 7) for k, a in (("kill", 0), ("torn", 1), ("torn", 37), ("errno", 28), ("short", 9))]
    faults += [["image", "fiemap", n, k, 5] for n in (1, 2, 3) for k in ("kill", "errno", "sigint")]
    faults += [["image", "read", n, k, 5] for n in (1, 2, 3) for k in ("kill", "errno", "sigint")]
    faults += [["image", "fsync", 1, k, 5] for k in ("kill", "errno", "sigint")]
    work = [(i, f, 5000 if f[0] == "image" and f[1] == "fiemap" and i % 2 else rng.choice([3, 300])) for i, f in enumerate(faults)]
    if not c.thorough:
        work = [w for w in work if rng.random() < .55]

    def one(w):
        i, f, n = w
        d = core.scratch().dir()
        img, bm, cf = (os.path.join(d, x) for x in ("image", "o.bmap", "conf"))
        bsz = 1024 if n == 5000 else 4096
        ext = [[2 * k, 1] for k in range(n)]
        data = image_content(2 * n, bsz, 2 * n * bsz, ext)
        write_sparse(img, data, ext, bsz)
        conf(cf, img, ext, bsz, more=["watch bmap " + bm, "fault " + " ".join(map(str, f))])
        rc, so, se = R.run_cli(["create", "-o", bm, img], cf, cwd=d)
        left = open(bm, "rb").read() if os.path.exists(bm) else None
        hit = any(x[2] == "fault" for x in R.read_log(cf + ".log"))
        conf(cf, img, ext, bsz)
        R.run_cli(["create", "-o", bm + ".full", img], cf, cwd=d)
        final = open(bm + ".full", "rb").read()
        offers = []
        if left is not None:
            rc2, so, se = R.run_cli(["copy", "--bmap", bm, img, os.path.join(d, "dest")], cwd=d)
            offers.append(offer(["hang" if rc2 is None else "ok" if rc2 == 0 else "fail", "", 0], "accept" if left == final else "refuse",
                                note="create rc %s, left %d of %d bytes, fault fired: %s, %s" % (rc, len(left), len(final), hit, f)))
        shutil.rmtree(d, ignore_errors=True)
        return offer_trace("kill-%d" % i, "C11", "Killed-%s-%s" % (f[1], f[3]), offers)
    return core.pmap(one, work)


# ------------------------------------------------------- create, then copy
def C24(c):
    """Real sparse files on real file systems: create, compress, copy; the holes are compared by independent code."""
    c.assumptions = ASSUME + ["gzip, bzip2, xz, zstd, lz4, lzop, tar compress correctly", "the file system does not allocate more than what is written"]
    c.model("BmapCreate")
    c.model("MCPipeline", workers=8)
    c.bugs("BmapCreate", ["checkpoint"])
    rng = random.Random(c.seed * 24 + 1)
    work = []
    for d, fm, sk in realdirs():
        if not (fm or sk):
            continue
        for i in range(c.pick(45, 500)):
            runs = i % 3 == 2
            nb = rng.choice([150, 300, 700, 1100, 2500]) if runs else rng.choice([1, 2, 5, 17, 60, 300, 700])
            cut = rng.choice([0, 0, 1, 2048, 4095])
            sub = os.path.join(d, "rt%d" % i)
            os.mkdir(sub)
            img = os.path.join(sub, "image")
            real_file(img, rng, nb, cut, runs=runs)
            got = fiemap_runs(img) if fm else seek_runs(img)
            old = rng.choice([None, None, None, 3, nb * 4096 + 9000])
            work.append(dict(i=i, d=d, sub=sub, img=img, nb=nb, cut=cut, ext=[[a // 4096, -(-m // 4096)] for a, m in got], comp=rng.choice(["", "", "", "gz", "bz2", "xz", "zst", "lz4", "lzo", "tar.gz", "tar.bz2", "tar.xz"]),
                             old=old, nocs=rng.random() < .2, discover=rng.random() < .5, cli=rng.random() < .4 or bool(c.thorough)))
    tr = core.pmap(round_trip, work)
    c.traces("RoundTrace", tr, describe=lambda t: json.dumps({k: v for k, v in t.items() if k not in ("src", "dst")})[:600])
    c.sample(tr[0])
    t = [t for t in tr if t["copy"] == "ok" and 0 in t["holes"] + [0] and t["holes"]][0]
    c.selftest("RoundTrace", t, lambda x: x["holes"].pop(), "C24_holes")
    c.selftest("RoundTrace", t, lambda x: x["dst"].__setitem__(0, 4711), "C24_contents")
    from . import far
    ft = far.creations(c, "C24", c.pick(40, 800), copy=True)
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", [t for t in ft if t["what"] == "copy"][0], lambda x: x["data"].pop(), "C24_holes")


COMP = {"gz": "gzip -c", "bz2": "bzip2 -c", "xz": "xz -c", "zst": "zstd -q -c", "lz4": "lz4 -q -c", "lzo": "lzop -c"}


def compress(img, comp):
    """Independent compression with the command line tools; the result lies beside the image."""
    if not comp:
        return img
    out = img + "." + comp
    d, b = os.path.split(img)
    if comp.startswith("tar"):
        cmd = "tar -C %s -S -c%sf %s %s" % (d, {"tar": "", "tar.gz": "z", "tar.bz2": "j", "tar.xz": "J"}[comp], out, b)
        cmd = cmd.replace(" -S", "")
    else:
        cmd = "%s %s > %s" % (COMP[comp], img, out)
    r = subprocess.run(cmd, shell=True, capture_output=True)
    if r.returncode:
        raise core.MachineryError("%s: %s" % (cmd, r.stderr[-300:]))
    return out


def cells(path, n):
    b = open(path, "rb").read() if os.path.exists(path) else b""
    return [C.classify(b[i * 4096:(i + 1) * 4096].ljust(4096, b"\0") if i * 4096 < len(b) else b"", i) for i in range(n)], len(b)


def round_trip(w):
    sub, img = w["sub"], w["img"]
    size = os.path.getsize(img)
    raw = open(img, "rb").read()
    src, _ = cells(img, w["nb"])
    bm = os.path.join(sub, "image.bmap" if w["discover"] else "other.map")
    dest = os.path.join(sub, "dest")
    rc, so, se = R.run_cli(["create", *(["--no-checksum"] if w["nocs"] else []), "-o", bm, img], cwd=sub)
    t = dict(id="rt-%s-%d" % (os.path.basename(w["d"]), w["i"]), family="RoundTrip-" + (w["comp"] or "plain"), nb=w["nb"], isize=size, ext=w["ext"], create="ok" if rc == 0 else "fail",
             copy="none", src=src, dst=[], dsize=-1, holes=[], exact=False, result={"rc": rc, "err": se.decode(errors="replace")[-300:]})
    if rc == 0:
        if w["old"]:
            with open(dest, "wb") as f:
                f.write(b"old!" * (w["old"] // 4 + 1))
        path = compress(img, w["comp"])
        rc, so, se = R.run_cli(["copy", *([] if w["discover"] else ["--bmap", bm]), path, dest], cwd=sub)
        t["copy"] = "ok" if rc == 0 else "fail"
        t["result"] = {"rc": rc, "err": se.decode(errors="replace")[-300:]}
        t["dst"], t["dsize"] = cells(dest, w["nb"])
        t["exact"] = os.path.exists(dest) and open(dest, "rb").read() == raw
        if rc == 0:
            m = {b for a, n in seek_runs(dest) for b in range(a // 4096, -(-(a + n) // 4096))}
            t["holes"] = [b for b in range(w["nb"]) if b not in m]
    shutil.rmtree(sub, ignore_errors=True)
    return t
