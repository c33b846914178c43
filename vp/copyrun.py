"""Turns copy scenarios into files + shim configuration, runs them (API driver or the real command) and converts the
recorded system calls into event traces for CopyTrace."""
import errno, json, os, pty, re, shutil, subprocess, threading, time
from . import content as C
from .core import scratch, shim, code_env, PY, REPO, VERIF, MachineryError, pmap, NPROC

O_EXCL, O_TRUNC, O_CREAT = 0o200, 0o1000, 0o100


def scenario(id, **kw):
    s = dict(id=id, family="", kind="reg", bsz=4096, isize=4096 * 4, cpb=1, ranges=None, pass_known=False, known=None, srclen=None,
             bpc=1, zero=[], bad=[], verify=True, sync=True, oldvar=None, oldlen=None, cap=None, version="2.0", hash="sha256",
             single="X", mapcnt=None, bm_isize=None, bm_blocks=None, faults=[], rfault=None, wfault=None, gate="", stall=None,
             progress=False, psplash=None, mode="api", badbmap=False, documented=False, vary=False, mayfail=False, isched=False,
             wantpct=False, lossy=False, forbidden="", fresh=True, timeout=40, extra_conf=[], destmode="wb+", plain=False,
             transread=False, bmap_bytes=None, major=8, minor=0, cliargs=[], rerun=None, sysfs=None, bmap_named=False, extra_files=[], nofollow=False, progress_format=None,
             same=0, destpos=0, guard="", destmode2=None, retry=None, rdelay=0, raw="")
    unknown = set(kw) - set(s)
    if unknown:
        raise KeyError(unknown)
    s.update(kw)
    return s


class Prepared:
    pass


def prepare(s):
    """Create the files of a scenario."""
    p = Prepared()
    p.s = s
    p.dir = scratch().dir()
    nblk = -(-s["isize"] // s["bsz"])
    cap = s["cap"] if s["cap"] is not None else nblk * s["bsz"]
    g = p.geo = C.Geometry(s["bsz"], s["isize"], s["cpb"], extent=cap if s["kind"] == "bdev" else None, bpc=s["bpc"])
    p.cap = cap
    zero, bad = set(s["zero"]), set(s["bad"])
    p.orig = [0 if (a >= s["isize"] or i in zero) else C.tok(i) for i, (a, b) in enumerate(g.cells)]
    if s["same"]:
        # blocks with equal contents
        first = {}
        for i, (a, b) in enumerate(g.cells):
            k = (a // s["bsz"] % s["same"], a % s["bsz"], b - a)
            if p.orig[i] and b - a >= 16:
                p.orig[i] = first.setdefault(k, p.orig[i])
    srclen = s["isize"] if s["srclen"] is None else s["srclen"]
    p.srclen = srclen
    p.src = [C.tok(i, 2) if i in bad and a < s["isize"] else p.orig[i] for i, (a, b) in enumerate(g.cells)]
    p.image, p.dest, p.bmap = (os.path.join(p.dir, n) for n in ("image", "dest", "image.bmap"))
    C.build(p.image, g, p.src, min(srclen, s["isize"]))
    if srclen > s["isize"]:
        os.truncate(p.image, srclen)
    p.old = [0] * len(g.cells)
    p.oldsize = 0
    if s["kind"] == "bdev":
        var = 1 if s["oldvar"] is None else s["oldvar"]
        p.old = [C.tok(i, var) if var and a < cap else 0 for i, (a, b) in enumerate(g.cells)]
        C.build(p.dest, g, p.old, cap)
        p.oldsize = cap
    elif s["oldvar"]:
        p.oldsize = s["oldlen"] if s["oldlen"] is not None else g.end
        C.build(p.dest, g, [C.tok(i, s["oldvar"]) for i in range(len(g.cells))], p.oldsize)
        buf = open(p.dest, "rb").read()
        p.old = [C.cell_token(buf, x, y, i) for i, (x, y) in enumerate(g.cells)]
    if s["bmap_bytes"] is not None:
        open(p.bmap, "wb").write(s["bmap_bytes"])
    elif s["ranges"] is not None:
        C.write_bmap(p.bmap, g, s["ranges"], p.orig, version=s["version"], hashname=s["hash"], single=s["single"],
                     mapped=s["mapcnt"], isize=s["bm_isize"], blocks=s["bm_blocks"])
    p.hasbmap = s["ranges"] is not None
    if not p.hasbmap and os.path.exists(p.bmap) and s["mode"] == "api":
        raise MachineryError("unexpected bmap")
    p.meta = scratch().dir()
    p.log, p.data, p.conf = (os.path.join(p.meta, n) for n in ("log", "data", "conf"))
    p.psplash = None
    p.inputs = input_state(p)
    return p


def input_state(p):
    """What identifies the contents of the input files of a copy."""
    out = {}
    for f in (p.image, p.bmap):
        try:
            st = os.lstat(f)
            out[f] = (st.st_ino, st.st_size, st.st_mtime_ns, st.st_mode, open(f, "rb").read() if st.st_size < 1 << 20 else b"")
        except OSError:
            out[f] = None
    return out


def inputs_event(p):
    now = input_state(p)
    return ev("inputs", n=sum(1 for f in now if now[f] != p.inputs[f]))


def leftover_event(p):
    return ev("leftover", n=len(set(os.listdir(p.dir)) - {"image", "dest", "image.bmap"} - set(p.s["extra_files"])))


def cleanup(p):
    shutil.rmtree(p.dir, ignore_errors=True)
    shutil.rmtree(p.meta, ignore_errors=True)


def conf_lines(p, faults=None, sub=""):
    s = p.s
    c = ["log " + p.log + sub, "data " + p.data + sub, "watch dest " + p.dest, "payload dest", "watch image " + p.image]
    if s["kind"] == "bdev":
        c.append("blk dest %d %d %d" % (p.cap, s["major"], s["minor"]))
        c.append("redirect /sys/dev/block/ %s/" % (s["sysfs"] or os.path.join(p.meta, "nosysfs")))
    for f in (s["faults"] if faults is None else faults):
        c.append("fault %s %s %d %s %s" % (tuple(f) + (0,) * (5 - len(f))))
    return c + list(s["extra_conf"])


def api_job(p, sub="", faults=None):
    s = p.s
    open(p.conf + sub, "w").write("\n".join(conf_lines(p, faults, sub)) + "\n")
    known = None
    if s["known"] is not None:
        known = s["known"]
    elif s["pass_known"]:
        known = s["isize"]
    return dict(id=s["id"], what="copy", conf=p.conf + sub, image=p.image, dest=p.dest, bmap=p.bmap if p.hasbmap else None, kind=s["kind"],
                sync=s["sync"], verify=s["verify"], known=known, gate=s["gate"], stall=s["stall"], rfault=s["rfault"], wfault=s["wfault"],
                progress=s["progress"], psplash=s["psplash"], dir=p.meta, progress_format=s["progress_format"], timeout=s["timeout"], destmode=s["destmode"], plain=s["plain"],
                transread=s["transread"], bmap_named=s["bmap_named"], destpos=s["destpos"],
                retry=s["retry"], rdelay=s["rdelay"], raw=s["raw"])


def run_driver(jobs, par=NPROC, env=None):
    if not jobs:
        return {}
    d = scratch().dir()
    jf, of = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
    json.dump(jobs, open(jf, "w"))
    e = code_env({"LD_PRELOAD": shim(), "VP_PAR": str(par)})
    e.update(env or {})
    r = subprocess.run([PY, os.path.join(VERIF, "vp/driver.py"), jf, of], env=e, cwd=d, capture_output=True, text=True, timeout=860)
    if r.returncode or not os.path.exists(of):
        # an import failure of the code under test is a failure of everything
        raise MachineryError("driver failed: rc=%s %s" % (r.returncode, r.stderr[-3000:]))
    o = json.load(open(of))
    if not o["root"].startswith(os.path.realpath(REPO) + "/"):
        raise MachineryError("driver imported %s" % o["root"])
    for k, v in o["results"].items():
        if "machinery" in v:
            raise MachineryError("%s: %s" % (k, v["machinery"]))
    return o["results"]


def run_cli(argv, conf=None, cwd=None, env=None, timeout=60, module=("-m", "bmaptools"), stdin=None):
    """The real command in its own process. Returns (rc, stdout, stderr); rc None = hang."""
    e = code_env(env)
    if conf:
        e["LD_PRELOAD"], e["VPSHIM_CONF"] = shim(), conf
    try:
        r = subprocess.run([PY, *module, *argv], env=e, cwd=cwd or scratch().path, capture_output=True, timeout=timeout,
                           stdin=stdin if stdin is not None else subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return None, b"", b""
    return r.returncode, r.stdout, r.stderr


def run_tty(argv, conf, cwd, timeout=60):
    """The real command with a terminal for its output; as run_cli, all output in stderr. The watched role is "tty"."""
    m, sl = pty.openpty()
    e = code_env({"LD_PRELOAD": shim(), "VPSHIM_CONF": conf, "TERM": "xterm"})
    open(conf, "a").write("watch tty %s\npayload tty\n" % os.ttyname(sl))
    p = subprocess.Popen([PY, "-m", "bmaptools", *argv], env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=sl, stderr=sl)
    out = []

    def drain():
        while True:
            try:
                b = os.read(m, 65536)
            except OSError:
                return
            if not b:
                return
            out.append(b)
    t = threading.Thread(target=drain)
    t.start()
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = None
    os.close(sl)
    t.join(20)
    os.close(m)
    return rc, b"", b"".join(out)


class Splash:
    """A psplash pipe for the command: "missing", "file", "unread" (nobody has it open), "full", "read"."""

    def __init__(self, mode, path):
        self.mode, self.path, self.fd, self.stop = mode, path, None, False
        if mode == "file":
            open(path, "w").close()
        elif mode != "missing":
            os.mkfifo(path)
        if mode in ("read", "full"):
            self.fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        if mode == "full":
            w = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
            try:
                while True:
                    os.write(w, b"x" * 4096)
            except BlockingIOError:
                pass
            os.close(w)
        self.t = threading.Thread(target=self.drain)
        self.t.start()

    def drain(self):
        while self.mode == "read" and not self.stop:
            try:
                os.read(self.fd, 65536)
            except BlockingIOError:
                pass
            time.sleep(.002)

    def close(self):
        self.stop = True
        self.t.join()
        if self.fd is not None:
            os.close(self.fd)


def cli_job(id, argv, d, log, conf=None, env=None, stdin=None, timeout=60):
    """A command line for the driver (a forked interpreter instead of a new one); result through cli_result."""
    j = dict(id=id, what="cli", argv=list(argv), cwd=d, log=log, env=code_env(env), timeout=timeout)
    if conf:
        j["conf"] = conf
    if stdin:
        j["stdin"] = stdin
    return j


def cli_result(r):
    """(rc, stdout, stderr) as run_cli; rc None = hang, -9 = killed."""
    if r["outcome"] in ("hang", "skipped"):
        return None, "", ""
    if r["outcome"] == "killed":
        return -9, "", ""
    return r["rc"], r["out"], r["err"]


def read_log(path):
    out = []
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            f = line.split()
            if len(f) == 10:
                out.append((int(f[0]), int(f[1]), f[2], f[3], *map(int, f[4:])))
    return out


def ev(op, c=(), v=(), t=(), n=0, x="", y="", sz=0, out=0):
    return dict(op=op, c=list(c), v=list(v), t=list(t), n=n, x=x, y=y, sz=sz, out=out)


class Replica:
    """The destination reconstructed from the recorded calls."""

    def __init__(self, p):
        self.p, self.g = p, p.geo
        self.buf = bytearray(open(p.dest, "rb").read()) if os.path.exists(p.dest) else bytearray()
        self.bdev = p.s["kind"] == "bdev"
        self.toks = [self.cell(i) for i in range(len(self.g.cells))]

    def cell(self, i):
        a, b = self.g.cells[i]
        return C.cell_token(self.buf, a, b, i)

    def change(self, cells):
        c, v = [], []
        for i in cells:
            t = self.cell(i)
            if t != self.toks[i]:
                self.toks[i] = t
                c.append(i + 1)
                v.append(t)
        return c, v

    def write(self, off, data):
        if off > len(self.buf):
            self.buf.extend(bytes(off - len(self.buf)))
        self.buf[off:off + len(data)] = data
        cells, out = self.g.touched(off, len(data))
        c, v = self.change(cells)
        return c, v, [i + 1 for i in cells], out

    def trunc(self, n):
        old = len(self.buf)
        if n < old:
            del self.buf[n:]
        else:
            self.buf.extend(bytes(n - old))
        lo, hi = min(n, old), max(n, old)
        return self.change(self.g.touched(lo, hi - lo)[0])

    @property
    def size(self):
        return len(self.buf)


def events(p, rep, sub=""):
    """Events of one run from the shim log (before 'ret' / 'final')."""
    log = read_log(p.log + sub)
    data = open(p.data + sub, "rb") if os.path.exists(p.data + sub) else None
    out = []
    pending = None
    for (seq, tid, op, role, a, b, c, ret, err, doff) in log:
        if len(out) > 20000 and role != "-":  # endless
            continue
        if op == "fault":
            pending = (role, tid)
            continue
        if pending and pending == (role, tid):
            pending = None
            if ret < 0:
                out.append(ev("fault", x="%s-%s" % (role, op)))
        if role == "dest":
            if op == "open":
                if ret == 0 and (a & O_TRUNC) and not rep.bdev and c != -1:
                    cc, v = rep.trunc(0)
                    out.append(ev("trunc", cc, v, sz=rep.size, x="open"))
            elif op == "write" and ret > 0:
                data.seek(doff)
                buf = data.read(ret)
                cc, v, t, o = rep.write(a, buf)
                out.append(ev("write", cc, v, t, n=ret, x="excl" if c & O_EXCL else "shared", sz=rep.size, out=o))
            elif op == "ftruncate" and ret == 0:
                cc, v = rep.trunc(a)
                out.append(ev("trunc", cc, v, sz=rep.size))
            elif op == "fallocate" and ret == 0:
                if a & 0x12:  # punch hole / zero range
                    n = min(c, max(0, rep.size - b))
                    cc, v, t, o = rep.write(b, bytes(n))
                    out.append(ev("write", cc, v, t, n=n, x="excl", sz=rep.size, out=o))
                elif not a & 1 and b + c > rep.size:
                    cc, v = rep.trunc(b + c)
                    out.append(ev("trunc", cc, v, sz=rep.size))
            elif op == "fsync" and ret == 0:
                out.append(ev("fsync"))
        elif role in ("tty", "splash"):
            # the command's own reports: on its terminal, to the psplash pipe
            if op == "write" and ret > 0:
                data.seek(doff)
                buf = data.read(ret).decode(errors="replace")
                for x in re.findall(r"\r[^\r\n%]*?(-?\d+)\s?%" if role == "tty" else r"PROGRESS (-?\d+)\n", buf):
                    out.append(ev("pct", n=int(x)))
        elif role == "-":
            if op == "iR":
                out.append(ev("got", n=a))
            elif op == "iW":
                out.append(ev("put", n=a))
            elif op in ("faultR", "faultW"):
                out.append(ev("fault", x=op))
            elif op == "ret":
                out.append(ev("ret", x="ok" if a == 0 else "fail"))
            elif op == "again":
                out.append(ev("again"))
            elif op == "psplash":
                out.append(ev("pct", n=a))
            elif op == "progress":
                out.append(ev("progress", n=a))
    if data:
        data.close()
    return out


def final_event(p):
    buf = open(p.dest, "rb").read() if os.path.exists(p.dest) else b""
    return ev("final", v=[C.cell_token(buf, a, b, i) for i, (a, b) in enumerate(p.geo.cells)], sz=len(buf))


def trace(p, evs, extra=None):
    s = p.s
    known = -1
    if s["known"] is not None:
        known = s["known"] if s["known"] > 0 else -1
    elif s["pass_known"] and s["isize"] > 0:
        known = s["isize"]
    cs = {0: 0, 1: 1, 2: 2}
    cssup = C.has_checksums(s["version"])
    rng = [[r[0], r[1], cs.get(r[2], 1) if isinstance(r[2], int) else 1] for r in (s["ranges"] or [])]
    t = dict(id=s["id"], family=s["family"], kind=s["kind"], bsz=s["bsz"], isize=s["isize"], srclen=p.srclen, hasbmap=p.hasbmap, known=known,
             bm=dict(isize=s["isize"] if s["bm_isize"] is None else s["bm_isize"],
                     blocks=p.geo.nblk if s["bm_blocks"] is None else s["bm_blocks"],
                     mapped=(sum(r[1] - r[0] + 1 for r in rng) if s["mapcnt"] is None else s["mapcnt"]), ranges=rng),
             cssup=cssup, verify=s["verify"], sync=s["sync"], cells=p.geo.describe(), orig=p.orig, src=p.src, old=p.old, oldsize=p.oldsize,
             cap=p.cap, badbmap=s["badbmap"], documented=s["documented"], vary=s["vary"], mayfail=s["mayfail"], isched=s["isched"],
             wantpct=s["wantpct"], lossy=s["lossy"], forbidden=s["forbidden"], guard=s["guard"], fresh=s["fresh"], events=evs)
    t.update(extra or {})
    t.setdefault("key", s["id"])
    return t


DOCUMENTED = {("bmaptools.BmapCopy", "Error"), ("bmaptools.TransRead", "Error")}


def failure_class(res):
    e = res.get("exc") or {}
    if "checksum" in e.get("msg", "").lower():
        return "checksum"
    return "error" if (e.get("mod"), e.get("type")) in DOCUMENTED else "internal"


def attach_result(p, evs, res):
    """Put outcome, failure class and progress values into the events of one API run."""
    o = res.get("outcome")
    for k, e in enumerate(evs):
        if e["op"] == "ret":
            first = any(x["op"] == "again" for x in evs[k:])
            e["y"] = failure_class({"exc": res.get("first")} if first else res) if e["x"] == "fail" else ""
    if o in ("hang", "killed"):
        evs.append(ev("ret", x=o))
    return evs


def run_api(scenarios, par=NPROC):
    """Run API scenarios; returns traces."""
    ps = pmap(prepare, scenarios)
    reps = pmap(Replica, ps)
    res = run_driver([api_job(p) for p in ps], par)
    out = []
    for p, rep in zip(ps, reps):
        r = res[p.s["id"]]
        if r["outcome"] != "skipped":
            evs = attach_result(p, events(p, rep), r)
            evs = progress_events(p, evs, r)
            evs += [inputs_event(p), final_event(p)]
            out.append(trace(p, evs, {"result": {k: r.get(k) for k in ("outcome", "exc", "geo", "geo2", "followed", "sched", "wall")}}))
        cleanup(p)
    return out


def run_again(scenarios, par=NPROC):
    """Every scenario is run with its faults (a crash, usually), then again without; one trace for both."""
    ps = pmap(prepare, scenarios)
    reps = pmap(Replica, ps)
    res1 = run_driver([api_job(p) for p in ps], par)
    ps = [p for p in ps if res1[p.s["id"]]["outcome"] != "skipped"]
    res2 = run_driver([dict(api_job(p, ".2", []), **({"destmode": p.s["destmode2"]} if p.s["destmode2"] and os.path.exists(p.dest) else {})) for p in ps], par)
    out = []
    for p, rep in zip(ps, reps):
        r1, r2 = res1[p.s["id"]], res2[p.s["id"]]
        if r2["outcome"] != "skipped":
            evs = attach_result(p, events(p, rep), r1) + [ev("again")]
            evs += attach_result(p, events(p, rep, ".2"), r2)
            evs = [e for e in evs if e["op"] != "progress"] + [inputs_event(p), leftover_event(p), final_event(p)]
            out.append(trace(p, evs, {"result": {"first": r1.get("outcome"), "outcome": r2.get("outcome"), "exc": r2.get("exc")}}))
        cleanup(p)
    return out


def cli_args(p):
    s = p.s
    a = list(s["cliargs"])
    if s["psplash"]:
        a += ["--psplash-pipe", os.path.join(p.meta, "splash")]
    if not s["verify"]:
        a.append("--no-verify")
    if p.hasbmap:
        a += ["--bmap", p.bmap]
    else:
        a.append("--nobmap")
    return ["copy", *a, p.image, p.dest]


def cli_ret(rc, err):
    if rc is None:
        return ev("ret", x="hang")
    if rc < 0 or rc == 137:
        return ev("ret", x="killed")
    if rc == 0:
        return ev("ret", x="ok")
    y = "error" if b"ERROR" in err else "internal"
    if b"checksum mismatch" in err:
        y = "checksum"
    return ev("ret", x="fail", y=y)


def run_cli_copies(scenarios, again=False):
    """The same scenarios through `bmaptool copy` (known size: always, because the image is an uncompressed file)."""
    def one(s):
        p = prepare(s)
        rep = Replica(p)
        evs = []
        for sub in ("", ".2") if again else ("",):
            if sub:
                evs.append(ev("again"))
            splash = Splash(s["psplash"], os.path.join(p.meta, "splash")) if s["psplash"] else None
            more = ["watch splash " + splash.path, "payload splash"] if s["psplash"] == "read" else []
            open(p.conf + sub, "w").write("\n".join(conf_lines(p, [] if sub else None, sub) + more) + "\n")
            if s["progress"]:
                rc, out, err = run_tty(cli_args(p), p.conf + sub, p.dir, s["timeout"])
            else:
                rc, out, err = run_cli(cli_args(p), p.conf + sub, cwd=p.dir, timeout=s["timeout"])
            if splash:
                splash.close()
            for e in events(p, rep, sub):
                if e["op"] not in ("got", "put", "ret", "progress"):
                    evs.append(e)
                if e["op"] == "write":
                    evs.append(ev("put", n=e["n"]))
            evs.append(cli_ret(rc, err))
        evs += [inputs_event(p)] + ([leftover_event(p)] if again else []) + [final_event(p)]
        t = trace(p, evs, {"result": {"rc": rc, "err": err.decode(errors="replace")[-600:]}})
        cleanup(p)
        return t
    return pmap(one, scenarios)


def progress_events(p, evs, res):
    import re
    if not p.s["progress"]:
        return [e for e in evs if e["op"] != "progress"]
    out = []
    parts = res.get("progress_parts") or []
    for e in evs:
        if e["op"] == "progress":
            k = e["n"] - 1
            m = re.search(r"(-?\d+)%", parts[k]) if k < len(parts) else None
            if m:
                out.append(ev("pct", n=int(m.group(1))))
        else:
            out.append(e)
    return out
