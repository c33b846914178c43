"""C26: what remains when the command has ended."""
import errno, hashlib, json, os, random, shutil, subprocess, sys
from . import core, content as C, copygen as G, copyrun as R, checks_read as RD, checks_cli as CL

BIG = 5 * (1 << 20) + 777  # more than all pipes and buffers hold
BSZ = 65536
WRAPPED = ("pbzip2", "bzip2", "pigz", "gzip", "xz", "lzop", "lz4", "zstd", "tar", "unzip", "funzip")


@core.once
def wrappers():
    """Decompressors which interrupt the command when they start."""
    d = core.scratch().dir("wrappers")
    if not os.listdir(d):
        for n in WRAPPED:
            real = shutil.which(n)
            if real:
                RD.script(d, n, "#!/bin/sh\nkill -INT $PPID\nPATH=${PATH#*:}\nexec %s \"$@\"\n" % real)
    return d


class Blobs:
    """The image in all forms (made once), bmaps of it and their signatures."""

    def __init__(self, fmts, sigs):
        self.img = RD.payload(BIG, 5)
        self.blob = dict(zip(fmts, core.pmap(lambda f: RD.pack(f, self.img), fmts)))
        g = C.Geometry(BSZ, BIG, 1)
        last = -(-BIG // BSZ) - 1

        def sums(alter):
            return [[a, b, hashlib.sha256(self.img[a * BSZ:(b + 1) * BSZ] + (b"x" if alter else b"")).hexdigest()] for a, b in ((0, 20), (22, last))]
        self.bmap = {"good": C.write_bmap(None, g, sums(False)), "sum": C.write_bmap(None, g, sums(True)), "xml": b"<bmap version='2.0'> oops",
                     "misfit": C.write_bmap(None, g, sums(False), isize=BIG + 4096)}
        K = CL.keys()
        self.sig = {}
        for k, b in self.bmap.items():
            if sigs:
                self.sig[k] = K.detached("good", b, b"other"), K.embedded("good", b, b"other"), K.detached("wrong", b, b"other"), K.embedded("altered", b, self.bmap["good"] + b"\n")


def runs(c, worlds, label):
    top = core.scratch().dir()
    B = Blobs(sorted({w["comp"] for w in worlds}), any(w["sig"] != "none" for w in worlds))
    K = CL.keys()

    def one(z):
        i, w = z
        d = os.path.join(top, "r%d" % i)
        for x in ("in", "out", "maps", "tmp", "meta", "home"):
            os.makedirs(os.path.join(d, x))
        env = core.code_env({"TMPDIR": d + "/tmp", "GNUPGHOME": K.check, "HOME": d + "/home", "PATH": RD.path_with(RD.sshbin()), "VP_SSH_HOST": "box", "VP_SSH_PASS": "", "VP_SSH_GOT": ""})
        expect = set()
        conf = ["log " + d + "/meta/log"]
        stdin = None
        argv = ["/bin/false"]
        if w["cmd"] == "copy":
            suf = "img" if w["comp"] == "plain" else w["comp"]
            blob = B.blob[w["comp"]]
            if w["end"] == "corrupt":
                k = len(blob) * 2 // 3
                blob = blob[:k] + bytes(x ^ 0x55 for x in blob[k:k + 64]) + blob[k + 64:]
            cut = len(blob) * 2 // 3
            if w["end"] == "cut" and w["tr"] not in ("http", "slow", "ssh"):
                blob = blob[:cut]
            name = "image." + suf
            image = d + "/in/" + name
            key = "%s/%s" % (os.path.basename(top), "%d-%s" % (i, name))
            if w["end"] != "missing":
                open(image, "wb").write(blob)
                RD.http().data[key] = blob
                expect.add("in/" + name)
            arg = {"local": image, "file": "file://" + image, "stdin": "-", "ssh": "ssh://box" + image}.get(w["tr"]) or \
                RD.http().url("short:%d" % cut if w["end"] == "cut" else "slow" if w["tr"] == "slow" else "plain", key)
            if w["tr"] == "stdin":
                stdin = image if w["end"] != "missing" else None
            if w["tr"] == "ssh" and w["end"] == "cut":
                env.update(VP_SSH_CUT=str(cut), VP_SSH_END="kill" if w["k"] % 2 else "1")
            opts = []
            if w["bm"] == "none":
                opts.append("--nobmap")
            else:
                kind = w["end"] if w["end"] in B.bmap else "good"
                data = B.bmap[kind]
                if w["sig"] == "clear":
                    data = B.sig[kind][3 if w["end"] == "badsig" else 1]
                mname = "the.bmap" + (".gz" if w["bm"] == "gz" else "")
                if w["bm"] == "gz":
                    data = RD.pack("gz", data)
                if w["bm"] == "http":
                    mkey = key + ".map"
                    RD.http().data[mkey] = data
                    if w["sig"] == "asc":
                        RD.http().data[mkey + ".asc"] = B.sig[kind][2 if w["end"] == "badsig" else 0]
                    m = RD.http().url("plain", mkey)
                else:
                    m = d + "/maps/" + mname
                    open(m, "wb").write(data)
                    expect.add("maps/" + mname)
                    if w["sig"] == "asc":
                        open(m + ".asc", "wb").write(B.sig[kind][2 if w["end"] == "badsig" else 0])
                        expect.add("maps/" + mname + ".asc")
                opts += ["--bmap", m]
            dest = d + ("/out/none/dest" if w["end"] == "nodir" else "/out/dest")
            expect.add("out/dest")
            open(d + "/out/dest", "wb").close()
            conf.append("watch dest " + dest)
            conf += {"werror": ["fault dest write %d errno 5" % w["k"]], "wfull": ["fault dest write %d errno 28" % w["k"]], "serror": ["fault dest fsync 1 errno 5"],
                     "wsig": ["fault dest write %d sigint" % w["k"]], "ssig": ["fault dest fsync 1 sigint"], "rsig": ["watch image " + image, "fault image read %d sigint" % w["k"]]}.get(w["end"], [])
            if w["end"] == "hsig":
                env["PATH"] = wrappers() + ":" + env["PATH"]
            argv = [core.PY, "-m", "bmaptools", "copy", *opts, arg, dest]
        else:
            image = d + "/in/image"
            with open(image, "wb") as f:
                f.truncate(40 * 4096)
                for a, b in ((0, 3), (7, 9), (33, 40)) if w["end"] != "empty" else ():
                    f.seek(a * 4096)
                    f.write(RD.payload((b - a) * 4096, a))
            if w["end"] == "empty":
                os.truncate(image, 0)
            if w["end"] == "missing":
                os.unlink(image)
            if w["end"] != "missing" or w["out"] == "alias":
                expect.add("in/image")
            conf.append("watch image " + image)
            # fiemap: as it is; seek: no FIEMAP; stub: no FIEMAP and a SEEK_HOLE which knows no holes; neither: not even that
            conf += {"fiemap": [], "seek": ["fiemap image 95"], "stub": ["fiemap image 95", "seekall 1"], "neither": ["fiemap image 95", "seekall 3"]}[w["how"]]
            conf += {"rerror": ["fault image read %d errno 5" % w["k"]], "rsig": ["fault image read %d sigint" % w["k"]]}.get(w["end"], [])
            out = {"file": d + "/out/b", "nodir": d + "/out/none/b", "alias": image, "stdout": None}[w["out"]]
            if w["out"] == "file":
                expect.add("out/b")
            if w["end"] == "full":
                out = "/dev/full"
            argv = [core.PY, "-m", "bmaptools", "create", image] + (["-o", out] if out else [])
        open(d + "/meta/conf", "w").write("\n".join(conf) + "\n")
        env.update(LD_PRELOAD=core.shim(), VPSHIM_CONF=d + "/meta/conf")
        job = dict(argv=argv, env=env, cwd=d + "/home", log=d + "/meta/cli", timeout=60, stdin=stdin, grace=5)
        r = subprocess.run([sys.executable, "-I", os.path.join(core.VERIF, "vp/reaper.py"), json.dumps(job)], capture_output=True, text=True)
        if r.returncode:
            raise core.MachineryError("reaper: " + r.stderr[-1000:])
        o = json.loads(r.stdout)
        rc = o["rc"]
        found = {os.path.relpath(os.path.join(a, x), d) for k in ("in", "out", "maps", "home") for a, ds, fs in os.walk(os.path.join(d, k)) for x in fs + ds}
        err = open(d + "/meta/cli.err", "rb").read()[-500:].decode(errors="replace")
        t = dict(id="%s-%d" % (label, i), key="%s-%s" % (label, hashlib.sha1(json.dumps(w, sort_keys=True).encode()).hexdigest()[:12]), kind="run",
                 o="hang" if rc is None else "ok" if rc == 0 else "intr" if w["end"].endswith("sig") and w["end"] != "badsig" and ("KeyboardInterrupt" in err or rc < 0) else "fail",
                 files=sorted(found - expect), tmp=sorted(os.listdir(d + "/tmp")), procs=o["left"], before=[0, 0, 0], after=[0, 0, 0], end=w["end"],
                 result={"rc": rc, "argv": argv[3:], "w": w, "err": err})
        shutil.rmtree(d, ignore_errors=True)
        return t
    tr = core.pmap(one, list(enumerate(worlds)))
    RD.http().data.clear()
    return tr


def uses(c):
    """The API used several times in one process."""
    top = core.scratch().dir()
    fmts = c.pick(["plain", "gz", "tar.xz", "zst"], ["plain", "gz", "bz2", "xz", "zst", "tar.gz", "tar.xz", "zip"])
    img = RD.payload(BIG, 6)
    g = C.Geometry(BSZ, BIG, 1)
    last = -(-BIG // BSZ) - 1
    jobs = []
    for f in fmts:
        p = os.path.join(top, "image." + ("img" if f == "plain" else f))
        blob = RD.pack(f, img)
        open(p, "wb").write(blob)
        key = "uses/image." + ("img" if f == "plain" else f)
        RD.http().data[key] = blob
        C.write_bmap(top + "/good.bmap", g, [[0, last, hashlib.sha256(img).hexdigest()]])
        C.write_bmap(top + "/sum.bmap", g, [[0, last, "1" * 64]])
        for tr, a in (("local", p), ("http", RD.http().url("plain", key))):
            todo = [("trans", h, cl) for h in ("all", "some", "seek", "none") for cl in (True, False)]
            todo += [("copy", h, cl) for h in ("ok", "sum", "fault", "nobmap") for cl in (True, False)]
            if f == "plain" and tr == "local":
                todo += [("create", "", False), ("map", "fiemap", False), ("map", "seek", False), ("map", "any", False)]
            for u, h, cl in todo:
                if not cl and tr == "http" and f != "plain":
                    continue  # the thread which feeds the decompressor keeps an object alive that nobody closes
                jobs.append(dict(id="use-%s-%s-%s-%s-%d" % (u, h, f, tr, cl), what="leak", use=u, how=h, image=a, close=cl, times=3, dest=os.path.join(top, "out%d" % len(jobs)),
                                 bmap=top + ("/sum.bmap" if h == "sum" else "/good.bmap"), env={"no_proxy": "*", "HOME": RD.home("none"), "TMPDIR": top}, timeout=60))
    # more data than the reader may have read ahead when the destination fails
    long = RD.payload(14 << 20, 7)
    C.write_bmap(top + "/long.bmap", C.Geometry(BSZ, 14 << 20, 1), [[0, (14 << 20) // BSZ - 1, hashlib.sha256(long).hexdigest()]])
    for f in ("plain", "gz"):
        p = os.path.join(top, "long." + ("img" if f == "plain" else f))
        open(p, "wb").write(RD.pack(f, long))
        for b in ("long", "nobmap"):
            jobs.append(dict(id="use-long-%s-%s" % (f, b), what="leak", use="copy", how="nobmap fault" if b == "nobmap" else "fault", image=p, close=True, times=3, delay=.2,
                             dest=top + "/long.%s.%s" % (f, b), bmap=top + "/long.bmap", env={"HOME": RD.home("none"), "TMPDIR": top}, timeout=60))
    res = R.run_driver(jobs)
    out = []
    for j in jobs:
        r = res[j["id"]]
        if r["outcome"] == "skipped":
            continue
        hang = r["outcome"] != "ok"
        out.append(dict(id=j["id"], key=j["id"], kind="run" if hang else "use", o="hang" if hang else "all" if all(x == "ok" for x in r["each"]) else "some" if "ok" in r["each"] else "none",
                        files=[], tmp=[], procs=[], before=r.get("before") or [0, 0, 0], after=r.get("after") or [0, 0, 0], result={k: r.get(k) for k in ("each", "before", "after")}))
    RD.http().data.clear()
    return out


def tell(t):
    return json.dumps({k: t.get(k) for k in ("o", "files", "tmp", "procs", "before", "after", "result")})[:1000]


def C26(c):
    c.assumptions = ["TLC and the Java/Python runtimes", "ssh is represented by a script which runs the remote command locally", "sources deliver data or end; helpers get 5 s to end after the command"]
    c.model("Remains", workers=8, defs=dict(MaxData=c.pick(3, 4)))
    c.bugs("Remains", ["inherit", "ignorepipe", "stalled", "named"])
    tr = runs(c, G.generate("Copies", c.pick(120, 2500), c.seed, module="GenRemains"), "copy")
    tr += runs(c, G.generate("Creates", c.pick(60, 480), c.seed + 1, module="GenRemains"), "create")
    tr += uses(c)
    c.traces("RemainsTrace", tr, describe=tell)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    for x in ("run_ok", "run_fail", "run_intr", "use_all", "use_none"):
        if not c.exercised.get(x):
            raise core.MachineryError("never exercised: " + x)
    ok = [t for t in tr if t["kind"] == "run" and t["o"] == "intr"][0]
    for f, cl in (("files", "C26_file"), ("tmp", "C26_tmp"), ("procs", "C26_process")):
        c.selftest("RemainsTrace", ok, lambda x: x.__setitem__(f, ["x"]), cl)
    c.selftest("RemainsTrace", [t for t in tr if t["kind"] == "use"][0], lambda x: x.__setitem__("after", [a + 1 for a in x["after"]]), "C26_thread")
