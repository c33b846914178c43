"""The checks of the command line and of block devices: C16 C17 C18 C19 C21."""
import atexit, base64, errno, hashlib, json, os, random, re, shutil, subprocess, time, urllib.parse
from . import core, content as C, copygen as G, copyrun as R, checks_read as RD, far

ASSUME = ["TLC and the Java/Python runtimes", "the preload library emulates block devices and sysfs attributes as their documentation specifies"]


# --------------------------------------------------------------- C18
SPEC_WANT = ["1", "none"]


def current(text):
    m = re.search(r"\[(\S+)\]", text)
    return m.group(1) if m else text.strip()


def tuning_scen(e, i):
    end = e["end"]
    kw = dict(family="Tuning-" + end, kind="bdev", bsz=4096, isize=4096 * 700, bpc=10 if not e["bmap"] else 1, verify=True, sync=True, cap=4096 * 704)
    if e["bmap"]:
        kw["ranges"] = [[0, 3, 1], [10, 300, 1], [400, 699, 1]]
        kw["bpc"] = 10
    f = []
    if end == "srcerr":
        f.append(["image", "read", 2, errno.EIO])
    elif end in ("writeerr", "writeerr2"):
        f.append(["dest", "write", 1 if end == "writeerr" else 3, errno.EIO])
    elif end == "syncerr":
        f.append(["dest", "fsync", 1, errno.EIO])
    elif end == "checksum":
        kw["bad"] = [20]
    elif end == "short":
        kw["srclen"] = 4096 * 500
    elif end == "enospc":
        kw["cap"] = 4096 * 400
    kw["faults"] = [[a, b, n, "errno", v] for a, b, n, v in f]
    if end.startswith("sig"):
        kw["faults"] = [[{"sigread": "image", "sigwrite": "dest", "sigsync": "dest"}[end], {"sigread": "read", "sigwrite": "write", "sigsync": "fsync"}[end], 1 + (i % 2 if end != "sigsync" else 0), "sigint"]]
    return R.scenario("tune-%d" % i, **kw)


def tuning(c, envs):
    def prep(w):
        i, e = w
        s = tuning_scen(e, i)
        p = R.prepare(s)
        sysd = os.path.join(p.meta, "sys", "dev")
        disk = os.path.join(p.meta, "sys", "disk")
        os.makedirs(sysd)
        os.makedirs(os.path.join(disk, "queue"))
        os.makedirs(os.path.join(disk, "bdi"))
        os.makedirs(os.path.join(disk, "part1"))
        os.symlink("../disk" + ("/part1" if e["layout"] == "part" else ""), os.path.join(sysd, "8:0"))
        files = [os.path.join(disk, "bdi/max_ratio"), os.path.join(disk, "queue/scheduler")]
        extra = []
        for k, (name, text, f) in enumerate((("ratio", e["ratio"] + "\n", e["fr"]), ("sched", e["sched"] + "\n", e["fs"]))):
            if f[0] != "missing":
                open(files[k], "w").write(text)
            extra += ["watch %s %s" % (name, files[k]), "payload " + name, "sysfs %s %s" % (name, "choice" if "[" in text else "plain")]
            if f[0] not in ("", "missing"):
                extra.append("fault %s %s %d %s" % (name, f[0], f[1], "sigint" if f[2] == "sigint" else "errno %d" % getattr(errno, f[2])))
        s["sysfs"], s["extra_conf"] = sysd, extra
        if e["cli"]:
            open(p.conf, "w").write("\n".join(R.conf_lines(p)) + "\n")
            args = ["copy", *(["--bmap", p.bmap] if e["bmap"] else ["--nobmap"]), p.image, p.dest]
            return R.cli_job(s["id"], args, p.dir, os.path.join(p.meta, "cli"), p.conf), (e, p)
        j = R.api_job(p)
        j["known"] = s["isize"] if e["end"] not in ("enospc",) else None
        return j, (e, p)

    ps = core.pmap(prep, list(enumerate(envs)))
    res = R.run_driver([j for j, _ in ps])
    out = []
    for j, (e, p) in ps:
        r = res[j["id"]]
        if r["outcome"] == "skipped":
            continue
        o = r["outcome"]
        if e["cli"] and o == "ok":
            o = "ok" if r["rc"] == 0 else "fail"
        evs, intr = [], False
        for (seq, tid, op, role, a, b, cc, ret, err, doff) in R.read_log(p.log):
            if op == "fault" and (e["end"].startswith("sig") and role in ("image", "dest") or
                                  (role == "ratio" and e["fr"][2] == "sigint") or (role == "sched" and e["fs"][2] == "sigint")):
                intr = True
            if role not in ("ratio", "sched") or op not in ("open", "read", "write"):
                continue
            v = ""
            if op == "write" and ret > 0 and doff >= 0:
                with open(p.data, "rb") as f:
                    f.seek(doff)
                    v = f.read(ret).decode(errors="replace").strip()
            evs.append(dict(s=1 if role == "ratio" else 2, op=op, ok=err == 0 and ret >= 0, v=v))
        want = [C.tok(i) for i in range(len(p.geo.cells))]
        data = True
        if o == "ok":
            got = open(p.dest, "rb").read()
            data = all(C.cell_token(got, x, y, i) == p.orig[i] for i, (x, y) in enumerate(p.geo.cells) if y <= p.s["isize"] and mapped(p, x, y))
        t = dict(id=p.s["id"], key="tune-" + hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest()[:12], family=p.s["family"], set=[dict(init=current(x), want=w) for x, w in zip((e["ratio"], e["sched"]), SPEC_WANT)], ev=evs, o=o,
                 end=e["end"], intr=intr, data=data, result={"env": e, "exc": r.get("exc"), "rc": r.get("rc"), "err": (r.get("err") or "")[-500:]})
        out.append(t)
        R.cleanup(p)
    return out


def mapped(p, x, y):
    if p.s["ranges"] is None:
        return True
    return any(a * p.s["bsz"] <= x and y <= (b + 1) * p.s["bsz"] for a, b, _ in p.s["ranges"])


def C18(c):
    c.assumptions = ASSUME + ["a setting is changed only through its sysfs file"]
    c.model("BdevTuning", workers=4)
    c.bugs("BdevTuning", ["modifiedlate", "failfatal", "writesame", "norestore", "first", "onetry"])
    envs = G.generate("any", c.pick(500, 12000), c.seed * 18, module="GenTuning")
    tr = []
    for k in range(0, len(envs), 300):
        tr += tuning(c, envs[k:k + 300])
    c.traces("TuneTrace", tr, describe=lambda t: json.dumps({"env": t["result"]["env"], "ev": t["ev"], "o": t["o"], "exc": t["result"]["exc"]})[:900])
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    for want in ("changed", "interrupt", "success", "restore_failed", "checksum", "syncerr"):
        if not c.exercised.get(want):
            raise core.MachineryError("never exercised: " + want)
    t = [t for t in tr if t["o"] == "ok" and len([e for e in t["ev"] if e["op"] == "write" and e["ok"]]) == 4][0]
    c.selftest("TuneTrace", t, lambda x: x["ev"].remove([e for e in x["ev"] if e["op"] == "write"][-1]), "C18_restored")
    c.selftest("TuneTrace", t, lambda x: [e for e in x["ev"] if e["op"] == "write"][0].__setitem__("v", "bfq"), "C18_value")
    c.selftest("TuneTrace", t, lambda x: x["set"][0].__setitem__("want", x["set"][0]["init"]), "C18_written")
    c.selftest("TuneTrace", [x for x in tr if x["o"] == "ok" and x["end"] == "ok" and not x["intr"]][0], lambda x: x.__setitem__("o", "fail"), "C18_fatal")


# --------------------------------------------------------------- signatures
class Keys:
    """Key rings: one for signing, one for verifying (where some keys are expired, revoked, not trusted or not there)."""
    NAMES = ("good", "other", "expired", "revoked", "untrusted", "unknown", "sub")
    TITLE = dict({n: n for n in NAMES}, sub="sub 100%s J\u00f6rg")

    def __init__(self):
        # short path: sockets live in it
        self.top = core.scratch().dir("k")
        self.sign, self.check = os.path.join(self.top, "s"), os.path.join(self.top, "v")
        for d in (self.sign, self.check):
            os.mkdir(d, 0o700)
        atexit.register(self.stop)
        fpr = {}
        for n in self.NAMES:
            old = ["--faked-system-time", "20200101T000000"] if n == "expired" else []
            self.gpg(self.sign, *old, "--quick-gen-key", "%s <%s@x>" % (self.TITLE[n], n), "ed25519", "cert" if n == "sub" else "sign", "1d" if n == "expired" else "never")
            out = self.gpg(self.sign, "-k", "--with-colons", n + "@x").decode()
            fpr[n] = re.search(r"(?m)^fpr:+([0-9A-F]+):", out).group(1)
        # a key which signs with a subkey
        self.gpg(self.sign, "--quick-add-key", fpr["sub"], "ed25519", "sign", "never")
        self.prints = {f: n for n in self.NAMES for f in re.findall(r"(?m)^fpr:+([0-9A-F]+):", self.gpg(self.sign, "-k", "--with-colons", n + "@x").decode())}
        known = [n for n in self.NAMES if n != "unknown"]
        self.gpg(self.check, "--import", inp=self.gpg(self.sign, "--export", *[fpr[n] for n in known]))
        self.gpg(self.check, "--import-ownertrust", inp="".join("%s:6:\n" % fpr[n] for n in known if n != "untrusted").encode())
        rev = open(os.path.join(self.sign, "openpgp-revocs.d", fpr["revoked"] + ".rev")).read().replace(":---", "---")
        self.gpg(self.check, "--import", inp=rev.encode())
        self.gpg(self.check, "--check-trustdb")
        self.cache = {}

    def stop(self):
        for d in (self.sign, self.check):
            subprocess.call(["gpgconf", "--homedir", d, "--kill", "all"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def gpg(self, home, *args, inp=None):
        r = subprocess.run(["gpg", "--homedir", home, "--batch", "--yes", "-q", "--pinentry-mode", "loopback", "--passphrase", "", *args], input=inp, capture_output=True)
        if r.returncode:
            raise core.MachineryError("gpg %s: %s" % (args, r.stderr[-400:]))
        return r.stdout

    def s(self, data, *args, keys=("good",)):
        old = ["--faked-system-time", "20200101T010000"] if "expired" in keys else []
        if "sigexpired" in keys:
            keys, old = ("good",), ["--default-sig-expire", "seconds=1"]
        us = [x for k in keys for x in ("-u", k + "@x")]
        return self.gpg(self.sign, *old, *us, *args, "-o", "-", inp=data)

    def detached(self, kind, data, other):
        """A signature of the kind, meant for data; other: something else."""
        s, b = self.s, "-b"
        if kind in ("expired", "revoked", "untrusted", "unknown", "sigexpired", "sub"):
            return s(data, b, keys=(kind,))
        if "+" in kind:
            return b"".join(s(data, b, keys=("good" if k == "g" else k,)) for k in kind.split("+"))
        if kind in ("two", "unknowntwo"):
            return s(data, b, keys=("good", "other" if kind == "two" else "unknown"))
        x = {"good": lambda: s(data, b), "goodasc": lambda: s(data, b, "-a"), "wrong": lambda: s(other, b), "wrongasc": lambda: s(other, b, "-a"),
             "altered": lambda: flip(s(data, b)), "inlineother": lambda: s(other, "-s"), "inlinesame": lambda: s(data, "-s"), "inlineempty": lambda: s(b"", "-s"),
             "clearother": lambda: s(other, "--clearsign"), "clearsame": lambda: s(data, "--clearsign"), "clearempty": lambda: s(b"", "--clearsign"),
             "store": lambda: self.gpg(self.sign, "--store", "-o", "-", inp=data), "storeother": lambda: self.gpg(self.sign, "--store", "-o", "-", inp=other),
             "garbage": lambda: hashlib.sha512(data).digest() * 3, "empty": lambda: b"", "mix1": lambda: s(other, b) + s(data, b), "mix2": lambda: s(data, b) + s(other, b),
             "mix3": lambda: s(data, b) + s(other, "-s"), "mix4": lambda: s(other, "-s") + s(data, b), "badasc": lambda: flipasc(s(data, b, "-a"))}
        return x[kind]()

    def embedded(self, kind, data, other):
        s = self.s
        if kind in ("unknown", "expired", "revoked", "untrusted"):
            return s(data, "--clearsign", keys=(kind,))
        if kind == "two":
            return s(data, "--clearsign", keys=("good", "other"))
        if "+" in kind:
            return s(data, "--clearsign", keys=["good" if k == "g" else k for k in kind.split("+")])
        good = s(data, "--clearsign")
        if kind == "good":
            return good
        head, _, sig = good.partition(b"-----BEGIN PGP SIGNATURE-----")
        begin = head.split(b"\n\n", 1)[0] + b"\n\n"
        sig = b"-----BEGIN PGP SIGNATURE-----" + sig
        return {"altered": lambda: begin + dashes(other) + sig, "alteredsig": lambda: flipasc(good), "cut": lambda: head, "marker": lambda: begin.split(b"\n")[0] + b"\n" + data,
                "nosig": lambda: head + b"-----BEGIN PGP SIGNATURE-----\n\n-----END PGP SIGNATURE-----\n", "trail": lambda: good + other,
                "lead": lambda: b"\n" + good, "leadbmap": lambda: other + good, "twice": lambda: good + s(other, "--clearsign", keys=("unknown",))}[kind]()

    def get(self, what, kind, name, data, other):
        k = (what, kind, name)
        if k not in self.cache:
            self.cache[k] = getattr(self, what)(kind, data, other)
        return self.cache[k]


def dashes(data):
    return b"\n".join(b"- " + x if x.startswith(b"-") else x for x in data.split(b"\n"))


def flip(b, at=-5):
    b = bytearray(b)
    b[at] ^= 1
    return bytes(b)


def flipasc(text):
    """Changes the signature within the armor, keeping a correct checksum of it."""
    head, mid, tail = re.match(rb"(?s)(.*-----BEGIN PGP SIGNATURE-----\n\n)(.*?)(-----END PGP SIGNATURE-----\n?)$", text).groups()
    raw = flip(base64.b64decode(b"".join(x for x in mid.split(b"\n") if not x.startswith(b"="))))
    crc = 0xB704CE
    for o in raw:
        crc ^= o << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= 0x1864CFB
    return head + base64.encodebytes(raw) + b"=" + base64.b64encode(crc.to_bytes(3, "big")) + b"\n" + tail


@core.once
def keys():
    return Keys()


# --------------------------------------------------------------- command lines
BS, NBLK = 4096, 12
SIZE = BS * (NBLK - 1) + 100


def image_bytes():
    return RD.payload(SIZE, 77)


def bmap_bytes(blocks):
    """A bmap of the image with these blocks mapped; made by the independent writer of content.py."""
    g = C.Geometry(BS, SIZE, 1)
    img = image_bytes()
    return C.write_bmap(None, g, [[b, b, hashlib.sha256(img[b * BS:(b + 1) * BS]).hexdigest()] for b in blocks])


BLOCKS = {"given": [8], 0: [1, 4], 1: [2, 5, 11], 2: [3, 6, 7, 10], 3: [0, 2, 4, 7, 9], "evil": [1, 3, 5, 6, 9, 10]}
_bmaps = {}


def bmap_of(k):
    if k not in _bmaps:
        _bmaps[k] = bmap_bytes(BLOCKS[k])
    return _bmaps[k]


STEMS = ["image", "dir.d/image", ".image", "im age", "image-1_0", "100%d"]
EXTS = {0: [[]], 1: [["img"], [""], ["gz"], ["raw"]], 2: [["raw", "gz"], ["v1", "img"], ["", "img"], ["img", "bz2"]], 3: [["a", "b", "img"], ["tar", "raw", "xz"], ["1", "2", "3"], ["x", "", "gz"]]}


def world_name(w):
    ext = EXTS[w["n"]]
    stem = STEMS[w["shape"] % len(STEMS)]
    if (" " in stem or "%" in stem) and "ssh" in (w["tr"], w["btr"], w["str"]):  # neither decoded nor quoted for the remote shell
        stem = "image"
    return stem, ext[w["shape"] % len(ext)]


def place(d, rel, data, tr, stem=""):
    """The argument under which the file d/rel is reached by the transport."""
    p = os.path.join(d, rel)
    if tr in ("local", "stdin"):
        return p
    if tr == "file":
        return "file://" + urllib.parse.quote(p)
    if tr == "http":
        return RD.http().url("plain", urllib.parse.quote(os.path.basename(d) + "/" + rel))
    return "ssh://box" + urllib.parse.quote(p)


def put(d, rel, data):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "wb").write(data[0] if isinstance(data, list) else data)
    RD.http().data[urllib.parse.quote(os.path.basename(d) + "/" + rel)] = data
    return p


def respell(how, path, d):
    """Another name for a file."""
    if how == "same":
        return path
    if how == "abs":
        return os.path.join(os.path.dirname(path), "..", os.path.basename(os.path.dirname(path)), os.path.basename(path))
    if how == "dot":
        return os.path.join(os.path.dirname(path), ".", os.path.basename(path))
    p = os.path.join(d, "other name")
    if how == "symlink":
        os.symlink(path, p)
    else:
        os.link(path, p)
    return p


def state(files):
    out = {}
    for role, f in files.items():
        st = os.lstat(f)
        out[role] = (st.st_ino, st.st_size, st.st_mode, st.st_nlink, open(f, "rb").read())
    return out


def command(c, prop, worlds, label, said=None):
    """Run the worlds; returns CommandTrace traces."""
    img = image_bytes()
    top = core.scratch().dir()
    K = keys()
    # signatures first: the cache is not meant for concurrent use
    for w in worlds:
        own = "given" if w["bm"] == "given" else max(w["ex"], default=None)
        if own is not None:
            for k in {w["asc"], w["sg"], w["so"]} - {"none", "missing"}:
                K.get("detached", k, own, bmap_of(own), bmap_of("evil"))
            if w["emb"] != "no":
                K.get("embedded", w["emb"], own, bmap_of(own), bmap_of("evil"))
        elif w["so"] not in ("none", "missing"):
            K.get("detached", w["so"], "none", b"?", bmap_of("evil"))

    def prep(z):
        i, w = z
        d = os.path.join(top, "w%d" % i)
        os.makedirs(d + "/out")
        stem, exts = world_name(w)
        name = ".".join([stem, *exts])
        blob = RD.pack(exts[-1] if exts and exts[-1] in ("gz", "bz2", "xz") else "plain", img)
        image = os.path.join(d, name)
        files = {}
        end = w.get("end", "no")
        if end in ("sum", "short"):
            own = "given" if w["bm"] == "given" else max(w["ex"], default=0)
            at = BLOCKS[own][0] * BS
            blob = RD.pack(exts[-1] if exts and exts[-1] in ("gz", "bz2", "xz") else "plain", img[:at] + (bytes([img[at] ^ 1]) + img[at + 1:] if end == "sum" else b""))
        if w["img"] == "ok":
            files["image"] = put(d, name, blob)
        iarg = place(d, name, blob, w["tr"]) if end != "slow" else RD.http().url("slow:0.25", urllib.parse.quote(os.path.basename(d) + "/" + name))
        given = w["bm"] == "given"
        # a bmap may be called as the image is, elsewhere
        mapname = "maps/" + (name if w["shape"] % 3 == 0 and (not exts or exts[-1] not in ("gz", "bz2", "xz")) else "the.map")
        own = "given" if given else max(w["ex"], default=None)

        def body(k):
            b = bmap_of(k)
            if k == own and w["emb"] != "no":
                return K.get("embedded", w["emb"], own, b, bmap_of("evil"))
            return [b, bmap_of("evil")] * 4 if k == own and w["alt"] else b

        def siblings(rel):
            for k, suf in (("asc", ".asc"), ("sg", ".sig")):
                if w[k] not in ("none", "missing"):
                    files["sig" if k == "sg" else k] = put(d, rel + suf, K.get("detached", w[k], own, bmap_of(own), bmap_of("evil")))

        for k in w["ex"]:
            rel = ".".join([stem, *exts[:k]]) + ".bmap"
            f = put(d, rel, body(k))
            files["bmap" if k == own else "cand%d" % k] = f
            if k == own:
                siblings(rel)
        args = []
        if w["bm"] == "given":
            files["bmap"] = put(d, mapname, body("given"))
            siblings(mapname)
            args += ["--bmap", place(d, mapname, None, w["btr"])]
        elif w["bm"] == "missing":
            args += ["--bmap", place(d, "maps/nothing", None, w["btr"])]
        elif w["bm"] == "image":
            args += ["--bmap", iarg]
        if w["so"] != "none":
            if w["so"] != "missing":
                files["opt"] = put(d, "sigs/s", K.get("detached", w["so"], own if own is not None else "none", bmap_of(own) if own is not None else b"?", bmap_of("evil")))
            args += ["--bmap-sig", place(d, "sigs/s", None, w["str"])]
        args += ["--nobmap"] * w["nobmap"] + ["--no-sig-verify"] * w["nosig"]
        pre = ["--quiet"] * w["quiet"] + ["--debug"] * w["debug"]
        stdin = None
        if w["tr"] == "stdin":
            stdin, iarg = image, "-"
        dest = os.path.join(d, "out", "dest")
        conf = os.path.join(d, "conf")
        log = os.path.join(d, "log")
        lines = ["log " + log, "watch dest " + dest]
        if w["alias"] != "no":
            t = files.get(w["alias"])
            dest = respell(w["how"], t, os.path.join(d, "out")) if t else dest
            lines[1] = "watch dest " + dest
        elif w["dest"] == "old":
            open(dest, "wb").write(b"\xee" * (SIZE + 5000))
        elif w["dest"] == "bdev":
            open(dest, "wb").write(b"\xee" * (BS * (NBLK + 2)))
            lines += ["blk dest %d 8 0" % (BS * (NBLK + 2)), "redirect /sys/dev/block/ %s/" % os.path.join(d, "nosysfs")]
        how, at = ("sigint", end[3:]) if end[:3] == "sig" else ("errno %d" % errno.EIO, end)
        if at[:5] in ("write", "fsync"):
            lines.append("fault dest %s %d %s" % (at[:5], 2 if end[-1] == "2" else 1, how))
        elif at[:4] == "read":
            lines += ["watch image " + image, "fault image read %d %s" % (2 if end[-1] == "2" else 1, how)]
        open(conf, "w").write("\n".join(lines) + "\n")
        before = state(files)
        # what the files may be called in messages
        names = {place(d, ".".join([stem, *exts[:k]]) + ".bmap", None, w["tr"]): 1 + k for k in range(len(exts) + 1)}
        mine = place(d, mapname, None, w["btr"]) if given else next((x for x, k in names.items() if own is not None and k == 1 + own), "")
        names = dict(found=names, bmap=mine, image=iarg)
        if w["ver"] == "nokeys":
            os.mkdir(d + "/keys", 0o700)
        env = {"GNUPGHOME": K.check if w["ver"] != "nokeys" else d + "/keys", "PATH": RD.path_with(RD.sshbin()), "VP_SSH_HOST": "box", "VP_SSH_PASS": "", "VP_SSH_GOT": "", "HOME": RD.home("none")}
        argv = [*pre, "copy", *args, iarg, dest]
        j = R.cli_job("%s-%d" % (label, i), argv, d, os.path.join(d, "cli"), conf, env=env, stdin=stdin)
        if end == "slow":
            j["clock"] = [1, 150, 6000, 20000][w["shape"] % 4]
        if w["ver"] == "none":
            j["missing"] = ["gpg"]
        return j, (w, d, files, before, dest, own, log, names)

    out = []
    items = list(enumerate(worlds))
    for k in range(0, len(items), 300):
        ps = core.pmap(prep, items[k:k + 300])
        res = R.run_driver([j for j, _ in ps])
        for j, (w, d, files, before, dest, own, log, names) in ps:
            r = res[j["id"]]
            rc, o, err = R.cli_result(r)
            if r["outcome"] != "skipped":
                after = {}
                for role, f in files.items():
                    try:
                        after[role] = state({role: f})[role]
                    except OSError:
                        after[role] = None
                touched = sorted(role for role in files if (after[role] or ())[:] != before[role])
                got = open(dest, "rb").read() if os.path.exists(dest) else b""
                bl = [b for b in range(NBLK) if got[b * BS:min(SIZE, (b + 1) * BS)] == img[b * BS:(b + 1) * BS]]
                used = 999
                for v, want in [(0, list(range(NBLK)))] + [(100 if x == "given" else 1 + x, BLOCKS[x]) for x in BLOCKS if x != "evil"]:
                    if sorted(want) == bl:
                        used = v
                if w["emb"] == "altered" and bl == BLOCKS["evil"]:
                    used = 100 if own == "given" else 1 + own
                wrote = any(op == "write" and role == "dest" and ret > 0 for (_, _, op, role, _, _, _, ret, _, _) in R.read_log(log))
                out.append(dict(id=j["id"], key="cmd-" + hashlib.sha1(json.dumps(w, sort_keys=True).encode()).hexdigest()[:12], family=label, prop=prop, cmd="copy",
                                w={x: w[x] for x in ("n", "ex", "bm", "nobmap", "nosig", "quiet", "debug", "so", "asc", "sg", "emb", "img", "alias", "alt", "ver")},
                                o="hang" if rc is None else "ok" if rc == 0 else "fail", used=used if rc == 0 else -1, wrote=wrote, touched=touched,
                                result={"argv": j["argv"], "rc": rc, "err": err[-700:], "blocks": bl}))
                if said:
                    out[-1].update(said(w, own, names, rc, o, err, r))
                if "http" in (w["tr"], w["btr"], w["str"]):
                    c.again[j["id"]] = lambda t, w=w: again(c, prop, w, label, said, t)
            shutil.rmtree(d, ignore_errors=True)
        RD.http().data.clear()
    return out


def tell(t):
    return json.dumps({"w": t["w"], "o": t["o"], "used": t["used"], "touched": t["touched"], "wrote": t["wrote"], "argv": t["result"]["argv"], "blocks": t["result"]["blocks"], "err": t["result"]["err"][-200:]})[:1100]


def again(c, prop, w, label, said, t):
    more = command(c, prop, [w], label, said)
    for x in more:
        x["id"] = t["id"]
    return more[0] if more else None


def worlds(family, n, seed):
    return G.generate(family, n, seed, module="GenCommand")


def need(c, *what):
    for x in what:
        if not c.exercised.get(x):
            raise core.MachineryError("never exercised: " + x)


def C17(c):
    c.assumptions = ASSUME + ["ssh is represented by a script which runs the remote command locally"]
    c.model("CopyCommand", workers=8, defs=dict(MaxN=c.pick(2, 5)))
    c.bugs("CopyCommand", ["both", "fallback", "same", "nostrip", "two", "lonely", "implicit", "shared"])
    tr = command(c, "C17", worlds("Choice", c.pick(400, 6000), c.seed * 17), "choice")
    tr += command(c, "C17", worlds("Siblings", c.pick(130, 1000), c.seed * 17 + 1), "siblings")
    c.traces("CommandTrace", tr, describe=tell)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    need(c, "given", "all", "discovered", "fail", "ok")
    c.selftest("CommandTrace", [t for t in tr if t["o"] == "ok" and t["used"] in (1, 2, 3)][0], lambda x: x.__setitem__("used", 4), "C17_used")
    c.selftest("CommandTrace", [t for t in tr if t["o"] == "ok"][0], lambda x: x.__setitem__("o", "fail"), "C17_refused")
    c.selftest("CommandTrace", [t for t in tr if t["o"] == "fail"][0], lambda x: x.__setitem__("o", "ok"), "C17_accepted")
    c.selftest("CommandTrace", [t for t in tr if t["o"] == "fail"][0], lambda x: x.__setitem__("wrote", True), "C17_wrote")


def C16(c):
    c.assumptions = ASSUME + ["GnuPG verifies signatures correctly", "ssh is represented by a script which runs the remote command locally"]
    c.model("CopyCommand", workers=8, defs=dict(Part='"sign"'))
    c.bugs("CopyCommand", ["embopt", "discover", "sigfirst", "warn", "embwarn", "optional", "anykey"], defs=dict(Part='"sign"'))
    c.bugs("CopyCommand", ["sigopen"])
    tr = command(c, "C16", worlds("Sign", c.pick(400, 0) or 10 ** 6, c.seed * 16), "sign")
    tr += command(c, "C16", worlds("Signs", c.pick(150, 3000), c.seed * 16 + 1), "signs")
    tr += command(c, "C16", worlds("Verifier", c.pick(100, 0) or 10 ** 6, c.seed * 16 + 2), "verifier")
    c.traces("CommandTrace", tr, describe=tell)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    need(c, "given", "discovered", "fail", "ok")
    ok = [t for t in tr if t["o"] == "ok" and t["w"]["asc"] == "good" and t["w"]["so"] == "none" and not t["w"]["nosig"] and t["w"]["emb"] == "no" and t["w"]["sg"] == "none" and not t["w"]["alt"]][0]
    c.selftest("CommandTrace", ok, lambda x: x["w"].__setitem__("asc", "expired"), "C16_accepted")
    c.selftest("CommandTrace", ok, lambda x: x.__setitem__("used", 999), "C16_used")
    c.selftest("CommandTrace", ok, lambda x: x.update(o="fail"), "C16_refused")
    c.selftest("CommandTrace", [t for t in tr if t["o"] == "fail"][0], lambda x: x.__setitem__("wrote", True), "C16_wrote")


# --------------------------------------------------------------- block devices
def devices(c, envs):
    top = core.scratch().dir()
    imgs = {n: RD.payload(n * BS - (0 if n == 12 else 100), n) for n in (12, 300)}
    packed = {(n, f): RD.pack(f, imgs[n]) for n in imgs for f in ("plain", "gz", "zip", "tar.gz")}

    def prep(z):
        i, e = z
        d = os.path.join(top, "w%d" % i)
        os.mkdir(d)
        img = imgs[e["blk"]]
        size = len(img)
        name = "image." + ("img" if e["comp"] == "plain" else e["comp"])
        blob = packed[e["blk"], e["comp"]]
        f = put(d, name, blob)
        arg = place(d, name, None, e["tr"])
        stdin = None
        if e["tr"] == "stdin":
            arg, stdin = "-", f
        cap = max(size + e["delta"], 4096)
        bl = {"none": None, "full": [[0, e["blk"] - 1, 1]], "part": [[0, 0, 1], [2, 3, 1]]}[e["bmap"]]
        args = ["--nobmap"]
        if bl:
            g = C.Geometry(BS, size, 1)
            C.write_bmap(os.path.join(d, "m"), g, [[a, b, hashlib.sha256(img[a * BS:(b + 1) * BS]).hexdigest()] for a, b, _ in bl])
            args = ["--bmap", os.path.join(d, "m")]
        if not e["verify"]:
            args.append("--no-verify")
        dest = os.path.join(d, "dev")
        old = b"\xee" * cap
        open(dest, "wb").write(old)
        log = os.path.join(d, "log")
        conf = os.path.join(d, "conf")
        open(conf, "w").write("log %s\nwatch dest %s\nblk dest %d 8 0%s\nredirect /sys/dev/block/ %s/\n" % (log, dest, cap, " busy %d" % getattr(errno, e["errno"]) if e["busy"] else "", d + "/nosysfs"))
        name = dest
        if e["link"]:
            name = os.path.join(d, "by-id")
            os.symlink("dev", name)
        env = {"HOME": RD.home("none")}
        return R.cli_job("dev-%d" % i, ["copy", *args, arg, name], d, os.path.join(d, "cli"), conf, env=env, stdin=stdin), (e, d, img, cap, bl, dest, log)

    out = []
    items = list(enumerate(envs))
    for k in range(0, len(items), 300):
        ps = core.pmap(prep, items[k:k + 300])
        res = R.run_driver([j for j, _ in ps])
        for j, (e, d, img, cap, bl, dest, log) in ps:
            r = res[j["id"]]
            rc, o, err = R.cli_result(r)
            if r["outcome"] != "skipped":
                got = open(dest, "rb").read()
                want = bytearray(b"\xee" * cap)
                for a, b in ([(x, y) for x, y, _ in bl] if bl else [(0, e["blk"])]):
                    want[a * BS:min(len(img), (b + 1) * BS)] = img[a * BS:(b + 1) * BS]
                lg = [x for x in R.read_log(log) if x[2] == "write" and x[3] == "dest" and x[7] > 0]
                known = "yes" if bl or (e["comp"] == "plain" and e["tr"] == "local") else "maybe"
                out.append(dict(id=j["id"], key="dev-" + hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest()[:12], family="device", cmd="device", busy=e["busy"], known=known,
                                size=len(img), cap=cap, excl=all(x[6] & R.O_EXCL for x in lg), wrote=bool(lg), changed=got != b"\xee" * cap, exact=got[:cap] == bytes(want) and len(got) == cap,
                                o="hang" if rc is None else "ok" if rc == 0 else "fail", result={"env": e, "rc": rc, "err": err[-600:]}))
            shutil.rmtree(d, ignore_errors=True)
        RD.http().data.clear()
    return out


def C19(c):
    c.assumptions = ASSUME + ["O_EXCL on a block device claims it, as documented in open(2)"]
    c.model("CopyCommand", workers=8)
    c.bugs("CopyCommand", ["shared"])
    tr = R.run_api(G.family("Capacity", c.pick(220, 0), c.seed * 19))
    tr2 = R.run_cli_copies(G.family("Capacity", c.pick(30, 300), c.seed * 19 + 1, "cli-"))
    c.traces("CopyTrace", tr + tr2, describe=lambda t: json.dumps(t["result"])[:600])
    dv = devices(c, worlds("Device", c.pick(250, 3000), c.seed * 19 + 2))
    c.traces("CommandTrace", dv, describe=lambda t: json.dumps({k: v for k, v in t.items() if k not in ("key", "family")})[:900])
    ft = far.copies(c, "C19", c.pick(40, 800), 19, ("small", "fits"), kind="bdev")
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", [t for t in ft if t["ill"] == "small"][0], lambda x: x.__setitem__("wrote", True), "C19_wrote")
    c.sample({k: v for k, v in dv[0].items() if k != "result"})
    need(c, "busy", "too_big_yes", "too_big_maybe", "exact_fit", "too_big", "device", "sound_ok")
    t = [t for t in tr if t["events"] and any(e["op"] == "write" for e in t["events"])][0]
    c.selftest("CopyTrace", t, lambda x: [e for e in x["events"] if e["op"] == "write"][0].__setitem__("x", "shared"), "C19_notexclusive")
    c.selftest("CommandTrace", [t for t in dv if t["busy"]][0], lambda x: x.__setitem__("changed", True), "C19_busy")
    c.selftest("CommandTrace", [t for t in dv if t["o"] == "ok"][0], lambda x: x.__setitem__("cap", x["size"] - 1), "C19_accepted")


# --------------------------------------------------------------- inputs
def creates(c, envs):
    top = core.scratch().dir()

    def prep(z):
        i, (how, out, fail, via) = z
        d = os.path.join(top, "c%d" % i)
        os.makedirs(d + "/out")
        image = os.path.join(d, "image" + [".img", "", ".raw.img"][i % 3])
        with open(image, "wb") as f:
            f.truncate(20 * BS)
            for x, y in ((0, 3), (7, 9), (15, 20)) if fail != "empty" else ():
                f.seek(x * BS)
                f.write(RD.payload((y - x) * BS, x))
        if fail == "empty":
            os.truncate(image, 0)
        if fail == "missing":
            os.rename(image, image + "x")
        a = image if fail != "missing" else image + "x"
        dest = {"alias": lambda: respell(how, a, d + "/out"), "new": lambda: d + "/out/b", "stdout": lambda: None}[out]()
        args = ["create", image] + (["-o", dest] if dest else [])
        conf = os.path.join(d, "conf")
        lines = ["log " + d + "/log", "watch image " + a]
        if fail == "read":
            lines.append("fault image read 2 errno %d" % errno.EIO)
        elif fail == "fiemap":
            lines.append("fault image fiemap 1 errno %d" % errno.EIO)
        open(conf, "w").write("\n".join(lines) + "\n")
        files = {"image": a}
        # files next to the image which belong to it
        for n in ("image.bmap", "image.bmap.asc", "image.img.bmap", "image.sig", "out/b.bmap"):
            files[n] = os.path.join(d, n)
            open(files[n], "wb").write(n.encode() * 50)
        # through the command, or the API with the path or an object
        j = R.cli_job("create-%d" % i, args, d, d + "/cli", conf) if via == "cli" else dict(id="create-%d" % i, what="create", image=a, image_obj=via == "obj", bmap=dest, conf=conf, argv=[via] + args)
        return j, (how, out, fail, via, d, files, state(files))

    ps = core.pmap(prep, list(enumerate(envs)))
    res = R.run_driver([j for j, _ in ps])
    tr = []
    for j, (how, out, fail, via, d, files, before) in ps:
        r = res[j["id"]]
        if r["outcome"] == "skipped":
            continue
        rc, o, err = R.cli_result(r) if via == "cli" else ({"ok": 0, "hang": None}.get(r["outcome"], 1), b"", str(r.get("exc")))
        after = {r: state({r: f}) if os.path.lexists(f) else None for r, f in files.items()}
        t = sorted(r for r in files if after[r] != {r: before[r]})
        tr.append(dict(id=j["id"], key="create-%s-%s-%s-%s" % (how, out, fail, via), family="create", cmd="create", prop="C21", w={"alias": "image" if out == "alias" else "no"}, fault=fail,
                       o="hang" if rc is None else "ok" if rc == 0 else "fail", touched=t, result={"argv": j["argv"], "rc": rc, "err": err[-400:]}))
        shutil.rmtree(d, ignore_errors=True)
    return tr


def C21(c):
    c.assumptions = ASSUME
    c.model("CopyCommand", workers=8, defs=dict(Part='"sign"'))
    c.bugs("CopyCommand", ["nocheck", "nosibling"], defs=dict(Part='"sign"'))
    tr = command(c, "C21", worlds("Alias", c.pick(260, 3000), c.seed * 21), "alias")
    tr += command(c, "C21", worlds("Choice", c.pick(80, 1000), c.seed * 21 + 1), "choice")
    c.traces("CommandTrace", tr, describe=tell)
    cr = creates(c, [(h, o, f, v) for h in ("same", "dot", "abs", "symlink", "hardlink") for o in ("alias", "new", "stdout") for f in ("", "missing", "read", "fiemap", "empty") for v in ("cli", "path", "obj")
                     if (o, f) != ("alias", "missing") and (v == "cli" or (o != "stdout" and f != "missing"))])
    c.traces("CommandTrace", cr, describe=lambda t: json.dumps(t["result"]))
    # the inputs of copies that fail or succeed in other ways
    sc = []
    for f, n in (("Faults", 40), ("FaultsSmall", 40), ("Misfit", 60), ("Sums", 60), ("Layout", 60)):
        sc += G.family(f, c.pick(n, 8 * n), c.seed * 21 + len(sc))
    tr3 = R.run_api(sc)
    c.traces("CopyTrace", tr3, describe=lambda t: json.dumps(t["result"])[:600])
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    need(c, "aliased", "ok", "fail", "create", "fault")
    c.selftest("CommandTrace", [t for t in tr if t["w"]["alias"] == "image"][0], lambda x: x.__setitem__("o", "ok"), "C21_accepted")
    c.selftest("CommandTrace", [t for t in tr if t["w"]["alias"] == "image"][0], lambda x: x.__setitem__("touched", ["image"]), "C21_modified")
    c.selftest("CommandTrace", [t for t in cr if t["w"]["alias"] == "image"][0], lambda x: x.__setitem__("o", "ok"), "C21_accepted")


# --------------------------------------------------------------- memory
def memory(c):
    """Bmaps with blocks which do not fit into memory (for C07)."""
    img = image_bytes()
    top = core.scratch().dir()
    jobs, info = [], []
    for i, (sh, bdev, tail) in enumerate([(44, False, ""), (44, True, ""), (46, False, " "), (50, False, "")]):
        d = os.path.join(top, "m%d" % i)
        os.mkdir(d)
        open(d + "/image", "wb").write(img)
        C.write_bmap(d + "/m", C.Geometry(BS, SIZE, 1), [[0, 0, 0]], bsz=1 << sh, blocks=1, mapped=1)
        open(d + "/dest", "wb").write(b"\xee" * SIZE)
        open(d + "/conf", "w").write("watch dest %s/dest\n" % d + ("blk dest %d 8 0\nredirect /sys/dev/block/ %s/nosysfs/\n" % (SIZE, d) if bdev else ""))
        jobs.append(R.cli_job("mem-%d" % i, ["copy", "--bmap", d + "/m", d + "/image", d + "/dest"], d, d + "/cli", d + "/conf"))
        info.append(d)
    res = R.run_driver(jobs)
    tr = []
    for j, d in zip(jobs, info):
        rc, o, err = R.cli_result(res[j["id"]])
        tr.append(dict(id=j["id"], key=j["id"], family="memory", cmd="memory", o="hang" if rc is None else "ok" if rc == 0 else "fail",
                       exact=open(d + "/dest", "rb").read() == img, result={"rc": rc, "err": err[-400:], "argv": j["argv"]}))
        shutil.rmtree(d, ignore_errors=True)
    c.traces("CommandTrace", tr, describe=lambda t: json.dumps(t["result"])[:600])
