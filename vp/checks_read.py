"""C14 (the transparent reader) and C15 (failing sources)."""
import atexit, base64, bz2, gzip, io, json, os, random, shutil, socket, stat, struct, subprocess, tarfile, threading, time, zipfile
from . import core, content as C, copygen as G, copyrun as R

ASSUME = ["TLC and the Java/Python runtimes", "the compression programs installed here behave like other versions of them",
          "ssh and sshpass are represented by scripts which run the remote command locally"]

# name: (suffixes, program, tar option)
FORMATS = {"gz": (["gz", "gzip"], "gzip -c"), "bz2": (["bz2"], "bzip2 -c"), "xz": (["xz"], "xz -c"), "lzo": (["lzo"], "lzop -c"), "lz4": (["lz4"], "lz4 -q -c"),
           "zst": (["zst"], "zstd -q -c"), "tar.gz": (["tar.gz", "tgz"], "gzip -c"), "tar.bz2": (["tar.bz2", "tbz", "tbz2", "tb2"], "bzip2 -c"),
           "tar.xz": (["tar.xz", "txz"], "xz -c"), "tar.lzo": (["tar.lzo", "tzo"], "lzop -c"), "tar.lz4": (["tar.lz4", "tlz4"], "lz4 -q -c"),
           "tar.zst": (["tar.zst", "tzst"], "zstd -q -c"), "zip": (["zip"], None)}


def payload(n, seed=0):
    """n bytes, every eight of them unique, moderately compressible, with some zeros."""
    out = bytearray()
    k = seed
    while len(out) < n:
        for _ in range(512):
            out += struct.pack(">Q", k * 0x9E3779B97F4A7C15 % (1 << 64) if k % 3 else k + (1 << 40))
            k += 1
    return bytes(out[:n])


def pack(fmt, data, name="image"):
    """Independent compression (command line tools, zipfile)."""
    if fmt == "plain":
        return data
    if fmt == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(name, data)
        return b.getvalue()
    if fmt.startswith("tar"):
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w") as t:
            i = tarfile.TarInfo(name)
            i.size = len(data)
            t.addfile(i, io.BytesIO(data))
        data = b.getvalue()
    r = subprocess.run(FORMATS[fmt][1].split(), input=data, capture_output=True)
    if r.returncode:
        raise core.MachineryError("%s: %s" % (fmt, r.stderr[-200:]))
    return r.stdout


# ------------------------------------------------------------------ servers
LOCK = threading.Lock()


class Http:
    """Serves a set of resources; how is decided by the path. /<mode>/<anything>; content from self.data[name]."""

    def __init__(self):
        self.data = {}
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.unauthorised = 0
        self.late = set()
        threading.Thread(target=self.accept, daemon=True).start()

    def url(self, mode, name, auth=""):
        return "http://%s127.0.0.1:%d/%s/%s" % (auth, self.port, mode, name)

    def accept(self):
        while True:
            c, _ = self.s.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(60)
            self.answer(c)
            c.shutdown(socket.SHUT_WR)
            c.recv(100)
        except OSError:
            pass
        finally:
            c.close()

    def answer(self, c):
        req = b""
        while b"\r\n\r\n" not in req:
            b = c.recv(4096)
            if not b:
                return
            req += b
        head = req.split(b"\r\n")
        path = head[0].split()[1].decode()
        mode, name = path.split("/", 2)[1:]
        hdr = {k.strip().lower(): v.strip() for k, _, v in (h.partition(b":") for h in head[1:])}
        d = self.data.get(name)
        if isinstance(d, list):  # something else every time
            d = d.pop(0)
        m, _, arg = mode.partition(":")
        if d is None:
            return c.sendall(b"HTTP/1.0 404 Not Found\r\nContent-Length: 0\r\n\r\n")
        if m == "auth":
            want = b"Basic " + base64.b64encode(b"user:pa:ss%")
            if hdr.get(b"authorization") != want:
                self.unauthorised += 1
                return c.sendall(b'HTTP/1.0 401 Unauthorized\r\nWWW-Authenticate: Basic realm="x"\r\nContent-Length: 0\r\n\r\n')
        if m == "redirect":
            return c.sendall(b"HTTP/1.0 302 Found\r\nLocation: /plain/%s\r\nContent-Length: 0\r\n\r\n" % name.encode())
        length = b"Content-Length: %d\r\n" % len(d)
        if m == "late" and name not in self.late:  # nobody expects the first answer any more
            self.late.add(name)
            time.sleep(10.7)
        if m in ("plain", "auth", "late"):
            c.sendall(b"HTTP/1.1 200 OK\r\n" + length + b"Connection: close\r\n\r\n")
            for i in range(0, len(d), 1 << 22):
                c.sendall(d[i:i + (1 << 22)])
        elif m == "slow":
            c.sendall(b"HTTP/1.1 200 OK\r\n" + length + b"\r\n")
            k = max(1, len(d) // 5)
            for i in range(0, len(d), k):
                c.sendall(d[i:i + k])
                time.sleep(float(arg or .02))
        elif m == "nolength":
            c.sendall(b"HTTP/1.0 200 OK\r\n\r\n")
            c.sendall(d)
        elif m in ("chunked", "chunkcut", "chunkend"):
            n = int(arg or len(d))
            c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
            k = 70001 if len(d) < 1 << 25 else 700001
            for i in range(0, len(d), k):
                p = d[i:i + k]
                if m == "chunkcut" and i + len(p) > n:
                    return c.sendall(b"%x\r\n" % len(p) + p[:n - i])
                c.sendall(b"%x\r\n" % len(p) + p + b"\r\n")
                if m == "chunkend" and i + len(p) >= n:
                    return
            c.sendall(b"0\r\n\r\n")
        elif m == "short":
            c.sendall(b"HTTP/1.1 200 OK\r\n" + length + b"\r\n" + d[:int(arg)])
        elif m == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            c.sendall(b"HTTP/1.1 200 OK\r\n" + length + b"\r\n" + d[:int(arg)])
            time.sleep(.3)
            c.close()


@core.once
def http():
    return Http()


SSH = """#!/bin/sh
# stands for ssh: the last two arguments are the host and the command
while [ $# -gt 2 ]; do
  case "$1" in -o*) ;; *) echo "unexpected argument $1" >&2; exit 250;; esac
  shift
done
[ "$1" = "$VP_SSH_HOST" ] || exit 255
[ "$VP_SSH_PASS" = "$VP_SSH_GOT" ] || exit 5
if [ -n "$VP_SSH_CUT" ]; then
  case "$2" in cat*) f=${2#cat }; head -c "$VP_SSH_CUT" "$f"
    case "$VP_SSH_END" in kill) kill -9 $$;; *) exit "$VP_SSH_END";; esac;; esac
fi
exec sh -c "$2"
"""
SSHPASS = """#!/bin/sh
case "$1" in -p*) VP_SSH_GOT=${1#-p}; export VP_SSH_GOT;; *) exit 1;; esac
shift
exec "$@"
"""


def script(d, name, text):
    p = os.path.join(d, name)
    open(p, "w").write(text)
    os.chmod(p, 0o755)


@core.once
def sshbin():
    d = core.scratch().dir("sshbin")
    if not os.path.exists(os.path.join(d, "ssh")):
        script(d, "ssh", SSH)
        script(d, "sshpass", SSHPASS)
    return d


def path_with(d):
    return d + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


# --------------------------------------------------------------- C14
def sources(c, rng):
    """(label, format, suffix, transport, kind of reader)"""
    out = []
    for fmt, (suf, _) in FORMATS.items():
        for s in suf:
            out.append((fmt, s, "local"))
        for tr in ("file", "http-plain", "ssh"):
            out.append((fmt, suf[0], tr))
        if c.thorough:
            out += [(fmt, s, tr) for s in suf for tr in ("http-chunked", "http-slow", "http-nolength", "sshpw")]
    for tr in ("local", "file", "http-plain", "http-chunked", "http-slow", "http-redirect", "http-nolength", "http-authurl", "http-netrc", "http-badnetrc", "ssh", "sshpw", "stdin", "stdinpipe", "fifo"):
        out += [("plain", "img", tr)] * (3 if tr in ("local", "stdin", "stdinpipe", "http-plain") else 2)
    out += [("plain", "img", "http-late"), ("gz", "gz", "http-late")]
    out += [(f, f, "fallback") for f in ("gz", "bz2", "tar.gz", "tar.bz2")]
    out += [("plain", s, "local") for s in ("raw", "gz.img", "tar", "bmap")]
    return out


@core.once
def fallback_bin():
    """A PATH without the parallel compression programs."""
    d = core.scratch().dir("fallback")
    if not os.listdir(d):
        for n in ("sh", "gzip", "bzip2", "tar", "df"):
            os.symlink(shutil.which(n), os.path.join(d, n))
    return d


@core.once
def home(kind):
    d = core.scratch().dir("home-" + kind)
    p = os.path.join(d, ".netrc")
    if kind == "netrc":
        open(p, "w").write("machine other login a password b\nmachine 127.0.0.1 login user password pa:ss%\n")
    elif kind == "badnetrc":
        open(p, "w").write("this is no netrc file\n")
    else:
        return d
    os.chmod(p, 0o600)
    return d


def open_source(fmt, suf, tr, data, d):
    """Make the source; returns the job fields."""
    blob = pack(fmt, data, random.Random(len(data)).choice(["image", "dir/image.img", "/abs/image"]) if fmt.startswith("tar") else "image")
    name = "image." + suf
    p = os.path.join(d, name)
    j = {"env": {"HOME": home("none"), "no_proxy": "*"}}
    kind = "stream"
    if tr == "fifo":
        os.mkfifo(p)

        def feed():
            try:
                with open(p, "wb") as f:
                    f.write(blob)
            except OSError:
                pass
        threading.Thread(target=feed, daemon=True).start()
    else:
        open(p, "wb").write(blob)
    if tr in ("local", "fifo", "fallback"):
        j["path"] = p
        if tr == "fallback":
            j["env"]["PATH"] = fallback_bin()
        kind = "seekable" if fmt == "plain" and tr == "local" else "stream"
    elif tr == "file":
        j["path"] = "file://" + p
        kind = "either" if fmt == "plain" else "stream"
    elif tr in ("stdin", "stdinpipe"):
        j.update(path="-", stdin=p, stdin_pipe=tr == "stdinpipe")
        kind = "seekable" if tr == "stdin" else "stream"
    elif tr.startswith("http"):
        m = tr[5:]
        key = os.path.basename(d) + "/" + name
        http().data[key] = blob
        mode = "auth" if m in ("authurl", "netrc") else "plain" if m == "badnetrc" else m
        j["path"] = http().url(mode, key, "user:pa:ss%@" if m == "authurl" else "")
        if m in ("netrc", "badnetrc"):
            j["env"]["HOME"] = home(m)
    elif tr.startswith("ssh"):
        pw = tr == "sshpw"
        j["path"] = "ssh://%s%s" % ("root:secret@box" if pw else "root@box" if len(data) % 2 else "box", p)
        j["env"].update(PATH=path_with(sshbin()), VP_SSH_HOST="box" if not pw and len(data) % 2 == 0 else "root@box", VP_SSH_PASS="secret" if pw else "", VP_SSH_GOT="")
    return j, kind


def stream_trace(id, family, n, kind, tr, ops, r):
    t = dict(id=id, family=family, n=n, kind=kind, pipe=tr in ("stdinpipe", "fifo"), size=-1, x="", ops=[])
    if r["outcome"] == "skipped":
        return None
    if r["outcome"] != "ok":
        t["x"] = json.dumps(r.get("exc") or r["outcome"])[:300]
        return t
    t["size"] = -1 if r["size"] is None else r["size"]
    for op, a in zip(ops, r["ops"]):
        t["ops"].append(dict(o=op[0], a=-1 if op[0] == "r" and op[1] is None else op[1] if len(op) > 1 else 0, w=op[2] if op[0] == "s" else 0,
                             x=(a["exc"]["type"] + " " + a["exc"]["msg"]) if "exc" in a else "", n=a.get("n", 0), at=a.get("at", 0)))
    return t


def bytes_ops(sc):
    u, out = sc["unit"], []
    for o in sc["ops"]:
        if o["o"] == "r":
            out.append(["r", None if o["a"] < 0 else max(0, o["a"] * u + (o["d"] if o["a"] else 0))])
        elif o["o"] == "s":
            out.append(["s", o["a"] * u + o["d"], o["w"]])
        else:
            out.append(["t"])
    return out + [["t"], ["r", 9], ["t"], ["r", None], ["t"]]


def C14(c):
    c.assumptions = ASSUME
    c.model("StreamRead", workers=8, defs=dict(MaxN=c.pick(4, 5), MaxOps=c.pick(5, 7)))
    c.bugs("StreamRead", ["pos", "silent", "target", "tell"])
    rng = random.Random(c.seed * 14)
    src = sources(c, rng)
    reps = c.pick(3, 20)
    cases = G.generate("any", len(src) * reps, c.seed * 7 + 14, module="GenStream")
    while len(cases) < len(src) * reps:
        cases += cases
    top = core.scratch().dir()

    def prep(w):
        i, (fmt, suf, tr), sc = w
        n = max(0, sc["n"] * sc["unit"] - sc["cut"])
        d = os.path.join(top, "s%d" % i)
        os.mkdir(d)
        data = payload(n, i)
        ref = os.path.join(d, "plain")
        open(ref, "wb").write(data)
        j, kind = open_source(fmt, suf, tr, data, d)
        ops = bytes_ops(sc)
        j.update(id="%s-%s-%s-%d" % (tr, fmt, suf, i), what="trans", ops=ops, plain=ref, timeout=60)
        return j, (n, kind, tr, ops, tr + "-" + fmt, d)

    items = [(i, src[i % len(src)], cases[i]) for i in range(len(src) * reps)]
    tr = []
    for k in range(0, len(items), 240):
        ps = core.pmap(prep, items[k:k + 240])
        res = R.run_driver([j for j, _ in ps])
        for j, (n, kind, trn, ops, fam, d) in ps:
            tr.append(stream_trace(j["id"], fam, n, kind, trn, ops, res[j["id"]]))
            shutil.rmtree(d, ignore_errors=True)
        http().data.clear()
    tr = [t for t in tr if t]
    tr += whole_copies(c, rng)
    c.traces("StreamTrace", tr, describe=lambda t: json.dumps({k: t[k] for k in ("n", "kind", "size", "x", "ops")})[:600])
    c.sample(tr[1])
    if http().unauthorised == 0:
        raise core.MachineryError("the authentication was never asked for")
    t = [t for t in tr if t["kind"] == "stream" and t["n"] > 100000 and not t["x"] and any(o["o"] == "r" and o["n"] > 50000 for o in t["ops"])][0]

    def big(x):
        return [o for o in x["ops"] if o["o"] == "r" and o["n"] > 50000][0]
    c.selftest("StreamTrace", t, lambda x: big(x).__setitem__("n", big(x)["n"] - 1), "C14_")
    c.selftest("StreamTrace", t, lambda x: big(x).__setitem__("at", big(x)["at"] + 1), "C14_read")
    c.selftest("StreamTrace", t, lambda x: x["ops"][-1].__setitem__("n", x["ops"][-1]["n"] - 1), "C14_tell")


def whole_copies(c, rng):
    """`bmaptool copy` of every kind of source; the destination is one big read."""
    work = []
    for fmt, suf, tr in sorted(set(sources(c, rng))):
        for bm in (False, True):
            if c.thorough or rng.random() < .35 or (fmt == "plain" and suf == "img"):
                work.append((len(work), fmt, suf, tr, bm))
    top = core.scratch().dir()

    def one(w):
        i, fmt, suf, tr, bm = w
        d = os.path.join(top, "w%d" % i)
        os.mkdir(d)
        n = random.Random(i).choice([4096 * 40, 4096 * 300 + 17, 3000001, 1])
        data = bytearray(payload(n, i))
        geo = C.Geometry(4096, n)
        nb = -(-n // 4096)
        rs, b = [], 0
        while b < nb:
            e = min(nb - 1, b + random.Random(i * 1000 + b).randrange(60))
            rs.append([b, e, 1])
            if e + 1 < nb:
                g = min(nb - 1, e + 1 + random.Random(i * 999 + b).randrange(40))
                data[(e + 1) * 4096:g * 4096] = bytes((g - e - 1) * 4096)
                b = g
            else:
                b = nb
        data = bytes(data)
        j, kind = open_source(fmt, suf, tr, data, d)
        args = ["--nobmap"]
        if bm:
            p = os.path.join(d, "the.map")
            import hashlib
            C.write_bmap(p, geo, [[a, z, 0] for a, z, _ in rs], None, version="1.2")
            args = ["--bmap", p]
        dest = os.path.join(d, "dest")
        stdin = None
        if tr == "stdin":
            stdin = open(j["stdin"], "rb")
        elif tr == "stdinpipe":
            r, wr = os.pipe()
            stdin = os.fdopen(r, "rb")

            def feed():
                try:
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                except OSError:
                    pass
            threading.Thread(target=feed, daemon=True).start()
        rc, so, se = R.run_cli(["copy", *args, j["path"], dest], cwd=d, env=j["env"], stdin=stdin)
        if stdin:
            stdin.close()
        t = dict(id="cli-%s-%s-%s-%d" % (tr, fmt, suf, bm), family="cli-" + tr, n=n, kind="stream", pipe=False, size=-1, x="", ops=[])
        if rc != 0:
            t["x"] = "rc %s %s" % (rc, se.decode(errors="replace")[-300:])
        else:
            got = open(dest, "rb").read()
            t["ops"] = [dict(o="r", a=-1, w=0, x="", n=len(got), at=0 if got == data else -1)]
        shutil.rmtree(d, ignore_errors=True)
        return t
    return core.pmap(one, work)


# --------------------------------------------------------------- C15
def tools(fmt):
    """Programs which decompress the format, independently of the code under test."""
    base = {"gz": [["gzip", "-dc"], ["pigz", "-dc"]], "bz2": [["bzip2", "-dc"], ["pbzip2", "-dc"]], "xz": [["xz", "-dc"]], "lzo": [["lzop", "-dc"]],
            "lz4": [["lz4", "-dc"]], "zst": [["zstd", "-dc"]], "zip": [["funzip"]]}
    if fmt in base:
        return base[fmt]
    opt = {"gz": "-z", "bz2": "-j", "xz": "-J", "lzo": "--lzo", "lz4": "-Ilz4", "zst": "-Izstd"}[fmt[4:]]
    return [["tar", "-x", opt, "-O", "-P"]]


def common(a, b):
    """Length of the common prefix."""
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi + 1) // 2
        lo, hi = (m, hi) if a[:m] == b[:m] else (lo, m - 1)
    return lo


def truth(fmt, blob, data):
    """(least and greatest correct prefix, greatest length, fails): what the independent programs make of it."""
    if fmt == "plain":
        return common(blob, data), common(blob, data), len(blob), "no"
    goods, rcs, lens = [], [], []
    for t in tools(fmt):
        r = subprocess.run(t, input=blob, capture_output=True, timeout=120)
        ok = r.returncode == 0 or (r.returncode == 2 and t[0] in ("gzip", "xz", "lzop") and len(r.stdout) >= len(data))
        goods.append(common(r.stdout, data))
        rcs.append(ok)
        lens.append(len(r.stdout))
    return min(goods), max(goods), max(lens), "no" if all(rcs) else "yes" if not any(rcs) else "maybe"


FAKE = """#!/bin/sh
case "$*" in *-t*|*--version*) exit 0;; esac
%s
"""


HELPERS = {"gz": ("gzip", "pigz", "gunzip", "zcat"), "bz2": ("bzip2", "pbzip2", "bunzip2", "bzcat", "lbzip2"), "xz": ("xz", "unxz", "xzcat", "pixz"), "lzo": ("lzop",), "lz4": ("lz4", "lz4c", "lz4cat", "unlz4"),
           "zst": ("zstd", "unzstd", "zstdcat", "zstdmt", "pzstd"), "zip": ("unzip", "funzip", "7z")}


def without(fmt, which):
    """A PATH without the programs for the format (or, for an archive, without those which tar needs)."""
    gone = set(HELPERS[fmt.split(".")[-1]]) | ({"tar"} if which == "all" else set())
    d = core.scratch().dir("without-%s-%s" % (fmt, which))
    with LOCK:
        if not os.listdir(d):
            for x in ("/usr/bin", "/bin"):
                for n in os.listdir(x):
                    if n not in gone and not os.path.lexists(os.path.join(d, n)):
                        os.symlink(os.path.join(x, n), os.path.join(d, n))
    return d


def failing(c, rng):
    """Failing sources: (label, job for one copy)."""
    out = []
    fmts = list(FORMATS)
    for fmt in fmts + ["plain"]:
        how = ["intact", "empty", "cut:.02", "cut:.3", "cut:.7", "cut:.97", "cut:-1", "cut:-9", "flip:.02", "flip:.5", "flip:.9", "garbage"]
        if fmt == "plain":
            how = ["intact"]
        for h in how:
            for tr in ("local", "http", "ssh"):
                if tr == "local" or c.thorough or h in ("intact", "cut:.7") or rng.random() < .15:
                    out.append((fmt, tr, h))
        for h in ("short:0", "short:.01", "short:.5", "short:.999", "short:-1", "reset:.5", "chunkcut:.5", "chunkend:.6", "chunkend:1"):
            if fmt in ("plain", "gz", "bz2", "xz") or c.thorough or rng.random() < .4:
                out.append((fmt, "http", h))
        for h in ("die:.5:1", "die:.99:255", "die:.3:kill", "die:0:1"):
            if fmt in ("plain", "gz", "zst") or c.thorough or rng.random() < .3:
                out.append((fmt, "ssh", h))
        if fmt != "plain":
            for h in ("fake:.4:exit 1", "fake:.4:kill -9 $$", "fake:0:exit 3", "fake:0:kill -15 $$", "fake:.9:exit 77"):
                for tr in ("local", "http"):
                    if c.thorough or rng.random() < .3:
                        out.append((fmt, tr, h))
            # the programs are missing; something follows the compressed data
            for h in ("noprog:all", "noprog:helper", "tail:zeros", "tail:junk", "tail:long"):
                if h != "noprog:helper" or fmt.startswith("tar"):
                    for tr in ("local", "http") + ("ssh",) * h.startswith("tail"):
                        if c.thorough or rng.random() < (.5 if h[0] == "n" else .4):
                            out.append((fmt, tr, h))
    return out


def frac(x, n):
    v = float(x)
    return max(0, n + int(v)) if v < 0 else min(n, int(v * n))


def C15(c):
    c.assumptions = ASSUME
    c.model("FailingSource", workers=8, defs=dict(N=c.pick(3, 5), PIPE=c.pick(2, 3)))
    c.bugs("FailingSource", ["old", "status", "length"])
    rng = random.Random(c.seed * 15)
    work = failing(c, rng)
    rng.shuffle(work)
    top = core.scratch().dir()
    packed = {}
    sizes = [700003, 4096 * 600]

    def one(w):
        i, (fmt, tr, how) = w
        r = random.Random("%s/%s" % (c.seed, i))
        n = sizes[i % 2]
        data, blob = packed[fmt, n]
        d = os.path.join(top, "f%d" % i)
        os.mkdir(d)
        name = "image." + (r.choice(FORMATS[fmt][0]) if fmt != "plain" else "img")
        kind, _, arg = how.partition(":")
        sent, env, mode = blob, {"HOME": home("none"), "no_proxy": "*"}, "plain"
        broken = None
        if kind == "empty":
            sent = b""
        elif kind == "cut":
            sent = blob[:frac(arg, len(blob))]
        elif kind == "flip":
            p = frac(arg, len(blob) - 1)
            sent = blob[:p] + bytes([blob[p] ^ (1 << r.randrange(8))]) + blob[p + 1:]
        elif kind == "tail":
            sent = blob + (bytes(10240 if arg == "zeros" else 3 << 20) if arg != "junk" else bytes(r.randrange(256) for _ in range(3000)))
        elif kind == "noprog":
            env["PATH"] = without(fmt, arg)
        elif kind == "garbage":
            sent = bytes(r.randrange(256) for _ in range(5000))
        cut = None
        if kind in ("short", "reset", "chunkcut", "chunkend"):
            cut = frac(arg, len(blob))
            if kind == "short" and cut == len(blob):
                cut -= 1
            if kind == "chunkcut":
                cut = min(cut, len(blob) - 1)
            if kind == "chunkend":
                cut = min(len(blob), -(-max(cut, 1) // 70001) * 70001)
            mode = "%s:%d" % (kind, cut)
        if kind == "die":
            a, rc = arg.split(":")
            cut = frac(a, len(blob))
            env.update(VP_SSH_CUT=str(cut), VP_SSH_END=rc)
        if kind == "fake":
            a, end = arg.split(":")
            part = os.path.join(d, "part")
            open(part, "wb").write(data[:frac(a, n)])
            b = os.path.join(d, "bin")
            os.mkdir(b)
            for t in tools(fmt):
                script(b, t[0], FAKE % ("cat %s\n%s" % (part, end)))
            env["PATH"] = path_with(b)
        p = os.path.join(d, name)
        open(p, "wb").write(sent)
        if tr == "local":
            path = p if r.random() < .8 else "file://" + p
        elif tr == "http":
            key = "f%d/%s" % (i, name)
            http().data[key] = sent
            path = http().url(mode, key)
        else:
            path = "ssh://box" + p
            env.update(PATH=env.get("PATH") or path_with(sshbin()), VP_SSH_HOST="box", VP_SSH_PASS="", VP_SSH_GOT="")
            if kind == "fake":
                env["PATH"] = sshbin() + ":" + env["PATH"]
        # what really arrives
        if kind == "fake":
            good = frac(arg.split(":")[0], n)
            best, length, fails = good, good, "yes"
        elif kind == "noprog":
            good = best = length = 0
            fails = "yes"
        else:
            good, best, length, fails = truth(fmt, sent if cut is None else sent[:cut], data)
            if cut is not None and fails != "yes":
                # the break is noticed unless the decompressor was content before it
                fails = "yes" if fmt == "plain" else "maybe"
        jobs, meta = [], []
        ends = sorted({max(1, min(n, e)) for e in (n, good // 2, good - 300000, best + 1, n // 3)})
        for need in [None] + (ends if c.thorough else sorted(r.sample(ends, min(2, len(ends))))):
            args = ["--nobmap"]
            if need is not None:
                # some blocks up to the one that holds the byte before `need`
                last = (need - 1) // 4096
                rs = [[last, last, 0]] if last < 3 or r.random() < .3 else [[0, 1, 0], [last - 1, last, 0]] if r.random() < .5 else [[0, last, 0]]
                need = min(n, (last + 1) * 4096)
                geo = C.Geometry(4096, n)
                bm = os.path.join(d, "m%d" % last)
                C.write_bmap(bm, geo, rs, None, version=r.choice(["1.0", "1.2"]))
                args = ["--bmap", bm]
            k = len(jobs)
            dest = os.path.join(d, "dest%d" % k)
            jobs.append(R.cli_job("%d-%d" % (i, k), ["copy", *args, path, dest], d, os.path.join(d, "log%d" % k), env=env))
            meta.append((need, rs if need is not None else [[0, -(-n // 4096) - 1]], dest))
        base = dict(n=n, good=good, best=best, len=length, fails=fails,
                    # what may be kept back: by the decompressor, by a broken download
                    slack=10 ** 7 if kind in ("chunkcut", "chunkend", "reset") or fmt.endswith("bz2") and fails != "no" else 300000 if fmt != "plain" else 70000)
        return jobs, (i, fmt, tr, how, kind, n, data, base, meta, d)

    def judge(m, res):
        i, fmt, tr, how, kind, n, data, base, meta, d = m
        copies = []
        for k, (need, rs, dest) in enumerate(meta):
            rc, so, se = R.cli_result(res["%d-%d" % (i, k)])
            exact = True
            if rc == 0:
                got = open(dest, "rb").read()
                exact = len(got) == n and all(got[a * 4096:min(n, (z + 1) * 4096)] == data[a * 4096:min(n, (z + 1) * 4096)] for a, z, *_ in rs)
            copies.append(dict(base, bmap=need is not None, need=need or 0, good=base["good"] if rc != 0 else base["best"],
                               o="hang" if rc is None else "ok" if rc == 0 else "fail", exact=exact,
                               note="%s %s %s need %s: rc %s %s" % (fmt, tr, how, need, rc, se[-200:])))
        shutil.rmtree(d, ignore_errors=True)
        return dict(id="src-%d-%s-%s-%s" % (i, fmt, tr, how), key="%s-%s-%s" % (fmt, tr, how), family="%s-%s" % (tr, kind), copies=copies)

    for fmt in list(FORMATS) + ["plain"]:
        for n in sizes:
            data = payload(n, n)
            packed[fmt, n] = (data, pack(fmt, data))
    tr = []
    work = list(enumerate(work))
    for k in range(0, len(work), 150):
        ps = core.pmap(one, work[k:k + 150])
        res = R.run_driver([j for js, _ in ps for j in js])
        tr += [judge(m, res) for _, m in ps]
        http().data.clear()
    c.traces("SourceTrace", tr, describe=lambda t: json.dumps([x for x in t["copies"]])[:900])
    c.cov["copies"] = sum(len(t["copies"]) for t in tr)
    c.sample(tr[0])
    good = [t for t in tr if any(x["o"] == "fail" and not x["bmap"] and x["fails"] == "yes" for x in t["copies"])][0]
    c.selftest("SourceTrace", good, lambda x: [y for y in x["copies"] if not y["bmap"]][0].__setitem__("o", "ok"), "C15_accepted")
    fine = [t for t in tr if any(x["o"] == "ok" and x["fails"] == "no" and x["good"] >= x["n"] for x in t["copies"])][0]
    c.selftest("SourceTrace", fine, lambda x: [y.__setitem__("o", "fail") for y in x["copies"]], "C15_refused")
    part = [t for t in tr if any(x["o"] == "ok" and x["bmap"] and x["need"] + x["slack"] <= x["good"] < x["n"] for x in t["copies"])][0]
    c.selftest("SourceTrace", part, lambda x: [y.__setitem__("o", "fail") for y in x["copies"] if y["bmap"]], "C15_tail_needed")
