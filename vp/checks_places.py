"""C31: the place the user names is the one which is written, whatever it is."""
import hashlib, json, os, shutil, stat, subprocess
from . import core, content as C, copygen as G, checks_read as RD

NOBODY = 65534
BSZ = 4096
NAMES = [b"d", b"a b", b"%s%d%%", "\u00fcn\u00ef".encode(), b"bad\xff\xfe", b"new\nline", b"q'uo\"te", b"-dash", b"{x}", b"a.bmap", b"$(touch x);y", b"x.gz"]
DEVSHM = "/dev/shm"


def image(lasthole):
    """6 blocks and a part of one; the mapped ranges."""
    size = 6 * BSZ + 100
    ranges = [(0, 1), (3, 3)] if lasthole else [(0, 1), (3, 3), (6, 6)]
    data = bytearray(size)
    for a, b in ranges:
        data[a * BSZ:min(size, (b + 1) * BSZ)] = RD.payload(min(size, (b + 1) * BSZ) - a * BSZ, a + 1)
    return bytes(data), ranges


def bmap_right(text, data):
    try:
        m = C.parse_bmap(text)
        if not m["selfok"] or m["isize"] != len(data):
            return False
        seen = bytearray(len(data))
        for a, b, h in m["ranges"]:
            lo, hi = a * m["bsz"], min(len(data), (b + 1) * m["bsz"])
            if h != hashlib.new(m["hash"], data[lo:hi]).hexdigest():
                return False
            seen[lo:hi] = data[lo:hi]
        return bytes(seen) == data
    except (ValueError, IndexError, KeyError):
        return False


def snapshot(tops):
    """path -> (type, inode, mode, owner, target or digest) for everything below tops."""
    out = {}
    for top in tops:
        for a, ds, fs in os.walk(top):
            for p in [a] + [os.path.join(a, x) for x in ds + fs]:
                s = os.lstat(p)
                k = stat.S_IFMT(s.st_mode)
                x = os.readlink(p) if k == stat.S_IFLNK else hashlib.sha1(open(p, "rb").read()).hexdigest() if k == stat.S_IFREG else b""
                out[p] = (k, s.st_ino, stat.S_IMODE(s.st_mode), (s.st_uid, s.st_gid), x)
    return out


def follow(p):
    """What the path leads to: (device, inode, device number) or None."""
    try:
        s = os.stat(p)
        return s.st_dev, s.st_ino, s.st_rdev
    except OSError:
        return None


def can_drop():
    """Whether an unprivileged user can run the code."""
    try:
        r = subprocess.run([core.PY, "-c", "import bmaptools.CLI"], env=core.code_env({"HOME": "/"}), cwd="/", user=NOBODY, group=NOBODY, extra_groups=[], capture_output=True, timeout=60)
        return r.returncode == 0
    except (OSError, PermissionError, subprocess.SubprocessError):
        return False


def runs(worlds):
    top = os.fsencode(core.scratch().dir())
    shm = os.fsencode(core.scratch().path.replace("/", "_"))
    shm = os.path.join(os.fsencode(DEVSHM), shm)
    drop = can_drop()
    usable = os.path.isdir(DEVSHM) and os.access(DEVSHM, os.W_OK)
    if usable:
        os.makedirs(shm, exist_ok=True)

    def one(z):
        i, w = z
        if (not drop and w["place"] in ("null", "full", "rofile", "rodir")) or (not usable and w["place"] in ("devfile", "devnew")):
            return None
        d = os.path.join(top, b"r%d" % i, NAMES[w["name"]])
        for x in (b"in", b"out/sub", b"tmp"):
            os.makedirs(os.path.join(d, x))
        data, ranges = image(w["lasthole"])
        have = data
        if w["bad"] == "sum":
            have = data[:5] + bytes([data[5] ^ 1]) + data[6:]
        elif w["bad"] == "cut":
            have = data[:3 * BSZ + 50]
        name = b"image" if w["comp"] == "plain" else b"image." + w["comp"].encode()
        img = os.path.join(d, b"in", name)
        if w["comp"] == "plain":
            with open(img, "wb") as f:
                f.truncate(len(have))
                for a, b in ranges:
                    f.seek(a * BSZ)
                    f.write(have[a * BSZ:(b + 1) * BSZ])
                f.truncate(len(have))
        else:
            open(img, "wb").write(RD.pack(w["comp"], have))
        right = data
        bm = os.path.join(d, b"in", b"other.map" if w["given"] else b"image.bmap")
        if w["cmd"] == "copy" and w["map"]:
            C.write_bmap(os.fsdecode(bm), C.Geometry(BSZ, len(data), 1), [[a, b, hashlib.sha256(data[a * BSZ:(b + 1) * BSZ]).hexdigest()] for a, b in ranges])
        o = os.path.join(d, b"out")
        dev = os.path.join(shm, b"r%d" % i)
        j = os.path.join
        old = lambda p, n=40000: open(p, "wb").write(b"old!" * (n // 4))
        old(j(o, b"bystander"), 100)
        old(j(o, b"sub", b"bystander"), 100)
        p = w["place"]
        dest = j(o, b"dest")
        if p in ("short", "long", "mode", "rofile", "dots"):
            old(dest, 12 if p == "short" else 40000)
        elif p in ("link", "chain", "dangling"):
            if p != "dangling":
                old(j(o, b"sub", b"target"))
            if p == "chain":
                os.symlink(b"sub/target", j(o, b"middle"))
            os.symlink(b"middle" if p == "chain" else b"sub/target" if i % 2 else j(o, b"sub", b"target"), dest)
        elif p == "hard":
            old(dest)
            os.link(dest, j(o, b"sub", b"second"))
        elif p in ("dir", "linkdir"):
            os.mkdir(j(o, b"adir"))
            dest = j(o, b"adir")
            if p == "linkdir":
                dest = j(o, b"dest")
                os.symlink(b"adir", dest)
        elif p == "slash":
            dest += b"/"
        elif p == "nodir":
            dest = j(o, b"none", b"dest")
        elif p == "notdir":
            dest = j(o, b"bystander", b"dest")
        elif p == "loop":
            os.symlink(b"dest2", dest)
            os.symlink(b"dest", dest + b"2")
        elif p == "toolong":
            dest += b"x" * 260
        elif p in ("null", "full"):
            real = b"/dev/" + p.encode()
            if i % 3 == 2:
                os.symlink(real, dest)
            else:
                dest = real
        elif p in ("devfile", "devnew"):
            os.mkdir(dev)
            dest = j(dev, b"dest")
            if p == "devfile":
                old(dest)
        if p in ("dots", "newdots"):
            dest = j(o, b"sub", b"..", b".", b"..", b"out", b"dest")
        if p in ("devfile", "devnew") and i % 2:
            dest = b"/tmp/../" + dest[1:]
        if drop:
            for a, ds, fs in os.walk(d):
                for x in [a] + [j(a, y) for y in ds + fs]:
                    os.lchown(x, NOBODY, NOBODY)
            if p in ("devfile", "devnew"):
                os.chown(dev, NOBODY, NOBODY)
        if p == "devfile":
            os.chmod(dest, 0o666)
        if p == "rofile":
            os.chmod(dest, 0o444)
        if p == "rodir":
            os.chmod(o, 0o555)
        if p == "mode":
            os.chown(dest, 12, 34)
            os.chmod(dest, 0o666)
        cwd, arg = d, dest
        if w["rel"] and dest.startswith(o + b"/"):
            cwd = o
            arg = dest[len(o) + 1:] if not dest[len(o) + 1:].startswith(b"-") else b"./" + dest[len(o) + 1:]
        tops = [os.path.dirname(d)] + ([dev] if p.startswith("dev") else [])
        before, led = snapshot(tops), follow(dest)
        argv = [b"copy"] if w["cmd"] == "copy" else [b"create", img, b"-o", arg]
        if w["cmd"] == "copy":
            argv += ([] if w["map"] else [b"--nobmap"]) + ([] if w["verify"] else [b"--no-verify"]) + ([b"--bmap", bm] if w["given"] else []) + [img, arg]
        if w["quiet"]:
            argv = [b"--quiet"] + argv
        env = core.code_env({"TMPDIR": os.fsdecode(j(d, b"tmp")), "HOME": os.fsdecode(d), "GNUPGHOME": os.fsdecode(j(d, b"tmp", b"g"))})
        more = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop else {}
        try:
            r = subprocess.run([core.PY, "-m", "bmaptools", *argv], env=env, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, umask=0o022, **more)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = None, b""
        after, leads = snapshot(tops), follow(dest)
        held = "none"
        if p not in ("null", "full") and leads and os.path.isfile(dest):
            got = open(dest, "rb").read()
            held = "right" if (got == right if w["cmd"] == "copy" else bmap_right(got, data)) else "old" if got == b"old!" * (len(got) // 4) else "wrong"
        where = os.path.realpath(dest)
        node = {k for k in set(before) | set(after) if (k in after and led and after[k][1] == led[1]) or (k in before and led and before[k][1] == led[1]) or k == where}
        places = {k: v for k, v in before.items() if v[0] == stat.S_IFLNK}
        keep = lambda s: {k: v for k, v in s.items() if k not in node and k not in places}
        if p in ("dir", "linkdir", "slash", "nodir", "notdir", "loop", "toolong", "rofile", "rodir"):
            held = "old" if before == after else "wrong"
            node = set()
        res = dict(o="hang" if rc is None else "ok" if rc == 0 else "fail", data=held,
                   node="same" if led == leads else "none" if leads is None else "other",
                   links=all(after.get(k) == v for k, v in places.items()),
                   mode=all(before[k][2:4] == after[k][2:4] for k in node if k in before and k in after),
                   others=keep(before) == keep(after) and not os.listdir(j(d, b"tmp")),
                   said=b"ERROR" in err, warned=any(b"WARNING" in x and arg in x + b"\n" for x in err.split(b"bmaptool: ")))
        if p == "rodir":
            os.chmod(o, 0o755)
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        key = hashlib.sha1(json.dumps(w, sort_keys=True).encode()).hexdigest()[:12]
        return dict(id="%s-%s-%d" % (w["cmd"], p, i), key="place-" + key, w=w, r=res, result={"rc": rc, "argv": repr(argv), "err": err[-500:].decode(errors="replace")})
    try:
        return [t for t in core.pmap(one, list(enumerate(worlds))) if t]
    finally:
        shutil.rmtree(shm, ignore_errors=True)


def tell(t):
    return json.dumps({k: t.get(k) for k in ("w", "r", "result")})[:1400]


def C31(c):
    c.assumptions = ["TLC and the Java/Python runtimes", "places are made below a scratch directory, /dev/shm, /dev/null and /dev/full, the command runs as an unprivileged user where it can"]
    c.model("Places", workers=8, defs=dict(PIECES=c.pick(3, 6)))
    c.bugs("Places", ["rename", "unlink", "keep", "swallow", "syncnull", "nofollow", "remove", "chmod", "nowarn", "mkdirs", "nosize"])
    tr = runs(G.generate("Places", c.pick(6, 80), c.seed, module="GenPlaces"))
    c.traces("PlacesTrace", tr, describe=tell)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    for p in ("short", "long", "link", "chain", "hard", "dots", "mode", "absent", "dangling", "newdots"):
        for cmd in ("copy", "create"):
            if not c.exercised.get("%s_%s_ok" % (cmd, p)):
                raise core.MachineryError("never exercised: %s %s" % (cmd, p))
    ok = [t for t in tr if t["w"]["place"] == "chain" and t["w"]["cmd"] == "copy" and t["w"]["bad"] == "no" and t["r"]["o"] == "ok"][0]
    for f, v, cl in (("data", "wrong", "C31_data"), ("node", "other", "C31_replaced"), ("links", False, "C31_link"), ("mode", False, "C31_mode"), ("others", False, "C31_other"),
                     ("o", "fail", "C31_refused"), ("o", "hang", "C31_hang"), ("warned", True, "C31_warning")):
        c.selftest("PlacesTrace", ok, lambda x: x["r"].__setitem__(f, v), cl)
