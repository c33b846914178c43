"""Runs under the interpreter of the code under test, with the shim preloaded. Reads a JSON list of jobs, runs every job in
a forked child through the public API and writes one JSON result per job. Usage: driver.py JOBS OUT"""
import sys, os, json, time, signal, select, ctypes, threading, io, traceback

lib = ctypes.CDLL(None)
HAVE = hasattr(lib, "vp_load")
if HAVE:
    lib.vp_load.argtypes = [ctypes.c_char_p]
    lib.vp_note.argtypes = [ctypes.c_char_p, ctypes.c_longlong, ctypes.c_longlong]


def note(op, a=0, b=0):
    if HAVE:
        lib.vp_note(op.encode(), a, b)


class Gate:
    """Enforces an order of completed reads (R) and writes (W). Falls back to free running when the code does not follow."""

    def __init__(self, schedule, timeout=1.5):
        self.s, self.pos, self.free, self.timeout = schedule, 0, not schedule, timeout
        self.c = threading.Condition()
        self.followed = 0

    def enter(self, what):
        with self.c:
            if self.free:
                return
            end = time.time() + self.timeout
            while not self.free and (self.pos >= len(self.s) or self.s[self.pos] != what):
                if self.pos >= len(self.s) or not self.c.wait(max(0, end - time.time())) and time.time() >= end:
                    self.free = True
                    self.c.notify_all()

    def leave(self, what):
        with self.c:
            if not self.free and self.pos < len(self.s) and self.s[self.pos] == what:
                self.pos += 1
                self.followed += 1
            self.c.notify_all()


class Wrap:
    """A file object that delegates everything; reads and writes are announced, gated and may fail."""

    def __init__(self, f, what, gate, fault=None, stall=None, pre=None, delay=0):
        self.__dict__.update(_f=f, _w=what, _g=gate, _n=0, _fault=fault or {}, _stall=stall, _pre=pre, _delay=delay)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)

    def _op(self, fn, *a):
        self.__dict__["_n"] += 1
        if self._pre:
            self._pre(self._n)
        self._g.enter(self._w)
        try:
            if self._delay:
                time.sleep(self._delay)
            if self._stall and self._stall[0] == self._n:
                self._stall[1]()
            f = self._fault.get(str(self._n))
            if f:
                note("fault" + self._w, self._n)
                if f == "EIO":
                    raise IOError(5, "Input/output error")
                if f == "error":
                    raise RuntimeError("injected failure")
            r = fn(*a)
            n = len(r) if self._w == "R" else (r if isinstance(r, int) else len(a[0]))
            note("i" + self._w, n)
            return r
        finally:
            self._g.leave(self._w)

    def read(self, *a):
        return self._op(self._f.read, *a) if self._w == "R" else self._f.read(*a)

    def write(self, b):
        return self._op(self._f.write, b) if self._w == "W" else self._f.write(b)


class Named:
    def __init__(self, f, name):
        self._f, self.name = f, name

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)


def exc(e):
    return {"type": type(e).__name__, "mod": type(e).__module__, "msg": str(e)[:300]}


class ProgressFile:
    def __init__(self):
        self.out = []

    def write(self, s):
        self.out.append(s)
        note("progress", len(self.out))

    def flush(self):
        pass

    def fileno(self):
        return 2

    def isatty(self):
        return True


class Psplash:
    """A psplash pipe in various conditions; its messages are noted before the next write."""

    def __init__(self, mode, dir):
        self.mode, self.path, self.fd, self.buf = mode, os.path.join(dir, "psplash"), None, b""
        if mode == "file":
            open(self.path, "w").close()
        elif mode == "dir":
            os.mkdir(self.path)
        elif mode != "missing":
            os.mkfifo(self.path)
            if mode not in ("unread",):
                self.fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
            if mode == "full":
                w = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                try:
                    while True:
                        os.write(w, b"x" * 4096)
                except BlockingIOError:
                    pass
                os.close(w)

    def poll(self, n):
        if self.mode == "closing" and n == 3 and self.fd is not None:
            os.close(self.fd)
            self.fd = None
        if self.mode == "removed" and n == 3:
            os.unlink(self.path)
        if self.mode == "read":
            while True:
                try:
                    b = os.read(self.fd, 65536)
                except BlockingIOError:
                    break
                if not b:
                    break
                self.buf += b
            *lines, self.buf = self.buf.split(b"\n")
            for x in lines:
                f = x.split()
                note("psplash", int(f[1]) if len(f) == 2 and f[0] == b"PROGRESS" and f[1].lstrip(b"-").isdigit() else -1000)


def do_copy(j, res):
    from bmaptools import BmapCopy, TransRead
    gate = Gate(j.get("gate") or "", j.get("gate_timeout", 1.5))
    stall = None
    if j.get("stall"):
        def hold():
            # the writer stands still until the reader has made no progress for a while
            last, t = -1, time.time()
            while time.time() - t < j["stall"][1]:
                cur = img._n
                if cur != last:
                    last, t = cur, time.time()
                time.sleep(0.01)
        stall = (j["stall"][0], hold)
    try:
        if j.get("transread"):
            image = TransRead.TransRead(j["image"])
        else:
            image = open(j["image"], "rb", 0 if "i" in j["raw"] else -1)
        if j["kind"] == "bdev":
            dest = Named(os.fdopen(os.open(j["dest"], os.O_WRONLY | os.O_EXCL), "wb", 0 if "d" in j["raw"] else -1), j["dest"])
        else:
            dest = open(j["dest"], j.get("destmode", "wb+"), 0 if "d" in j["raw"] else -1)
        if j.get("destpos"):
            dest.seek(j["destpos"])
        img = Wrap(image, "R", gate, j.get("rfault"), delay=j.get("rdelay") or 0)
        ps = Psplash(j["psplash"], j["dir"]) if j.get("psplash") else None
        dst = Wrap(dest, "W", gate, j.get("wfault"), stall, ps.poll if ps else None)
        if j.get("plain"):
            img, dst = image, dest
        bmap = None
        if j.get("bmap"):
            bmap = open(j["bmap"], "rb")
            if j.get("bmap_named"):
                bmap = Named(bmap, j["bmap"])
        pf = None
        note("begin")
        cls = BmapCopy.BmapBdevCopy if j["kind"] == "bdev" else BmapCopy.BmapCopy
        w = cls(img, dst, bmap, j.get("known") or None)
        res["geo"] = {k: getattr(w, k, None) for k in ("bmap_version", "bmap_version_major", "bmap_version_minor", "block_size", "blocks_cnt",
                      "mapped_cnt", "image_size", "mapped_size", "mapped_percent", "image_size_human", "mapped_size_human")}
        if j.get("progress"):
            pf = ProgressFile()
            w.set_progress_indicator(pf, j.get("progress_format"))
        if j.get("psplash"):
            w.set_psplash_pipe(ps.path)
        note("copy")
        if j.get("retry"):
            # the same copy once more, at once, with the same file objects (and the same copy object, or a new one)
            try:
                w.copy(j["sync"], j["verify"])
                note("ret", 0)
                res["first"] = "ok"
            except Exception as e:
                note("ret", 1)
                res["first"] = exc(e)
            note("again")
            img.__dict__["_fault"], dst.__dict__["_fault"] = {}, {}
            if j["retry"] == "new":
                if bmap:
                    bmap.seek(0)
                w = cls(img, dst, bmap, j.get("known") or None)
        w.copy(j["sync"], j["verify"])
        if ps:
            ps.poll(0)
        note("ret", 0)
        res["outcome"] = "ok"
        res["geo2"] = {k: getattr(w, k, None) for k in ("block_size", "blocks_cnt", "mapped_cnt", "image_size", "mapped_size", "mapped_percent")}
    except BaseException as e:
        note("ret", 1)
        res["outcome"] = "fail"
        res["exc"] = exc(e)
        if j.get("tb"):
            res["tb"] = traceback.format_exc()[-1500:]
    if j.get("progress"):
        try:
            res["progress_parts"] = pf.out if pf else []
        except Exception:
            pass
    res["followed"], res["sched"] = gate.followed, len(gate.s)
    if j.get("hold_open"):
        return
    try:
        dest.close()
    except Exception:
        pass


def do_create(j, res):
    """Generate a bmap; optionally through file objects, with unwritten data in the image object, twice."""
    from bmaptools import BmapCreate
    imgf = outf = None
    try:
        image = j["image"]
        if j.get("image_obj"):
            imgf = image = open(j["image"], j.get("image_mode", "rb"), j.get("image_buffering", -1))
            for off, v, n in j.get("pending") or []:
                image.seek(off)
                image.write(bytes.fromhex(v) * n)
            image.seek(j.get("pos", 0))
        out = j["bmap"]
        if j.get("bmap_obj"):
            outf = out = open(j["bmap"], "w+", j.get("bmap_buffering", -1))
        note("begin")
        c = BmapCreate.BmapCreate(image, out, j["hash"]) if j.get("hash") else BmapCreate.BmapCreate(image, out)
        if imgf:
            res["pos0"] = imgf.tell()
            if j.get("pos2", -1) >= 0:
                imgf.seek(j["pos2"])
        c.generate(*([] if j.get("cs") is None else [bool(j["cs"])]))
        note("ret", 0)
        res["outcome"] = "ok"
        res["geo"] = {k: getattr(c, k, None) for k in ("image_size", "block_size", "blocks_cnt", "mapped_cnt", "mapped_size", "mapped_percent")}
        res["content"] = open(j["bmap"], errors="replace").read()
        if imgf:
            res["pos"] = -1 if imgf.closed else imgf.tell()
        if j.get("twice"):
            c2 = BmapCreate.BmapCreate(j["image"], j["bmap"] + ".2", j["hash"]) if j.get("hash") else BmapCreate.BmapCreate(j["image"], j["bmap"] + ".2")
            c2.generate(*([] if j.get("cs") is None else [bool(j["cs"])]))
            res["content2"] = open(j["bmap"] + ".2", errors="replace").read()
    except BaseException as e:
        note("ret", 1)
        res["outcome"] = "fail"
        res["exc"] = exc(e)
        if j.get("tb"):
            res["tb"] = traceback.format_exc()[-1500:]
        if imgf and not imgf.closed:
            res["pos"] = imgf.tell()


def do_offer(j, res):
    """Offer many variants of a bmap file to the copy: accepted or not, was anything written?"""
    from bmaptools import BmapCopy
    base = open(j["base"], "rb").read()
    out = []
    img = open(j["image"], "rb")

    class Sink(io.BytesIO):
        pass

    def slow(*a):
        raise TimeoutError("hang")

    signal.signal(signal.SIGALRM, slow)
    gate = Gate("")
    for m in j["muts"]:
        if m[0] == "none":
            b = base
        elif m[0] == "flip":
            b = base[:m[1]] + bytes([m[2]]) + base[m[1] + 1:]
        elif m[0] == "cut":
            b = base[:m[1]]
        elif m[0] == "insert":
            b = base[:m[1]] + bytes([m[2]]) + base[m[1]:]
        elif m[0] == "delete":
            b = base[:m[1]] + base[m[1] + 1:]
        elif m[0] == "swap":
            b = base[:m[1]] + base[m[1] + 1:m[1] + 2] + base[m[1]:m[1] + 1] + base[m[1] + 2:]
        elif m[0] == "file":
            b = open(m[1], "rb").read()
        with open(j["tmp"], "wb") as f:
            f.write(b)
        dest = open(j["dest"], "wb+")
        dst = Wrap(dest, "W", gate)
        r = ["", "", 0, b == base]
        img.seek(0)
        signal.alarm(20)
        try:
            bm = open(j["tmp"], "rb")
            try:
                w = BmapCopy.BmapCopy(img, dst, bm, j.get("known"))
                w.copy(True, j.get("verify", True))
                r[0] = "ok"
            finally:
                signal.alarm(0)
                bm.close()
        except BaseException as e:
            r[0] = "fail"
            x = exc(e)
            r[1] = "error" if (x["mod"], x["type"]) in (("bmaptools.BmapCopy", "Error"),) else "internal"
            if x["type"] == "TimeoutError":
                r[0] = "hang"
            if j.get("why"):
                r.append(x)
        dest.flush()
        r[2] = os.fstat(dest.fileno()).st_blocks
        dest.close()
        out.append(r)
    res["outcome"] = "ok"
    res["offers"] = out


def do_map(j, res):
    """Queries of a Filemap object."""
    from bmaptools import Filemap
    if j.get("bufs") and hasattr(Filemap, "_FIEMAP_BUFFER_SIZE"):
        Filemap._FIEMAP_BUFFER_SIZE = 32 + 56 * j["bufs"]  # a tunable: how many extents fit one reply
    try:
        image = open(j["image"], "rb+") if j.get("image_obj") else j["image"]
        fm = getattr(Filemap, j["cls"])(image) if j["cls"] else Filemap.filemap(image)
        res["cls"] = type(fm).__name__
        res["bsz"], res["blocks"], res["isize"] = fm.block_size, fm.blocks_cnt, fm.image_size
    except BaseException as e:
        res["outcome"] = "fail"
        res["exc"] = exc(e)
        return

    def ranges(kind, s, c):
        return (fm.get_mapped_ranges if kind == "m" else fm.get_unmapped_ranges)(s, c)

    out = []
    for q in j["queries"]:
        try:
            if q[0] in ("m", "u"):
                r = [list(x) for x in ranges(*q)]
            elif q[0] == "bm":
                r = bool(fm.block_is_mapped(q[1]))
            elif q[0] == "bu":
                r = bool(fm.block_is_unmapped(q[1]))
            elif q[0] == "il":  # two generators advanced in a given order, 3: a per-block query in between
                gens, got = [ranges(*q[1]), ranges(*q[2])], [[], []]
                blk = None
                for k in q[4]:
                    if k == 3:
                        blk = bool(fm.block_is_mapped(q[3]))
                    else:
                        x = next(gens[k - 1], None)
                        if x is not None:
                            got[k - 1].append(list(x))
                for k in (0, 1):
                    got[k] += [list(x) for x in gens[k]]
                r = got + [blk]
        except BaseException as e:
            r = {"exc": exc(e)}
        out.append(r)
    res["outcome"] = "ok"
    res["answers"] = out


def do_trans(j, res):
    """A sequence of read / seek / tell calls on a TransRead object."""
    from bmaptools import TransRead
    out = []
    plain = open(j["plain"], "rb").read() if j.get("plain") else b""
    here = 0

    def where(b):
        # the place in the plain file these bytes come from
        nonlocal here
        at = here if plain[here:here + len(b)] == b else plain.find(b)
        here = at + len(b) if at >= 0 else here
        return at

    try:
        if j.get("stdin"):
            fd = os.open(j["stdin"], os.O_RDONLY)
            if j.get("stdin_pipe"):
                r, w = os.pipe()
                if os.fork() == 0:
                    os.close(r)
                    while True:
                        b = os.read(fd, 65536)
                        if not b:
                            os._exit(0)
                        while b:
                            b = b[os.write(w, b):]
                os.close(w)
                fd = r
            os.dup2(fd, 0)
            sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "rb", closefd=False)))
        t = TransRead.TransRead(j["path"])
    except BaseException as e:
        res["outcome"] = "fail"
        res["exc"] = exc(e)
        return
    res["outcome"] = "ok"
    res["size"] = t.size
    res["ctype"] = t.compression_type
    for op in j["ops"]:
        try:
            if op[0] == "r":
                b = t.read(op[1]) if op[1] is not None else t.read()
                out.append({"n": len(b), "at": where(b)})
            elif op[0] == "s":
                t.seek(op[1], op[2])
                here = op[1] if op[2] == 0 else here + op[1] if op[2] == 1 else len(plain) + op[1]
                out.append({"ok": 1})
            elif op[0] == "t":
                out.append({"n": t.tell()})
                here = out[-1]["n"]
        except BaseException as e:
            out.append({"exc": exc(e)})
            if j.get("stop"):
                break
    res["ops"] = out
    try:
        t.close()
    except BaseException as e:
        res["close"] = exc(e)


def do_cli(j, res):
    """The command line, in this (forked) process."""
    import bmaptools.CLI
    for fd, k in ((1, "out"), (2, "err")):
        f = os.open(j["log"] + "." + k, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
        os.close(f)
    if j.get("stdin"):
        fd = os.open(j["stdin"], os.O_RDONLY)
        os.dup2(fd, 0)
        os.close(fd)
    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "rb", closefd=False)))
    sys.argv = ["bmaptool"] + j["argv"]
    for m in j.get("missing", ()):  # as if this module were not installed
        for x in list(sys.modules):
            if x == m or x.startswith(m + "."):
                del sys.modules[x]
        sys.modules[m] = None
    res["outcome"] = "ok"
    if j.get("clock"):  # time flies
        for n in ("time", "monotonic", "perf_counter"):
            setattr(time, n, lambda real=getattr(time, n), zero=getattr(time, n)(): zero + j["clock"] * (real() - zero))
    begin = time.time()
    try:
        rc = bmaptools.CLI.main()
        res["rc"] = rc if isinstance(rc, int) else 0 if rc is None else 1
    except SystemExit as e:
        res["rc"] = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        traceback.print_exc()
        res["rc"] = 1
    res["elapsed"] = time.time() - begin
    sys.stdout.flush()
    sys.stderr.flush()
    if HAVE:
        lib.vp_disarm()
    res["out"], res["err"] = (open(j["log"] + "." + k, "rb").read(200000).decode(errors="replace") for k in ("out", "err"))


def do_leak(j, res):
    """The same use of the API several times in one process; what does the process have afterwards?"""
    from bmaptools import BmapCopy, BmapCreate, Filemap, TransRead
    import gc

    def trans(how):
        t = TransRead.TransRead(j["image"])
        if how == "all":
            t.read()
        elif how == "some":
            t.read(100000)
        elif how == "seek":
            t.seek(70000)
        if j.get("close"):
            t.close()

    def copy(how):
        with (open(j["dest"], "wb+") if how != "trans" else open(os.devnull, "wb")) as d, open(j["bmap"], "rb") as b:
            t = TransRead.TransRead(j["image"])
            w = Wrap(d, "W", Gate(""), {"2": "EIO"} if "fault" in how else {}, delay=j.get("delay", 0))
            try:
                BmapCopy.BmapCopy(t, w, b if "nobmap" not in how else None).copy()
            finally:
                if j.get("close"):
                    t.close()

    def create(how):
        BmapCreate.BmapCreate(j["image"], j["dest"], "sha256").generate()

    def fmap(how):
        f = {"fiemap": Filemap.FilemapFiemap, "seek": Filemap.FilemapSeek, "any": Filemap.filemap}[how](j["image"])
        it = f.get_mapped_ranges(0, f.blocks_cnt)
        next(it, None)
        f.block_is_mapped(0)

    def have():
        gc.collect()
        n = 0
        while True:
            try:
                p, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            n += 1
            if not p:
                break
        kids = sum(len(open("/proc/self/task/%s/children" % t).read().split()) for t in os.listdir("/proc/self/task"))
        return [len(os.listdir("/proc/self/fd")), n + kids, len(os.listdir("/proc/self/task"))]

    fn = {"trans": trans, "copy": copy, "create": create, "map": fmap}[j["use"]]

    def once():
        try:
            fn(j["how"])
            return "ok"
        except Exception as e:
            return type(e).__name__ + ": " + str(e)[:200]
    once()
    before = have()
    out = [once() for i in range(j["times"])]
    after = have()
    end = time.time() + 3
    while after != before and time.time() < end:
        time.sleep(.1)
        after = have()
    res.update(outcome="ok", before=before, after=after, each=out)


class Multi:
    """Enforces one order of the steps of several pieces of work; a piece that makes more or fewer steps is left alone."""

    def __init__(self, schedule, timeout=1.0):
        self.s, self.timeout, self.followed = [tuple(x) for x in schedule], timeout, 0
        self.c = threading.Condition()

    def enter(self, tok):
        with self.c:
            end = time.time() + self.timeout
            while tok in self.s and self.s[0] != tok:
                left = end - time.time()
                if left <= 0:
                    self.s = []
                    self.c.notify_all()
                    break
                self.c.wait(left)

    def leave(self, tok):
        with self.c:
            if self.s and self.s[0] == tok:
                self.s.pop(0)
                self.followed += 1
            self.c.notify_all()

    def over(self, t):
        with self.c:
            self.s = [x for x in self.s if x[0] != t]
            self.c.notify_all()


class One:
    """The part of one piece of work in the common order."""

    def __init__(self, multi, t):
        self.m, self.t = multi, t

    def enter(self, what):
        self.m.enter((self.t, what))

    def leave(self, what):
        self.m.leave((self.t, what))

    def step(self, what, fn, *a):
        self.enter(what)
        try:
            return fn(*a)
        finally:
            self.leave(what)


def do_together(j, res):
    """Several pieces of work in one process: at once in threads, or one after another with the same objects or names."""
    import hashlib
    from bmaptools import BmapCopy, BmapCreate, Filemap, TransRead
    multi = Multi(j["h"] if j["mode"] == "together" else [])
    shared = {}

    def copy(k, g, r):
        def make():
            if k.get("shared"):
                if k["image"] not in shared:
                    shared[k["image"]] = TransRead.TransRead(k["image"]) if k["transread"] else open(k["image"], "rb")
                image = shared[k["image"]]
            else:
                image = TransRead.TransRead(k["image"]) if k["transread"] else open(k["image"], "rb")
            if k["kind"] == "bdev":
                dest = Named(os.fdopen(os.open(k["dest"], os.O_WRONLY | os.O_EXCL), "wb"), k["dest"])
            else:
                dest = open(k["dest"], "wb+")
            bmap = open(k["bmap"], "rb") if k["bmap"] else None
            cls = BmapCopy.BmapBdevCopy if k["kind"] == "bdev" else BmapCopy.BmapCopy
            dst = Wrap(dest, "W", g, k["wfault"])
            w = cls(Wrap(image, "R", g), dst, bmap, k["known"])
            pf = ProgressFile()
            if k["progress"]:
                w.set_progress_indicator(pf, "%d;")
            return w, pf, dest, image, dst
        w, pf, dest, image, dst = g.step("C", make)
        try:
            w.copy(k["sync"], k["verify"])
        finally:
            r["progress"] = pf.out
            r["fired"] = any(int(x) <= dst._n for x in k["wfault"])
            try:
                dest.close()
                if not k.get("shared"):
                    image.close()
            except Exception:
                pass

    def create(k, g, r):
        def make():
            image = Wrap(open(k["image"], "rb"), "R", g) if k["obj"] else k["image"]
            return image, BmapCreate.BmapCreate(image, k["out"], k["hash"])
        image, c = g.step("C", make)
        c.generate()
        r["content"] = open(k["out"], errors="replace").read()

    def fmap(k, g, r):
        f = g.step("C", lambda: getattr(Filemap, k["cls"])(k["image"]) if k["cls"] else Filemap.filemap(k["image"]))
        m, u = f.get_mapped_ranges(0, f.blocks_cnt), f.get_unmapped_ranges(0, f.blocks_cnt)
        r["m"], r["u"], r["b"] = [], [], []
        for i in range(k["n"]):
            def one():
                for it, o in ((m, "m"), (u, "u"))[:1 + i % 2]:
                    x = next(it, None)
                    if x is not None:
                        r[o].append(list(x))
                b = (7 * i + 3) % f.blocks_cnt
                r["b"].append([b, bool(f.block_is_mapped(b))])
            g.step("R", one)
        r["m"] += [list(x) for x in m]
        r["u"] += [list(x) for x in u]
        for i in range(0 if j["h"] else 10):
            again = [list(x) for x in f.get_mapped_ranges(0, f.blocks_cnt)]
            if again != r["m"]:
                r["m"] = again
                break

    def trans(k, g, r):
        t = g.step("C", TransRead.TransRead, k["image"])
        r["reads"] = []
        for i in range(k["n"]):
            def one():
                if k["skip"]:
                    t.seek(t.tell() + k["skip"])
                at = t.tell()
                b = t.read(k["chunk"])
                r["reads"].append([at, len(b), hashlib.sha1(b).hexdigest()])
            g.step("R", one)
        at = t.tell()
        b = t.read()
        r["reads"].append([at, len(b), hashlib.sha1(b).hexdigest()])
        t.close()

    def jitter(t):
        # switches between the threads at arbitrary lines of the code
        import random
        rng, top = random.Random("%s/%d" % (j["id"], t)), os.path.dirname(os.path.abspath(BmapCopy.__file__))
        p = rng.choice([.02, .1, .3])

        def line(frame, what, arg):
            if what == "line" and rng.random() < p:
                time.sleep(rng.choice([0, 0, 1e-5, 1e-4]))
            return line
        return lambda frame, what, arg: line if frame.f_code.co_filename.startswith(top) else None

    def work(k, r):
        g = One(multi, k["t"])
        if j["mode"] == "together" and not j["h"]:
            threading.settrace(jitter(k["t"]))  # its reader
            sys.settrace(jitter(k["t"]))
        try:
            {"copy": copy, "create": create, "map": fmap, "trans": trans}[k["what"]](k, g, r)
            r["o"] = "ok"
        except BaseException as e:
            r["o"], r["exc"] = "fail", exc(e)
            if j.get("tb"):
                r["tb"] = traceback.format_exc()[-1500:]
        finally:
            multi.over(k["t"])

    rs = [{} for k in j["tasks"]]
    if j["mode"] == "together":
        th = [threading.Thread(target=work, args=(k, r)) for k, r in zip(j["tasks"], rs)]
        for x in th:
            x.start()
        for x in th:
            x.join()
    else:
        for k, r in zip(j["tasks"], rs):
            for src, dst, inplace, ext in k["before"]:
                if inplace:
                    with open(src, "rb") as a, open(dst, "rb+") as b:
                        b.truncate(0)
                        b.truncate(os.path.getsize(src))
                        for o, n in ext or [[0, os.path.getsize(src)]]:
                            a.seek(o)
                            b.seek(o)
                            b.write(a.read(n))
                else:
                    os.rename(src, dst)
            work(k, r)
    res.update(outcome="ok", tasks=rs, followed=multi.followed)


KINDS = {"together": do_together, "leak": do_leak, "cli": do_cli, "copy": do_copy, "create": do_create, "offer": do_offer, "map": do_map, "trans": do_trans}


def child(j, wfd):
    res = {"id": j["id"]}
    try:
        import resource
        os.setpgid(0, 0)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        if not os.environ.get("VP_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        for k, v in (j.get("env") or {}).items():
            os.environ[k] = v
        if j.get("cwd"):
            os.chdir(j["cwd"])
        if j.get("nofile_size"):
            resource.setrlimit(resource.RLIMIT_FSIZE, (j["nofile_size"],) * 2)
        if j.get("conf"):
            if lib.vp_load(j["conf"].encode()) != 0:
                raise RuntimeError("vp_load")
        KINDS[j["what"]](j, res)
        if HAVE:
            lib.vp_disarm()
    except BaseException as e:
        res["machinery"] = traceback.format_exc()[-2000:]
    data = json.dumps(res).encode()
    while data:
        data = data[os.write(wfd, data):]
    os._exit(0)


def main():
    jobs = json.load(open(sys.argv[1]))
    import bmaptools.CLI, bmaptools.BmapCopy, bmaptools.BmapCreate, bmaptools.Filemap, bmaptools.TransRead  # imported once, inherited by fork
    import hashlib, tempfile, shutil, mmap, xml.etree.ElementTree, netrc, urllib.request, http.client, resource, xml.dom.minidom, six.moves.urllib.request, encodings.idna  # noqa
    root = os.path.realpath(bmaptools.BmapCopy.__file__)
    results, running, hangs = {}, {}, 0
    par = int(os.environ.get("VP_PAR", "8"))
    todo = list(jobs)
    maxhang = int(os.environ.get("VP_MAXHANG", "4"))
    while todo or running:
        while todo and len(running) < par:
            j = todo.pop(0)
            if hangs >= maxhang:
                results[j["id"]] = {"id": j["id"], "outcome": "skipped"}
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(j, w)
            os.close(w)
            running[r] = [pid, j, time.time(), b""]
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            b = os.read(r, 1 << 20)
            st = running[r]
            if b:
                st[3] += b
                continue
            os.close(r)
            del running[r]
            _, status = os.waitpid(st[0], 0)
            try:
                os.killpg(st[0], signal.SIGKILL)
            except OSError:
                pass
            try:
                res = json.loads(st[3])
            except ValueError:
                res = {"id": st[1]["id"], "outcome": "killed", "status": status}
            res["wall"] = round(time.time() - st[2], 3)
            results[st[1]["id"]] = res
        now = time.time()
        for r in list(running):
            st = running[r]
            if now - st[2] > st[1].get("timeout", 40):
                for k in (lambda: os.killpg(st[0], signal.SIGKILL), lambda: os.kill(st[0], signal.SIGKILL)):
                    try:
                        k()
                    except OSError:
                        pass
                os.waitpid(st[0], 0)
                os.close(r)
                del running[r]
                hangs += 1
                results[st[1]["id"]] = {"id": st[1]["id"], "outcome": "hang"}
    json.dump({"root": root, "results": results}, open(sys.argv[2], "w"))


main()
