"""C29: what the command line tool says, to which stream, about what it has done."""
import hashlib, json, os, re, shutil, tempfile, urllib.parse
from . import core, content as C, copyrun as R, checks_read as RD
from .checks_cli import ASSUME, BLOCKS, BS, NBLK, SIZE, command, keys, need, state, worlds

UNITS = {"byte": 1, "bytes": 1, "KiB": 2 ** 10, "MiB": 2 ** 20, "GiB": 2 ** 30, "TiB": 2 ** 40, "PiB": 2 ** 50, "EiB": 2 ** 60}
FIGURES = r"(\d+) blocks of size (\d+) \((.*?)\), mapped (\d+) blocks \((.*?) or ([\d.]+)%\)"


def lines_of(err):
    """The messages: (level, text), as far as lines are recognised as the beginning of one."""
    out = []
    for line in re.sub(r"\x1b\[\d+m", "", err).split("\n"):
        m = re.match(r"(?:\[[^]]*\] \[[^]]*\] )?bmaptool: (\w+): ?(.*)$", line)
        if m:
            out.append([m.group(1).lower(), m.group(2)])
        elif line.strip() and out:
            out[-1][1] += "\n" + line
        elif line.strip():
            out.append(["other", line])
    return out


def size_right(text, n):
    """Whether a human readable size stands for n bytes."""
    m = re.fullmatch(r"\s*([\d.]+) (\w+)\s*", text)
    if not m or m.group(2) not in UNITS:
        return False
    u = UNITS[m.group(2)]
    v = float(m.group(1))
    return v == n if u == 1 else abs(v * u - n) <= u * 0.0501 and v >= 0.45


def percent_right(text, a, b):
    return abs(float(text) - 100 * a / b) <= 0.0501


def figures_right(m, isize, bsz, mapped):
    n = -(-isize // bsz)
    return (int(m.group(1)), int(m.group(2)), int(m.group(4))) == (n, bsz, mapped) and size_right(m.group(3), isize) and size_right(m.group(5), mapped * bsz) and percent_right(m.group(6), mapped, n)


def seconds(text):
    m = re.fullmatch(r"(?:(\d+)h )?(?:(\d+)m )?([\d.]+)s", text)
    return m and 3600 * int(m.group(1) or 0) + 60 * int(m.group(2) or 0) + float(m.group(3))


def said(w, own, names, rc, out, err, r):
    """The statements in the messages of a run of the copy command, as SaidTrace has them."""
    K = keys()
    s = dict(found=[], sig=[], verified=[], failed=[], figures=[], whole=False, sync=False, done=False, error=False)
    time_ok, noise = True, False
    using = []
    for level, text in lines_of(err):
        if level not in ("error", "warning"):
            noise = True
        if level == "error":
            s["error"] = True
        if level == "debug":
            continue
        m = re.match(r"discovered bmap file '(.*)'$", text)
        if m:
            s["found"].append(names["found"].get(m.group(1), 999))
        m = re.match(r"discovered signature file.* '(.*)'$", text)
        if m:
            s["sig"].append(m.group(1)[-3:] if m.group(1) in (names["bmap"] + ".asc", names["bmap"] + ".sig") else "?")
        m = re.search(r"verified .*signature of (.*) <(.*)> \(fingerprint (\w+)\)", text)
        if m:
            k = K.prints.get(m.group(3).upper(), "?")
            s["verified"].append(k if k != "?" and m.group(1) == K.TITLE[k] and m.group(2) == k + "@x" else "?")
        elif re.search(r"success\w* verif|verif\w+ success|valid signature of", text):
            s["verified"].append("?")
        m = re.search(r"signature verification failed \(fingerprint (\w+)\)", text)
        if m:
            s["failed"].append(K.prints.get(m.group(1).upper(), "?"))
        m = re.search(FIGURES, text)
        if m:
            same = [100 if k == "given" else 1 + k for k in BLOCKS if k != "evil" and figures_right(m, SIZE, BS, len(BLOCKS[k]))]
            if w["emb"] == "altered" and figures_right(m, SIZE, BS, len(BLOCKS["evil"])) and own is not None:
                same = [100 if own == "given" else 1 + own]
            s["figures"].append(same[0] if len(same) == 1 else 999)
        if text.startswith("copying image "):
            using.append("'%s'" % os.path.basename(names["image"]) in text and "'%s'" % os.path.basename(names["bmap"]) in text and (
                w["alias"] != "no" or ("block device" in text) == (w["dest"] == "bdev")))
        s["whole"] |= "copy entire image" in text
        s["sync"] |= text.startswith("synchronizing")
        m = re.match(r"copying time: (.*), copying speed (.*)/sec", text)
        if m:
            s["done"] = True
            t, v = seconds(m.group(1)), re.fullmatch(r"([\d.]+) (\w+)", m.group(2))
            wall = r.get("elapsed", r.get("wall", 0))
            n = SIZE if s["whole"] else BS * (len(BLOCKS["evil" if w["emb"] == "altered" else own]) if own is not None else 0)
            if t is None or v is None or v.group(2) not in UNITS:
                time_ok = False
            else:
                v = float(v.group(1)) * UNITS[v.group(2)]
                time_ok = t <= wall + .051 and (v + 1) * wall * 1.06 + 1 >= n * .99
                if w["end"] == "slow":
                    time_ok &= t >= .3 and .75 * n <= (v + 1) * t and v * t <= 1.25 * n
    if not all(using) or len(using) != len(s["figures"]):
        s["figures"].append(999)
    return dict(said=s, out=out != "", noise=noise, time=bool(time_ok), end=w["end"],
                result={"argv": r.get("argv"), "rc": rc, "out": out[:200], "err": re.sub(r"\x1b\[\d+m", "", err)[-1500:], "wall": r.get("wall")})


# ------------------------------------------------------------------ create
def creates(c, envs):
    """(layout, -o, fault, quiet) -> traces; each image is described twice, to a file by one run and somewhere by the other."""
    top = core.scratch().dir()
    jobs, info = [], []
    for i, (lay, o, fail, q) in enumerate(envs):
        d = os.path.join(top, "c%d" % i)
        os.mkdir(d)
        image = os.path.join(d, ["image.img", "i mage", "100%d.raw"][i % 3])
        n = 20
        with open(image, "wb") as f:
            f.truncate(n * BS - (i % 3) * 100)
            for x, y in {"all": [(0, n)], "some": [(0, 3), (7, 9), (15, 20)], "none": [], "one": [(4, 5)]}[lay]:
                f.seek(x * BS)
                f.write(RD.payload((y - x) * BS, x)[:n * BS - (i % 3) * 100 - x * BS])
        dest = d + "/the bmap"
        conf = d + "/conf"
        lines = ["watch image " + image]
        if fail == "read":
            lines.append("fault image read 1 errno 5")
        if fail == "fiemap":
            lines.append("fault image fiemap 2 errno 5")
        if fail == "full":
            lines += ["watch dest " + dest, "fault dest write 1 errno 28"]
        open(conf, "w").write("\n".join(lines) + "\n")
        if fail == "full":
            open(dest, "w").close()
        if fail == "missing":
            image += ".x"
        args = ["--quiet"] * q + ["create", image]
        jobs += [R.cli_job("ref-%d" % i, args + ["-o", d + "/ref"], d, d + "/cli0"), R.cli_job("said-%d" % i, args + (["-o", dest] if o else []), d, d + "/cli", conf)]
        info.append((lay, o, fail, q, d, n * BS - (i % 3) * 100, image))
    res = R.run_driver(jobs)
    tr = []
    for i, (lay, o, fail, q, d, size, image) in enumerate(info):
        rc, out, err = R.cli_result(res["said-%d" % i])
        ref = open(d + "/ref").read() if os.path.exists(d + "/ref") else "?"
        got = open(d + "/the bmap").read() if os.path.exists(d + "/the bmap") else ""
        what = lambda x: "no" if x == "" else "bmap" if x == ref else "other"
        msgs = lines_of(err)
        blocks = -(-size // BS)
        mapped = {"all": blocks, "some": 10, "none": 0, "one": 1}[lay]
        tr.append(dict(id="said-%d" % i, key="saidcreate-%s-%s-%s-%s" % (lay, o, fail, q), family="create", cmd="create", o="hang" if rc is None else "ok" if rc == 0 else "fail", file=bool(o), out=what(out),
                       written=what(got), all=mapped == blocks, warned=any(l == "warning" and "mapped" in t for l, t in msgs), error=any(l == "error" for l, t in msgs),
                       figures=rc != 0 or comments_right(got if o else out, size, mapped), result={"argv": res["said-%d" % i].get("argv"), "rc": rc, "err": err[-500:], "out": out[:100]}))
        shutil.rmtree(d, ignore_errors=True)
    return tr


def comments_right(text, size, mapped, bsz=BS):
    a, b = re.search(r"Image size in bytes: (.*?)\s*-->", text), re.search(r"Count of mapped blocks: (.*?) or ([\d.]+)%\s*-->", text)
    return bool(a and b and size_right(a.group(1), size) and size_right(b.group(1), mapped * bsz) and percent_right(b.group(2), mapped, -(-size // bsz)))


# ------------------------------------------------------------------ figures of images of any size
def figures(c, xs):
    top = tempfile.mkdtemp(prefix="vp-said-", dir="/dev/shm")
    jobs, info, tr = [], [], []
    try:
        for i, x in enumerate(xs):
            d = os.path.join(top, "f%d" % i)
            os.mkdir(d)
            bsz = 4096 if x["what"] == "create" else 1 << x["b"]
            size = (1 << x["e"]) + {"-1": -1, "0": 0, "1": 1, "half": (1 << x["e"]) // 2}[x["d"]]
            size = max(size, 1)
            n = -(-size // bsz)
            mapped = sorted({"first": {0}, "last": {n - 1}, "both": {0, n - 1}}[x["m"]])
            with open(d + "/image", "wb") as f:
                f.truncate(size)
                for b in mapped:
                    f.seek(b * bsz)
                    f.write(b"\x07" * min(bsz, size - b * bsz))
            if x["what"] == "copy":
                g = C.Geometry(bsz, 1, 1)
                C.write_bmap(d + "/m", g, [[b, b, hashlib.sha256(b"\x07" * min(bsz, size - b * bsz)).hexdigest()] for b in mapped], isize=size, blocks=n)
                jobs.append(R.cli_job("fig-%d" % i, ["copy", "--bmap", d + "/m", d + "/image", d + "/dest"], d, d + "/cli"))
            else:
                jobs.append(R.cli_job("fig-%d" % i, ["create", d + "/image", "-o", d + "/m"], d, d + "/cli"))
            info.append((x, d, size, bsz, len(mapped)))
        res = R.run_driver(jobs)
        for i, (x, d, size, bsz, m) in enumerate(info):
            rc, out, err = R.cli_result(res["fig-%d" % i])
            if x["what"] == "copy":
                f = re.search(FIGURES, err)
                s = "none" if not f else "right" if figures_right(f, size, bsz, m) else "wrong"
            else:
                s = "none" if rc != 0 else "right" if comments_right(open(d + "/m").read(), size, m) else "wrong"
            tr.append(dict(id="fig-%d" % i, key="fig-%s-%s-%s-%s-%s" % (x["what"], x["e"], x["d"], x["b"], x["m"]), family="figures", cmd="figures", o="hang" if rc is None else "ok" if rc == 0 else "fail",
                           said=s, must=rc == 0, result={"x": x, "size": size, "rc": rc, "err": err[-700:]}))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return tr


def C29(c):
    c.assumptions = ASSUME + ["GnuPG verifies signatures correctly", "messages are recognised by their wording"]
    for part in ("choice", "sign"):
        c.model("CopyCommand", workers=8, defs=dict(Part='"%s"' % part))
    c.bugs("CopyCommand", ["noisy", "silent", "firstname", "figures", "nosync"])
    c.bugs("CopyCommand", ["early", "forget", "othersig"], defs=dict(Part='"sign"'))
    tr = command(c, "C29", worlds("Ends", c.pick(260, 3000), c.seed * 29), "ends", said)
    slow = [w for w in worlds("Ends", 3000, c.seed * 29 + 4) if w["end"] == "slow"]
    slow = [dict(w, shape=w["shape"] // 4 * 4 + i % 4) for i, w in enumerate(slow)]  # all paces
    tr += command(c, "C29", slow[:c.pick(24, 200)], "slow", said)
    tr += command(c, "C29", worlds("Sign", c.pick(150, 0) or 10 ** 6, c.seed * 29 + 1), "sign", said)
    tr += command(c, "C29", worlds("Signs", c.pick(60, 2000), c.seed * 29 + 2), "signs", said)
    tr += command(c, "C29", worlds("Choice", c.pick(120, 3000), c.seed * 29 + 3), "choice", said)
    show = lambda t: json.dumps({k: t.get(k) for k in ("w", "end", "o", "used", "said", "out", "noise", "time", "all", "warned", "error", "figures", "written", "result")})[:1800]
    c.traces("SaidTrace", tr, describe=show)
    cr = creates(c, [(l, o, f, q) for l in ("all", "some", "none", "one") for o in (0, 1) for f in ("", "read", "missing", "full", "fiemap") for q in (0, 1) if (f, o) != ("full", 0)])
    cr += figures(c, worlds("Figures", c.pick(150, 2000), c.seed * 29 + 4))
    c.traces("SaidTrace", cr, describe=show)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    need(c, "by_good", "by_other", "by_sub", "not_untrusted", "end_read", "end_write2", "whole", "bmap_figures", "found", "quiet", "sync_only", "end_sum", "end_slow", "end_sigwrite", "end_sigfsync", "warned", "not_warned", "figures")
    ok = [t for t in tr if t["o"] == "ok" and t["said"]["figures"] and t["said"]["verified"] == ["good"] and t["w"]["emb"] == "no"][0]
    c.selftest("SaidTrace", ok, lambda x: x["said"].__setitem__("verified", ["good", "unknown"]), "C29_verified")
    c.selftest("SaidTrace", ok, lambda x: x["said"].__setitem__("verified", []), "C29_verified")
    c.selftest("SaidTrace", ok, lambda x: x["said"].__setitem__("figures", [999]), "C29_figures")
    c.selftest("SaidTrace", ok, lambda x: x["said"].__setitem__("done", False), "C29_completion")
    c.selftest("SaidTrace", ok, lambda x: x["said"].__setitem__("error", True), "C29_error")
    c.selftest("SaidTrace", ok, lambda x: x["w"].__setitem__("quiet", True), "C29_quiet")
    c.selftest("SaidTrace", [t for t in tr if t["o"] == "fail"][0], lambda x: x["said"].__setitem__("error", False), "C29_error")
    c.selftest("SaidTrace", [t for t in tr if t["o"] == "fail"][0], lambda x: x["said"].__setitem__("done", True), "C29_done")
    c.selftest("SaidTrace", [t for t in cr if t["cmd"] == "create" and t["all"]][0], lambda x: x.__setitem__("warned", False), "C29_warning")
