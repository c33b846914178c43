"""C28: several pieces of work in one process do not influence each other."""
import hashlib, json, os, random, re, shutil
from . import core, content as C, copyrun as R, checks_map as M

ASSUME = ["TLC and the Java/Python runtimes", "the preload library emulates block devices and sysfs attributes as their documentation specifies"]
MI = 1 << 20


def schedules(c, n):
    out, seen = [], set()
    for mode, kinds, share in (("together", '{"copy", "steps"}', .4), ("together", '{"steps"}', .24), ("object", '{"copy"}', .16), ("path", '{"copy", "steps"}', .2)):
        r = core.tlc("Together", "TogetherSched", workers=1, args=["-simulate", "num=%d" % (n * share), "-depth", "400", "-seed", str(c.seed * 28 + 1)], defs=dict(MODES='{"%s"}' % mode, KINDS=kinds))
        for x in core.printed(r["out"], "SCENARIO "):
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(x)
    return out


def sparse_image(path, rng, var, nb, bsz=4096):
    """A sparse image and its layout."""
    ext, b = [], rng.choice([0, 0, 1, 2])
    while b < nb:
        n = min(nb - b, rng.choice([1, 1, 2, 3, 7]))
        ext.append([b, n])
        b += n + rng.choice([1, 1, 2, 5])
    size = nb * bsz - rng.choice([0, 0, 1, 2000])
    data = bytearray(nb * bsz)
    for s, n in ext:
        for k in range(s, s + n):
            data[k * bsz:(k + 1) * bsz] = C.pattern(C.tok(k, var), bsz)
    M.write_sparse(path, bytes(data[:size]), ext, bsz)
    return bytes(data[:size])


def layout(path, cls):
    runs = M.fiemap_runs(path) if cls != "FilemapSeek" else M.seek_runs(path)
    return [[a // 4096, -(-n // 4096)] for a, n in runs]


def prepare(c, i, x, dirs, rng):
    d = core.scratch().dir()
    mode, tasks, metas = x["mode"], [], []
    conf = ["log " + d + "/log"]
    sysd = os.path.join(d, "sys")
    os.mkdir(sysd)
    anybdev = False
    if mode == "together" and rng.random() < .45:
        x = dict(x, h=[])  # no order is enforced, switches at arbitrary places
    like = mode == "path" and rng.random() < .5  # files of the same size and layout, with other contents
    if like:
        x = dict(x, n=[x["n"][0]] * len(x["n"]))
    obsz = rng.choice([MI, MI // 2])
    same = mode == "together" and rng.random() < .25  # the same image file, other objects
    for t, (kind, n, fa) in enumerate(zip(x["kind"], x["n"], x["fa"]), 1):
        k = dict(t=t, before=[], n=n)
        m = dict(t=t)
        var = 0 if mode == "object" or same else t - 1
        if kind == "copy":
            k["what"] = "copy"
            bsz = obsz if mode == "object" or same else rng.choice([MI, MI // 2, 4096 * 64])
            first = t == 1 or not (mode == "object" or same) or metas[0]["what"] != "copy"
            if not first:
                bsz = metas[0]["g"].bsz
            prev = [q for q in metas if q["what"] == "copy"][-1:] if like else []
            if prev:
                bsz = prev[0]["g"].bsz
            nb = n * MI // bsz
            cut = rng.choice([0, 1, bsz // 2]) if first else metas[0]["cut"]
            if not first:
                nb = metas[0]["nb"]
            if prev:
                cut = prev[0]["cut"]
            g = C.Geometry(bsz, nb * bsz - cut)
            src = [C.tok(b, var) for b in range(nb)]
            bad = rng.random() < .12 and mode != "object" and not same
            sums = [C.tok(b, var) for b in range(nb)]
            if bad:
                src[nb - 1] = C.tok(nb - 1, 3)
            img = os.path.join(d, "image%d" % (t if first else 1))
            if not os.path.exists(img):
                C.build(img, g, src, g.isize)
            comp = rng.choice(["", "", "gz", "xz", "bz2"]) if mode != "object" and rng.random() < .5 else ""
            bm = None
            blocks = list(range(nb))
            if rng.random() < .75 or bad:
                blocks = [b for b in range(nb) if bad and b == nb - 1 or rng.random() < .7] or [0]
                ranges, cs = [], rng.random() < .8 or bad
                for b in blocks:
                    if ranges and ranges[-1][1] == b - 1 and rng.random() < .5:
                        ranges[-1][1] = b
                    else:
                        ranges.append([b, b, 1 if cs else 0])
                bm = os.path.join(d, "bmap%d" % t)
                v = rng.choice(["1.3", "1.4", "2.0"])
                hn = rng.choice(["sha256", "sha1", "sha512", "md5"]) if v != "1.3" else "sha1"
                if prev and prev[0]["bm"] and not bad:
                    (ranges, v, hn), blocks = prev[0]["bm"], prev[0]["blocks"]
                C.write_bmap(bm, g, ranges, sums, version=v, hashname=hn)
            if mode == "path":  # every piece of work finds its files under the same names
                name, bname = os.path.join(d, "image" + ("." + comp if comp else "")), os.path.join(d, "image.bmap")
                k["before"].append([M.compress(img, comp), name, "maybe" if rng.random() < .5 else False, None])
                image = name
                if bm:
                    k["before"].append([bm, bname, "maybe" if rng.random() < .5 else False, None])
                    bm = bname
            else:
                image = M.compress(img, comp)
            bdev = rng.random() < .4
            dest = os.path.join(d, "dest%d" % t)
            old = [0] * nb
            tune = []
            if bdev:
                anybdev = True
                old = [C.tok(b, 3) for b in range(nb)]
                C.build(dest, C.Geometry(bsz, nb * bsz), old, nb * bsz)
                disk = os.path.join(d, "disk%d" % t)
                os.makedirs(disk + "/queue")
                os.makedirs(disk + "/bdi")
                os.symlink("../disk%d" % t, os.path.join(sysd, "8:%d" % (16 * t)))
                for name, f, text in (("ratio%d" % t, disk + "/bdi/max_ratio", rng.choice(["100", "50", "1", "7"])),
                                      ("sched%d" % t, disk + "/queue/scheduler", rng.choice(["none [mq-deadline] bfq", "[none] bfq", "noop deadline [cfq] none"]))):
                    open(f, "w").write(text + "\n")
                    conf += ["watch %s %s" % (name, f), "sysfs %s %s" % (name, "choice" if "[" in text else "plain")]
                    tune.append((f, text))
                conf += ["watch dest%d %s" % (t, dest), "blk dest%d %d 8 %d" % (t, nb * bsz, 16 * t)]
            known = g.isize if rng.random() < .6 else None
            if bm is None and bdev:
                known = g.isize
            verify = bad or rng.random() < .8
            k.update(image=image, dest=dest, bmap=bm, kind="bdev" if bdev else "reg", transread=bool(comp) or mode == "path" or rng.random() < .3, shared=mode == "object",
                     known=known, progress=bm is not None or known is not None, verify=verify, sync=rng.random() < .5, wfault={str(fa): "EIO"} if fa else {})
            if mode == "object" and t > 1:
                k["transread"] = tasks[0]["transread"]
            m.update(what="copy", g=g, src=src, old=old, blocks=blocks, size=nb * bsz if bdev else g.isize, dest=dest, tune=tune, nb=nb, cut=cut, bad=bad, bm=(ranges, v, hn) if bm else None)
        else:
            what = rng.choice(["create", "map", "map", "trans"])
            img = os.path.join(d, "image%d" % t)
            dd, fm, sk = rng.choice([z for z in dirs if z[1] or z[2]])
            sub = os.path.join(dd, "t%d" % i)
            os.makedirs(sub, exist_ok=True)
            m["sub"] = sub
            nb = rng.choice([8, 20, 40])
            if what == "trans":
                data = C.pattern(C.tok(0, t), rng.choice([100000, 300001])) if rng.random() < .2 else random.Random(t * 1000 + i).randbytes(rng.choice([70000, 200001]))
                open(img, "wb").write(data)
                comp = rng.choice(["", "gz", "bz2", "xz", "zst", "lz4"])
                f = M.compress(img, comp)
                name = f
                if mode == "path":
                    name = os.path.join(d, "stream" + ("." + comp if comp else ""))
                    k["before"].append([f, name, "maybe" if rng.random() < .5 else False, None])
                k.update(what="trans", image=name, chunk=rng.choice([1, 1000, 8192, 60000]), skip=rng.choice([0, 0, 100, 9000]))
                m.update(what="trans", data=data)
            else:
                cls = rng.choice((["FilemapFiemap"] if fm else []) + (["FilemapSeek"] if sk else []) + [""])
                img = os.path.join(sub, "sparse%d" % (1 if same else t))
                if not os.path.exists(img):
                    sparse_image(img, rng, var, nb)
                data = open(img, "rb").read()
                nb = -(-len(data) // 4096)
                ext = layout(img, cls if cls else "FilemapFiemap" if fm else "FilemapSeek")
                name = img
                if mode == "path":
                    name = os.path.join(sub, "sparse")
                    k["before"].append([img, name, "maybe" if rng.random() < .5 else False, [[a * 4096, q * 4096] for a, q in ext]])
                hash = rng.choice(["sha256", "sha1", "sha512", "md5"])
                k.update(what=what, image=name, cls=cls, obj=rng.random() < .6, hash=hash, out=os.path.join(d, "out%d" % t))
                m.update(what=what, data=data, ext=ext, nb=nb, hash=hash)
        tasks.append(k)
        metas.append(m)
    names = set()
    for k in tasks:  # rewriting in place: only what is there
        for b in k["before"]:
            b[2] = b[2] == "maybe" and b[1] in names
            names.add(b[1])
    if anybdev:
        conf.append("redirect /sys/dev/block/ %s/" % sysd)
    open(d + "/conf", "w").write("\n".join(conf) + "\n")
    j = dict(id="tog-%d" % i, what="together", conf=d + "/conf", mode=mode, h=x["h"], tasks=tasks, timeout=40)
    return j, (x, d, tasks, metas, same)


def steps_trace(m, k, r):
    T = dict(what=m["what"], o=r.get("o", "hang"), fail=False, nb=m.get("nb", 0), map=[], src=[], old=[], dst=[], size=0, dsize=0, prog=[], tune=[], ext=m.get("ext", []), m=[], u=[], b=[],
             sums=True, reads=[])
    if m["what"] == "trans":
        for at, n, h in r.get("reads", []):
            d = m["data"]
            T["reads"].append([at, n, at if hashlib.sha1(d[at:at + n]).hexdigest() == h else -1])
        T["size"] = len(m["data"])
        T["nb"] = k["chunk"]
        T["old"] = [k["skip"], k["n"]]
    elif m["what"] == "create":
        p = M.parsed(r.get("content", ""), m["data"])
        T["m"] = p["ranges"]
        T["sums"] = not p["err"] and p["selfok"] and all(s == 1 for s in p["sums"]) and p["hash"] == m["hash"] and p["isize"] == len(m["data"])
    else:
        T["m"], T["u"], T["b"] = r.get("m", []), r.get("u", []), r.get("b", [])
    return T


def copy_trace(m, k, r):
    g = m["g"]
    buf = open(m["dest"], "rb").read() if os.path.exists(m["dest"]) else b""
    pr = [int(v) for v in re.findall(r"(-?\d+);", "".join(r.get("progress") or []))]
    return dict(what="copy", o=r.get("o", "hang"), fail=bool(r.get("fired")) or m["bad"], nb=m["nb"], map=m["blocks"], src=m["src"], old=m["old"],
                dst=[C.cell_token(buf, x, y, i) for i, (x, y) in enumerate(block_cells(m))], size=m["size"], dsize=len(buf), prog=pr,
                tune=[[current(a), current(open(f).read())] for f, a in m["tune"]], ext=[], m=[], u=[], b=[], sums=True, reads=[])


def block_cells(m):
    bsz, isz = m["g"].bsz, m["g"].isize
    return [(b * bsz, min((b + 1) * bsz, isz)) for b in range(m["nb"])]


def current(text):
    x = re.search(r"\[(\S+)\]", text)
    return x.group(1) if x else text.strip()


def run(c, xs):
    dirs = M.realdirs()
    out = []
    for k in range(0, len(xs), 100):
        ps = core.pmap(lambda z: prepare(c, z[0], z[1], dirs, random.Random(c.seed * 28000 + z[0])), list(enumerate(xs))[k:k + 100])
        res = R.run_driver([j for j, _ in ps])
        for j, (x, d, tasks, metas, same) in ps:
            r = res[j["id"]]
            if r["outcome"] == "skipped":
                continue
            rs = r.get("tasks") or [{} for _ in tasks]
            tt = []
            for q, m, a in zip(tasks, metas, rs):
                tt.append((copy_trace if m["what"] == "copy" else steps_trace)(m, q, a))
            out.append(dict(id=j["id"], family="Together-" + x["mode"] + ("-same" if same else ""), mode=x["mode"], task=tt, mixed=len({h[0] for h in x["h"][:r.get("followed", 0)]}) > 1,
                            result={"job": {z: j[z] for z in ("mode", "tasks", "h")}, "res": [{z: a.get(z) for z in ("o", "exc")} for a in rs], "outcome": r["outcome"]}))
            shutil.rmtree(d, ignore_errors=True)
            for m in metas:
                if m.get("sub"):
                    shutil.rmtree(m["sub"], ignore_errors=True)
    return out


def describe(t):
    return json.dumps({"mode": t["mode"], "tasks": [{k: v for k, v in q.items() if k not in ("before", "n")} for q in t["result"]["job"]["tasks"]], "res": t["result"]["res"], "outcome": t["result"]["outcome"]})[:1500]


def C28(c):
    c.assumptions = ASSUME
    c.model("Together", workers=8)
    c.bugs("Together", ["pos", "queue", "buffer", "stop", "count", "stale"])
    xs = schedules(c, c.pick(300, 4000))
    tr = run(c, xs)
    c.traces("TogetherTrace", tr, describe=describe)
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    for want in ("together", "object", "path", "mixed", "fail", "create", "map", "trans", "copy", "tuned"):
        if not c.exercised.get(want):
            raise core.MachineryError("never exercised: " + want)

    def some(what, o="ok", also=lambda q: True):
        for t in tr:
            for i, q in enumerate(t["task"]):
                if q["what"] == what and q["o"] == o and also(q):
                    return t, i
        raise core.MachineryError("no " + what)
    t, i = some("copy")
    c.selftest("TogetherTrace", t, lambda x: x["task"][i]["dst"].__setitem__(x["task"][i]["map"][0], 4711), "C28_data")
    c.selftest("TogetherTrace", t, lambda x: x["task"][i].__setitem__("o", "fail"), "C28_outcome")
    t, a = some("copy", also=lambda q: len(q["prog"]) > 1)
    c.selftest("TogetherTrace", t, lambda x: x["task"][a]["prog"].pop(), "C28_progress")
    t, b = some("map", also=lambda q: q["m"])
    c.selftest("TogetherTrace", t, lambda x: x["task"][b]["m"].pop(), "C28_map")
    t, e = some("trans")
    c.selftest("TogetherTrace", t, lambda x: x["task"][e]["reads"][0].__setitem__(2, -1), "C28_stream")
