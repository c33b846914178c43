"""C06 (damaged / unsupported bmap files) and C23 (the standalone writer)."""
import hashlib, json, os, random, shutil, subprocess, xml.parsers.expat
from . import core, content as C, copygen as G, copyrun as R, far
from .checks_map import ASSUME, offer, offer_trace, offer_job, check_offers, gen
from .checks_copy import uniq

UNIT = 512
TAGS = {"sha1": "BmapFileSHA1", "chksum": "BmapFileChecksum", "typo": "BmapFileChecksun"}


def image(isz):
    return b"".join(C.pattern(C.tok(i), UNIT) for i in range(isz))


def render(x, o=None, cut=0):
    """Bytes of a file of the BmapFile model. o: the file whose (now stale) self-checksum it carries, None: its own."""
    hname = "sha1" if (x if o is None else o)["tag"] == "sha1" else "sha256"
    n = len(hashlib.new(hname).hexdigest())
    csa = "sha1" if (o or x)["tag"] == "sha1" else "chksum" if (o or x)["tag"] == "chksum" else None
    data = image(max([x["isz"]] + [(r[1] + 1) * max(1, x["bsz"]) for r in x["rng"]] + [r[0] * x["bsz"] for r in x["rng"]]))

    def text(x, stored):
        s = '<?xml version="1.0" ?>\n<!-- %s -->\n<bmap%s>\n' % ("remark" if not x["body"] else "remarl", ' version="%s"' % x["ver"] if x["ver"] != "none" else "")
        s += "<ImageSize> %d </ImageSize>\n<BlockSize> %d </BlockSize>\n<BlocksCount> %d </BlocksCount>\n" % (x["isz"] * UNIT, x["bsz"] * UNIT, x["cnt"])
        s += "<MappedBlocksCount> %d </MappedBlocksCount>\n" % sum(max(0, b - a + 1) for a, b in (o or x)["rng"])
        if x["type"] != "none":
            s += "<ChecksumType> %s </ChecksumType>\n" % {"good": "sha256", "bad": "sha257", "other": "blake2s"}[x["type"]]
        if x["tag"] != "none":
            s += "<%s> %s </%s>\n" % (TAGS[x["tag"]], stored, TAGS[x["tag"]])
        s += "<BlockMap>\n"
        for k, (a, b) in enumerate(x["rng"]):
            cs = ""
            if csa:  # range checksums belong to the undamaged ranges
                oa, ob = (o or x)["rng"][k] if k < len((o or x)["rng"]) else (a, b)
                ob_ = (o or x)["bsz"]
                cs = ' %s="%s"' % (csa, hashlib.new(hname, data[oa * ob_ * UNIT:min((ob + 1) * ob_, (o or x)["isz"]) * UNIT]).hexdigest())
            s += "<Range%s> %s </Range>\n" % (cs, a if a == b else "%d-%d" % (a, b))
        return (s + "</BlockMap>\n</bmap>\n").encode()

    stored = hashlib.new(hname, text(o or x, "0" * n)).hexdigest()
    if o is not None and x["stored"] == ["other"]:
        stored = stored[:7] + ("0" if stored[7] != "0" else "1") + stored[8:]
    b = text(x, stored)
    return b if x["xml"] else b[:cut % (len(b) - 9) + 1]


def wellformed(b):
    try:
        p = xml.parsers.expat.ParserCreate()
        p.Parse(b, True)
        return True
    except (xml.parsers.expat.ExpatError, ValueError, LookupError):
        return False


def toonew(b):
    try:
        import xml.dom.minidom
        v = xml.dom.minidom.parseString(b).documentElement.getAttribute("version").split(".")
        return len(v) == 2 and v[0].isdigit() and v[1].isdigit() and int(v[0]) > 2
    except Exception:
        return False


def demand(b, base):
    """The demands on a damaged file with self-checksum."""
    return dict(must="accept" if b == base else "refuse", early=b != base, doc=not wellformed(b) or toonew(b))


def byte_cases(c, rng):
    out = []
    for ver in ("1.3", "1.4", "2.0"):
        for h in (("sha1",) if ver == "1.3" else ("sha256",) + (("md5", "sha512") if c.thorough else ())):
            for k, rs in enumerate(([[0, 1, 1], [3, 3, 1]], [[0, 4, 0]], [])):
                if not c.thorough and k == 2 and ver != "2.0":
                    continue
                geo = C.Geometry(1024, 4 * 1024 + 100)
                toks = [C.tok(i) for i in range(len(geo.cells))]
                out.append((ver, h, geo, toks, rs, "bytes-%s-%s-%d" % (ver, h, k)))
    return out


def variants(c, rng, base):
    n = len(base)
    muts = [["none"]]
    for p in range(n):
        v = {base[p] ^ 1, base[p] ^ 0x20, rng.randrange(256)} | ({48 + rng.randrange(10)} if chr(base[p]).isdigit() else set())
        if c.thorough:
            v |= {base[p] ^ (1 << k) for k in range(8)} | {0, 32, 10, 60, 62, 255}
            if chr(base[p]).isdigit():
                v |= set(range(48, 58))
        muts += [["flip", p, x] for x in sorted(v - {base[p]})]
        muts.append(["cut", p])
    for p in range(0, n + 1, c.pick(7, 1)):
        muts.append(["insert", p, rng.choice([32, 48, 49, 10, 97])])
        if p < n:
            muts.append(["delete", p])
        if p < n - 1:
            muts.append(["swap", p])
    return muts


def apply(base, m):
    if m[0] == "none":
        return base
    if m[0] == "flip":
        return base[:m[1]] + bytes([m[2]]) + base[m[1] + 1:]
    if m[0] == "cut":
        return base[:m[1]]
    if m[0] == "insert":
        return base[:m[1]] + bytes([m[2]]) + base[m[1]:]
    if m[0] == "delete":
        return base[:m[1]] + base[m[1] + 1:]
    return base[:m[1]] + base[m[1] + 1:m[1] + 2] + base[m[1]:m[1] + 1] + base[m[1] + 2:]


def C06(c):
    c.assumptions = ASSUME + ["no collision of the hash functions"]
    c.model("BmapFile", workers=8, defs={"MaxI": c.pick(4, 6)})
    c.bugs("BmapFile", ["geometry", "late", "range", "oldversion"])
    rng = random.Random(c.seed * 6 + 6)
    jobs, demands, offered = [], {}, {}
    # every state of the model, rendered
    cases = G.generate("all", c.pick(3500, 0), c.seed, module="GenBmap")
    byimg = {}
    for s in cases:
        byimg.setdefault((s["o"]["isz"]), []).append(s)
    for isz, ss in sorted(byimg.items()):
        d = core.scratch().dir()
        img = os.path.join(d, "image")
        open(img, "wb").write(image(isz))
        open(os.path.join(d, "base"), "wb").close()
        for verify in (True, False):
            muts, dem = [], []
            for k, s in enumerate(ss if verify else ss[::4]):
                b = render(s["x"], s["o"] if s["why"] == "damaged" else None, rng.randrange(10000))
                p = os.path.join(d, "m%d-%d" % (k, verify))
                open(p, "wb").write(b)
                muts.append(["file", p])
                dem.append(dict(must=s["must"], early=s["early"], doc=s["doc"], note="%s %s of %s: %s" % (s["why"], s["w"], s["o"]["ver"], json.dumps(s["x"])[:200])))
            # split so that all processors are busy
            for q in range(4):
                id = "model-%d-%d-%d" % (isz, verify, q)
                if muts[q::4]:
                    j = offer_job(id, d, img, os.path.join(d, "base"), muts[q::4], verify=verify)
                    j["tmp"] += id
                    j["dest"] += id
                    jobs.append(j)
                    demands[id], offered[id] = dem[q::4], muts[q::4]
    # damage of single bytes, truncation
    for ver, h, geo, toks, rs, id in byte_cases(c, rng):
        d = core.scratch().dir()
        img, bm = os.path.join(d, "image"), os.path.join(d, "base")
        C.build(img, geo, toks, geo.isize)
        base = C.write_bmap(bm, geo, rs, toks, version=ver, hashname=h)
        if c.thorough or id.endswith("-0"):  # as the code writes it, with all its comments
            pass
        muts = variants(c, rng, base)
        for q in range(4):
            i = "%s-%d" % (id, q)
            j = offer_job(i, d, img, bm, muts[q::4], verify=bool((q + c.seed) % 4))
            j["tmp"] += i
            j["dest"] += i
            jobs.append(j)
            demands[i] = [dict(demand(apply(base, m), base), note=json.dumps(m) + " of " + id) for m in muts[q::4]]
    # the same for a bmap made by the code itself
    d = core.scratch().dir()
    img, bm = os.path.join(d, "image"), os.path.join(d, "own.bmap")
    geo = C.Geometry(4096, 40960 - 7)
    C.build(img, geo, [C.tok(i) if i % 3 else 0 for i in range(len(geo.cells))], geo.isize)
    r = R.run_cli(["create", "-o", bm, img], cwd=d)
    if r[0] != 0:
        c.violation(["C06_create"], {"id": "own", "result": r[2].decode(errors="replace")[-500:]})
    else:
        base = open(bm, "rb").read()
        muts = variants(c, rng, base)
        if not c.thorough:
            muts = [m for m in muts if m[0] == "none" or rng.random() < .4]
        for q in range(4):
            i = "own-%d" % q
            j = offer_job(i, d, img, bm, muts[q::4])
            j["tmp"] += i
            j["dest"] += i
            jobs.append(j)
            demands[i] = [dict(demand(apply(base, m), base), note=json.dumps(m) + " of own") for m in muts[q::4]]
    # files which are not XML, and other oddities
    d = core.scratch().dir()
    img = os.path.join(d, "image")
    open(img, "wb").write(image(4))
    open(os.path.join(d, "base"), "wb").close()
    muts, dem = [], []
    for k, b in enumerate([b"", b"\0" * 4096, os.urandom(3000), b"hello\nworld\n" * 20, b"<bmap", b"<bmap version='2.0'>", b"\xff\xfe<\0", b"<a/>\n<b/>", image(4),
                           b"PK\x03\x04" + os.urandom(100), "".join("l\u00e4nge %d\n" % i for i in range(30)).encode("latin1"), b"<?xml version='1.0' encoding='utf-8'?><a>\xe4</a>", b"\n" * 10]):
        p = os.path.join(d, "x%d" % k)
        open(p, "wb").write(b)
        muts.append(["file", p])
        dem.append(dict(must="refuse", early=True, doc=True, note="not XML: %r" % b[:30]))
    jobs.append(offer_job("notxml", d, img, os.path.join(d, "base"), muts))
    demands["notxml"], offered["notxml"] = dem, muts
    res = R.run_driver(jobs)
    tr = []
    for j in jobs:
        r = res[j["id"]]
        if r["outcome"] == "skipped":
            continue
        if r["outcome"] != "ok":
            c.violation(["C06_no_answer"], {"id": j["id"], "result": r})
            continue
        offers = []
        for o, m in zip(r["offers"], demands[j["id"]]):
            offers.append(offer(o, m["must"], early=m["early"], doc=m["doc"], note=m["note"]))
        tr.append(offer_trace(j["id"], "C06", j["id"].split("-")[0], offers))
    tr += command_line(c, rng, [(j, demands[j["id"]]) for j in jobs])
    check_offers(c, tr)
    c.sample(dict(tr[0], offers=tr[0]["offers"][:6]))
    c.cov["demands"] = {k: sum(o["must"] == k for t in tr for o in t["offers"]) for k in ("refuse", "accept", "any")}
    if not c.cov["demands"]["accept"]:
        raise core.MachineryError("nothing had to be accepted")
    t = [t for t in tr if any(o["must"] == "refuse" and o["early"] and o["doc"] and o["o"] == "fail" for o in t["offers"])][0]
    i = [i for i, o in enumerate(t["offers"]) if o["must"] == "refuse" and o["early"] and o["doc"] and o["o"] == "fail"][0]
    for k, v, what in (("o", "ok", "C06_accepted"), ("w", True, "C06_written"), ("y", "internal", "C06_internal")):
        c.selftest("OfferTrace", t, lambda x: x["offers"][i].__setitem__(k, v), what)


def command_line(c, rng, jobs):
    """A part of the files goes through the command."""
    work = []
    for j, dem in jobs:
        n = c.pick(3, 30) if not j["id"].startswith("notxml") else c.pick(6, 20)
        idx = [i for i in range(len(dem)) if dem[i]["must"] != "any"]
        for i in rng.sample(idx, min(n, len(idx))):
            m = j["muts"][i]
            b = open(m[1], "rb").read() if m[0] == "file" else apply(open(j["base"], "rb").read(), m)
            work.append((len(work), j, dem[i], b))
    work = work if c.thorough else rng.sample(work, min(len(work), 110))

    def one(w):
        i, j, dem, b = w
        d = core.scratch().dir()
        bm, dest, cf = (os.path.join(d, n) for n in ("x.bmap", "dest", "conf"))
        open(bm, "wb").write(b)
        open(cf, "w").write("\n".join(["log " + cf + ".log", "watch dest " + dest]) + "\n")
        rc, so, se = R.run_cli(["copy", "--bmap", bm, j["image"], dest] + (["--no-verify"] if i % 5 == 0 else []), cf, cwd=d)
        wrote = any(x[2] == "write" and x[3] == "dest" and x[7] > 0 for x in R.read_log(cf + ".log"))
        o = ["hang" if rc is None else "ok" if rc == 0 else "fail", "error" if b"ERROR" in se else "internal", wrote]
        shutil.rmtree(d, ignore_errors=True)
        return offer_trace("cli-%d" % i, "C06", "Command", [offer(o, dem["must"], early=dem["early"], doc=dem["doc"], note=dem["note"])])
    return core.pmap(one, work)


# ------------------------------------------------------- the standalone writer
def C23(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    script = os.path.join(core.REPO, "contrib/bmap_write.py")
    fams = [G.family("Versions", c.pick(160, 4000), c.seed + 23, mode="cli"), G.family("Layout", c.pick(90, 2500), c.seed + 24, mode="cli"),
            G.family("BlockSizes", c.pick(60, 800), c.seed + 25, mode="cli"), G.family("Batches", c.pick(20, 300), c.seed + 26, mode="cli")]
    scen = []
    for s in uniq([s for f in fams for s in f]):
        if s["ranges"] is None or s["mapcnt"] is not None or s["isize"] == 0:
            continue
        scen.append(dict(s, id="w-" + s["id"], kind="reg", bad=[], srclen=None, faults=[], cap=None, oldvar=s["oldvar"]))
    scen = uniq(scen)
    rng = random.Random(c.seed + 23)
    work = list(enumerate(scen))

    def one(w):
        i, s = w
        p = R.prepare(s)
        out = os.path.join(p.dir, "written")
        if s["oldvar"]:
            shutil.copy(p.dest, out)
            if i % 2:
                os.truncate(out, os.path.getsize(out) + 70000)
        img, bm = p.image, p.bmap
        if i % 3 == 0:  # image with an extension
            os.rename(p.image, p.image + ".raw")
            img = p.image + ".raw"
            if i % 2:
                os.rename(p.bmap, p.dir + "/image.x.bmap")
                os.rename(img, p.dir + "/image.x.img")
                img, bm = p.dir + "/image.x.img", p.dir + "/image.x.bmap"
        before = [open(f, "rb").read() for f in (img, bm)]
        e = core.code_env()
        try:
            r = subprocess.run([core.PY, script, img, out], cwd=p.dir, env=e, capture_output=True, timeout=60)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = -99, b""
        wr = cells(p, out)
        rc2, so, se = R.run_cli(["copy", "--bmap", bm, img, p.dest], cwd=p.dir)
        cp = cells(p, p.dest)
        same = os.path.exists(out) and os.path.exists(p.dest) and open(out, "rb").read() == open(p.dest, "rb").read()
        t = dict(id=s["id"], family="Writer-" + s["family"], cells=p.geo.describe(), src=p.src, isize=s["isize"], ranges=[r[:2] for r in s["ranges"]], rc=rc, crc=-99 if rc2 is None else rc2,
                 w=wr[0], wsize=wr[1], d=cp[0], dsize=cp[1], same=same, inputs=before == [open(f, "rb").read() for f in (img, bm)], must="copy",
                 result={"err": err.decode(errors="replace")[-400:], "copyerr": se.decode(errors="replace")[-300:], "version": s["version"], "single": s["single"]})
        R.cleanup(p)
        return t
    tr = core.pmap(one, work)

    def miss(i):
        """image or bmap (or arguments) missing"""
        d = core.scratch().dir()
        img, bm, out = (os.path.join(d, n) for n in ("i.img", "i.bmap", "out"))
        geo = C.Geometry(4096, 20000)
        toks = [C.tok(k) for k in range(len(geo.cells))]
        if i not in (0, 2, 7):
            C.build(img, geo, toks, geo.isize)
        if i not in (1, 2, 6):
            C.write_bmap(bm, geo, [[0, 4, 1]], toks)
        if i == 6:
            os.mkdir(bm)
        if i == 7:
            os.mkdir(img)
        if i == 8:
            os.unlink(bm)
            C.write_bmap(img + ".bmap", geo, [[0, 4, 1]], toks)
        args = {3: [img], 4: [], 5: [img, out, out]}.get(i, [img, out])
        r = subprocess.run([core.PY, script] + args, cwd=d, env=core.code_env(), capture_output=True, timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        return dict(id="missing-%d" % i, family="Missing", cells=[], src=[], isize=0, ranges=[], rc=r.returncode, crc=0, w=[], wsize=0, d=[], dsize=0, same=True, inputs=True, must="error",
                    result={"out": r.stdout.decode(errors="replace")[-200:]})
    tr += core.pmap(miss, range(9))
    ft = far.writers(c, "C23", c.pick(50, 1000))
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", ft[0], lambda x: x["obs"].pop(), "C23_data")
    c.traces("WriterTrace", tr, describe=lambda t: json.dumps({k: t[k] for k in ("rc", "crc", "ranges", "isize", "wsize", "result")})[:500])
    c.sample(tr[0])
    t = [t for t in tr if t["rc"] == 0 and t["must"] == "copy" and t["ranges"]][0]
    c.selftest("WriterTrace", t, lambda x: x["w"].__setitem__(0, 99999), "C23_contents")
    c.selftest("WriterTrace", t, lambda x: x.__setitem__("wsize", 1), "C23_size")
    c.selftest("WriterTrace", tr[-1], lambda x: x.__setitem__("rc", 0), "C23_missing")


def cells(p, path):
    b = open(path, "rb").read() if os.path.exists(path) else b""
    return [C.cell_token(b, x, y, i) for i, (x, y) in enumerate(p.geo.cells)], len(b) if os.path.exists(path) else -1
