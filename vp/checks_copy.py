"""The checks of the copy properties: model of the pipeline, scenario families, trace validation."""
import json, random
from . import core, copyrun as R, copygen as G, far
from .content import VERSIONS

MI = 1 << 20
ASSUME = ["TLC and the Java/Python runtimes", "the preload library reports the system calls of the process faithfully (a mismatch with the final file is reported)",
          "block devices are emulated: a regular file presented with block-device metadata, capacity, exclusive-open and fsync semantics",
          "fsync of the kernel makes data stable"]


def seed(c, k=0):
    return c.seed * 1000 + k


def fam(c, name, quick, thorough, **kw):
    return G.family(name, c.pick(quick, thorough), seed(c, len(name)), **kw)


def bug(c, name, cfg="MCPipeline"):
    c.model("MCPipeline", cfg, expect=False, workers=8, defs={"BUG": '"%s"' % name})


def run(c, scenarios, again=False, cli=False):
    scenarios = uniq(scenarios)
    tr = R.run_cli_copies(scenarios, again) if cli else R.run_again(scenarios) if again else R.run_api(scenarios)
    c.traces("CopyTrace", tr, describe=describe)
    for t in tr[:1]:
        c.sample(brief(t))
    return tr


def uniq(scenarios):
    ids = {}
    for s in scenarios:
        n = ids.get(s["id"], 0)
        ids[s["id"]] = n + 1
        if n:
            s["id"] += ".%d" % n
    return scenarios


def brief(t):
    x = {k: t.get(k) for k in ("id", "kind", "bsz", "isize", "srclen", "known", "bm", "verify", "sync", "cap", "result")}
    x["events"] = [{k: v for k, v in e.items() if v not in ([], "", 0)} for e in t["events"][:25]]
    return x


def describe(t):
    return json.dumps({k: t.get(k) for k in ("kind", "bsz", "isize", "srclen", "known", "hasbmap", "verify", "sync", "cap", "result")})[:600]


def corrupt_data(t):
    for e in t["events"]:
        if e["op"] == "write" and e["v"]:
            e["v"][-1] = 77777
    t["events"][-1]["v"] = [77777 if x > 0 else x for x in t["events"][-1]["v"]]


def ok_trace(tr, pred=lambda t: True):
    for t in tr:
        if any(e["op"] == "ret" and e["x"] == "ok" for e in t["events"]) and any(e["op"] == "write" and e["v"] for e in t["events"]) and pred(t):
            return t
    raise core.MachineryError("no successful trace to corrupt")


def cli_some(c, names, n, **kw):
    """A few scenarios of the families through the command; regular files and emulated devices."""
    out = []
    for k, name in enumerate(names):
        for i, p in enumerate(G.generate(name, n, seed(c, 500 + k))):
            p = dict(p, dm="trunc", via="wrap")
            s = G.scen(p, "cli-%s-%d" % (name, i), "cli-" + name, **kw)
            s["pass_known"] = True
            s["sync"] = True
            s["timeout"] = 60
            out.append(s)
    return out


def C01(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    bug(c, "offset")
    tr = run(c, fam(c, "Layout", 250, 5000) + fam(c, "Batches", 150, 3000) + fam(c, "BlockSizes", 120, 1500) +
             [s for s in fam(c, "Short", 110, 0) if s["ranges"] is not None] + fam(c, "Longer", 80, 1500) +
             [s for s in fam(c, "Wild", 180, 8000) if s["ranges"] is not None])
    run(c, cli_some(c, ["Layout", "Wild"], c.pick(14, 80)), cli=True)
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["hasbmap"]), corrupt_data, "C01_data")
    t = ok_trace(tr, lambda t: t["kind"] == "reg")

    def grow(x):
        x["events"][-1]["sz"] += 1
    c.selftest("CopyTrace", t, grow, "C01_size")
    ft = far.copies(c, "C01", c.pick(60, 1500))
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", [t for t in ft if t["obs"]][0], lambda x: x["obs"].pop(), "C01_data")


def C02(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    bug(c, "offset")
    hb = lambda l: [s for s in l if s["ranges"] is not None]
    tr = run(c, fam(c, "Layout", 200, 4000, prefix="l", oldvar=1) + fam(c, "Batches", 120, 2500) + hb(fam(c, "Faults", 60, 0)) +
             hb(fam(c, "FaultsSmall", 100, 0)) + hb(fam(c, "Misfit", 80, 1500)) + hb(fam(c, "Short", 60, 0)))
    run(c, crashes(c, c.pick(40, 400)), again=True)
    run(c, cli_some(c, ["Layout", "Batches"], c.pick(4, 40), kind="bdev"), cli=True)

    def outside(x):
        e = [e for e in x["events"] if e["op"] == "write"][-1]
        e["out"] = 5
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["hasbmap"]), outside, "C02_outside")

    def final(x):
        b = {k for r in x["bm"]["ranges"] for k in range(r[0], r[1] + 1)}
        i = [i for i, cell in enumerate(x["cells"]) if cell[0] not in b][0]
        x["events"][-1]["v"][i] = 4711
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["hasbmap"] and t["kind"] == "bdev" and t["bm"]["mapped"] < t["bm"]["blocks"]), final, "C02_(kept|hidden)")
    ft = far.copies(c, "C02", c.pick(50, 1000), 1)
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", [t for t in ft if t["kind"] == "bdev" and t["old"]][0], lambda x: [o.__setitem__(2, "other") for o in x["obs"] if o[2] == "old"], "C02_kept")


def C03(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    bug(c, "shortread")
    nb = lambda l: [s for s in l if s["ranges"] is None]
    tr = run(c, fam(c, "NoBmap", 280, 6000) + nb(fam(c, "Wild", 400, 4000)) + fam(c, "NoBmapBig", 60, 0) + nb(fam(c, "Short", 140, 0)))
    run(c, cli_some(c, ["NoBmap"], c.pick(10, 80)), cli=True)
    c.selftest("CopyTrace", ok_trace(tr), corrupt_data, "C03_data")


def C04(c):
    c.assumptions = ASSUME + ["hashlib implements the hash functions"]
    c.model("MCPipeline", workers=8)
    bug(c, "nosum")
    tr = run(c, fam(c, "Sums", 350, 6000) + fam(c, "SumsHash", 200, 0))
    run(c, cli_some(c, ["Sums", "SumsHash"], c.pick(5, 50)), cli=True)

    def flip(x):
        i = [i for i, cell in enumerate(x["cells"]) if any(r[0] <= cell[0] <= r[1] and r[2] for r in x["bm"]["ranges"])][0]
        x["src"][i] = 4711
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["verify"] and t["cssup"] and any(r[2] == 1 for r in t["bm"]["ranges"])), flip, "C04_accepted")
    ft = far.copies(c, "C04", c.pick(30, 600), 4, ("sum",))
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", ft[0], lambda x: x.__setitem__("o", "ok"), "C04_accepted")


def C05(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    bug(c, "nocount")
    bug(c, "shortread")
    sc = fam(c, "Misfit", 450, 8000)
    rng = random.Random(seed(c, 5))
    # a known size that differs from the bmap's
    for i in range(c.pick(40, 400)):
        nb, bsz = rng.choice([3, 5]), rng.choice([4096, 524288])
        isz = nb * bsz - rng.choice([0, 1, 100])
        other = isz + rng.choice([-bsz, -1, 1, bsz, 4 * bsz])
        sc.append(R.scenario("known-%d" % i, family="KnownSize", kind=rng.choice(["reg", "bdev"]), bsz=bsz, isize=isz, ranges=[[0, rng.randrange(nb), 1]],
                             known=other, verify=rng.random() < .5, srclen=rng.choice([isz, other]), cap=isz + 5 * bsz))
    tr = run(c, sc)
    run(c, [s for s in cli_some(c, ["Misfit"], c.pick(14, 100)) if s["ranges"] is not None], cli=True)

    def cut(x):
        x["srclen"] -= x["bsz"]
        x["bm"]["mapped"] += 0
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["hasbmap"] and any(r[1] == t["bm"]["blocks"] - 1 for r in t["bm"]["ranges"])), cut, "C05_truncated")

    def count(x):
        x["bm"]["mapped"] += 1
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["hasbmap"]), count, "C05_count")
    ft = far.copies(c, "C05", c.pick(48, 900), 5, ("cut", "size+", "size-", "count"))
    c.traces("FarTrace", ft, describe=far.tell)
    c.selftest("FarTrace", ft[0], lambda x: x.__setitem__("o", "ok"), "C05_accepted")


def C07(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    bug(c, "ignoreread")
    bug(c, "ignoresync")
    tr = run(c, fam(c, "Faults", 150, 0) + fam(c, "FaultsSmall", 200, 0) + api_faults(c, c.pick(60, 600)))
    cli = []
    for name in ("Faults", "FaultsSmall"):
        ps = G.generate(name, c.pick(14, 120), seed(c, 77))
        for i, p in enumerate(ps):
            cli.append(G.scen(p, "cli-%s-%d" % (name, i), "cli-" + name, pass_known=True))
    run(c, cli, cli=True)
    from . import checks_cli
    checks_cli.memory(c)

    def accept(x):
        for e in x["events"]:
            if e["op"] == "ret":
                e["x"] = "ok"
    t = [t for t in tr if any(e["op"] == "fault" for e in t["events"])][0]
    c.selftest("CopyTrace", t, accept, "C07_success")


def api_faults(c, n):
    """Failures raised by the image or destination object itself, at any of its calls."""
    rng = random.Random(seed(c, 7))
    out = []
    for i in range(n):
        k = rng.choice(["reg", "bdev"])
        nb = rng.choice([3, 9, 18])
        m = None if rng.random() < .3 else [[0, nb - 1, 1]] if rng.random() < .5 else [[0, 0, 1], [2, nb - 1, 1]]
        f = {str(rng.choice([1, 1, 2, 3, 4, 7, 8, 9])): rng.choice(["EIO", "error"])}
        out.append(R.scenario("apif-%d" % i, family="ApiFaults", kind=k, bsz=524288, isize=nb * 524288 - rng.choice([0, 1]), ranges=m, pass_known=rng.random() < .6,
                              verify=rng.random() < .5, **{rng.choice(["rfault", "wfault"]): f}))
    return out


def C08(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", "MCPipelineLong", workers=8)
    bug(c, "nosync")
    bug(c, "nowatermark", "MCPipelineLong")
    tr = run(c, fam(c, "Sync", 70, 0) + fam(c, "Layout", 150, 3000) + fam(c, "NoBmap", 100, 1500) + fam(c, "Batches", 50, 1000) + big_blocks(c))
    run(c, cli_some(c, ["Layout", "NoBmap", "Batches"], c.pick(5, 50)) + cli_some(c, ["Sync"], c.pick(4, 30)), cli=True)

    def nosync(x):
        x["events"] = [e for e in x["events"] if e["op"] != "fsync"]
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["sync"]), nosync, "C08_notsynced")
    c.selftest("CopyTrace", ok_trace(tr, lambda t: t["kind"] == "bdev" and t["isize"] > 12 * MI), nosync, "C08_unsynced")


def big_blocks(c):
    return [R.scenario("bb-%d-%s" % (b, k), family="BigBlocks", kind=k, bsz=b * MI, isize=b * MI * 4 - 5, ranges=[[0, 3, 1]]) for b in (2, 7) for k in ("bdev", "reg")]


def C09(c):
    c.assumptions = ASSUME + ["interleavings are forced at the granularity of image reads and destination writes"]
    c.model("MCPipeline", workers=8)
    c.model("MCPipeline", "MCPipelineLong", workers=8)
    bug(c, "unbounded", "MCPipelineLong")
    n = c.pick(130, 2500)
    sc = G.schedules(n, c.seed)
    tr = run(c, sc)
    f = sum(t["result"]["followed"] or 0 for t in tr)
    tot = sum(t["result"]["sched"] or 0 for t in tr)
    c.cov["schedule_steps"] = {"enforced": f, "of": tot}
    # the writer stands still: how far does the reader run ahead?
    st = []
    for i, (k, b, m, kn) in enumerate([(k, b, m, kn) for k in ("reg", "bdev") for b in (4096, MI, 700000) for m in (0, 1) for kn in (0, 1)]):
        if b == 4096 and not c.thorough and kn:
            continue
        nb = 20 * MI // b
        rng = [[0, nb - 1, 1]] if b > 4096 else [[0, nb // 2, 1], [nb // 2 + 2, nb - 1, 1]]
        st.append(R.scenario("stall-%d" % i, family="Stall", kind=k, bsz=b, isize=nb * b - 7, ranges=rng if m else None, pass_known=bool(kn), stall=[1 + i % 4, 0.4],
                             isched=True, bpc=1 if m else 200 if b == 4096 else 1, timeout=60) if not (m and b == 4096) else
                  R.scenario("stall-%d" % i, family="Stall", kind=k, bsz=65536, isize=20 * MI - 7, ranges=[[0, 100, 1], [102, 319, 1]], pass_known=bool(kn),
                             stall=[1 + i % 4, 0.4], isched=True, timeout=60))
    tr2 = run(c, st)

    def ahead(x):
        e = [e for e in x["events"] if e["op"] == "got"][0]
        e["n"] += 9 * MI
    c.selftest("CopyTrace", tr2[0], ahead, "C09_inflight")


def C20(c):
    c.assumptions = ASSUME
    c.model("MCPipeline", workers=8)
    sc = fam(c, "Progress", 220, 0, progress=True)
    for s in sc:
        if s["ranges"] is not None or s["pass_known"]:
            s["wantpct"] = True
    tr = run(c, sc)
    run(c, psplash(c))
    # the command on a terminal, with a psplash pipe, or both
    cl = [dict(s, id="tty-%d" % i, progress=i % 3 != 1, psplash=["", "read", "read", "", "unread", "full", "", "missing", "file"][i % 9] or None, kind="bdev" if i % 4 == 3 else "reg",
               wantpct=i % 3 != 1 or i % 9 == 1, pass_known=True, guard="C20", plain=False, raw="", transread=False, destmode="wb+", destpos=0, fresh=True, cap=None)
          for i, s in enumerate(fam(c, "Progress", c.pick(36, 300), 0))]
    run(c, cl, cli=True)

    def back(x):
        e = [e for e in x["events"] if e["op"] == "pct"]
        e[-1]["n"] = 99 if len(e) == 1 else e[-2]["n"] - 1
    t = ok_trace(tr, lambda t: sum(e["op"] == "pct" for e in t["events"]) > 2)
    c.selftest("CopyTrace", t, back, "C20_decrease")

    def lie(x):
        e = [e for e in x["events"] if e["op"] == "pct"][0]
        e["n"] = 60 if e["n"] < 50 else 20
    c.selftest("CopyTrace", t, lie, "C20_share")


def psplash(c):
    """A psplash pipe that is missing, not a pipe, unread, read, or closed half-way never matters."""
    out = []
    n = 0
    for mode in ("missing", "file", "dir", "unread", "read", "closing", "removed", "full"):
        for k in ("reg", "bdev"):
            for m in ([[0, 17, 1]], [[0, 3, 1], [6, 17, 1]], None):
                out.append(R.scenario("psplash-%d" % n, family="Psplash-" + mode, kind=k, bsz=524288, isize=18 * 524288 - 3, ranges=m, pass_known=m is not None or n % 2 == 0,
                                      psplash=mode, guard="C20", wantpct=mode == "read" and (m is not None or n % 2 == 0)))
                n += 1
    return out


def C22(c):
    c.assumptions = ASSUME + ["after a crash of the process alone the kernel keeps what was written (no power loss)"]
    c.model("MCPipeline", "MCPipelineCrash", workers=8)
    c.model("RepeatedCopy", workers=8)
    c.bugs("RepeatedCopy", ["leftover", "nojoin"])
    again = run(c, retries(c, c.pick(110, 1500)))
    if not [t for t in again if sum(e["op"] == "ret" for e in t["events"]) == 2]:
        raise core.MachineryError("no repeated copies")
    tr = run(c, crashes(c, c.pick(200, 2500)), again=True)
    run(c, [dict(s, id="cli-" + s["id"], pass_known=True) for s in crashes(c, c.pick(16, 150), 9)], again=True, cli=True)

    def left(x):
        for e in x["events"]:
            if e["op"] == "leftover":
                e["n"] = 1
    c.selftest("CopyTrace", tr[0], left, "C22_leftover")
    t = [t for t in tr if t["kind"] == "bdev" and any(e["op"] == "again" for e in t["events"]) and t["result"]["outcome"] == "ok"][0]

    def wrong(x):
        k = [i for i, e in enumerate(x["events"]) if e["op"] == "again"][0]
        for e in x["events"][k:]:
            if e["op"] == "write" and e["v"]:
                e["v"][0] = 4711
        if not any(e["op"] == "write" and e["v"] for e in x["events"][k:]):
            x["old"] = [4711] * len(x["old"])
            for e in x["events"][:k]:
                e["c"], e["v"] = [], []
    c.selftest("CopyTrace", t, wrong, "C22_result|C01_data|C03_data")


def retries(c, n):
    """A copy repeated at once with the same image and destination objects (a copy object is used once), after a failure or a success."""
    rng = random.Random(seed(c, 221))
    r = core.tlc("RepeatedCopy", "RepeatedCopySched", workers=1, args=["-simulate", "num=%d" % n, "-depth", "300", "-seed", str(c.seed)])
    out, seen = [], set()
    for x in core.printed(r["out"], "SCENARIO "):
        k = json.dumps(x, sort_keys=True)
        if k in seen:
            continue
        seen.add(k)
        kind = rng.choice(["reg", "bdev"])
        d = dict(family="Retry", kind=kind, bsz=rng.choice([MI, 524288, 2 * MI]), retry="new", rdelay=rng.choice([0, .002, .002, .004]),
                 gate="".join(x["h"]) if rng.random() < .5 else "", verify=rng.random() < .8, sync=rng.random() < .7)
        nb = x["n"] * max(1, MI // d["bsz"])
        d["isize"] = nb * d["bsz"] - rng.choice([0, 1, d["bsz"] // 2])
        f = rng.random()
        if x["fa"] and f < .75:
            d["wfault"] = {str(x["fa"]): rng.choice(["EIO", "EIO", "error"])}
        elif x["fa"] and f < .85:
            d["faults"] = [["dest", "write", x["fa"], "errno", rng.choice([5, 28])]]
            d["gate"] = ""
        elif x["fa"]:
            d["rfault"] = {str(max(1, x["fa"] - 1)): "EIO"}
            d["gate"] = ""
        if not x["each"]:
            d["pass_known"] = True
            if rng.random() < .7:
                d["ranges"] = [[0, nb - 1, 1]] if nb < 4 or rng.random() < .5 else [[0, nb // 2 - 1, 1], [nb // 2 + 1, nb - 1, 1]]
        if kind == "bdev":
            d["cap"] = nb * d["bsz"]
        out.append(R.scenario("retry-%d" % len(out), **d))
    return out


def crashes(c, n, k=0):
    """Kill (or fail) the first run at its n-th write / read / fsync / ftruncate, possibly within a write."""
    rng = random.Random(seed(c, 22 + k))
    out = []
    for i in range(n):
        kind = rng.choice(["reg", "bdev"])
        bsz = rng.choice([4096, 262144, 524288, MI])
        nb = rng.choice([4, 7, 15]) if bsz > 4096 else rng.choice([6, 40])
        m = None
        if rng.random() < .75:
            m, b = [], rng.choice([0, 0, 1])
            while b < nb:
                e = min(nb - 1, b + rng.choice([0, 0, 1, 2, 5]))
                m.append([b, e, 1])
                b = e + 2 + rng.choice([0, 0, 1, 3])
        f = rng.choice([["dest", "write", rng.choice([1, 1, 2, 2, 3, 4, 6]), "kill"], ["dest", "write", rng.choice([1, 2, 3, 5]), "torn", rng.choice([1, 512, 4096, 5000, 100000])],
                        ["dest", "fsync", rng.choice([1, 2]), "kill"], ["image", "read", rng.choice([1, 2, 3, 5, 8]), "kill"], ["dest", "write", rng.choice([1, 2, 4]), "errno", 5],
                        ["dest", "fsync", 1, "errno", 5], ["image", "read", rng.choice([1, 3]), "errno", 5]] +
                       ([["dest", "ftruncate", rng.choice([1, 2]), "kill"]] if kind == "reg" else []))
        # a longer or shorter old file
        isz = nb * bsz - rng.choice([0, 1, 777])
        d = dict(oldvar=rng.choice([None, 1]), oldlen=rng.choice([None, 3, isz + 10000])) if kind == "reg" else dict(cap=nb * bsz + rng.choice([0, 4096]))
        if kind == "reg" and rng.random() < .5:
            d["destmode2"] = "rb+"
        if rng.random() < .5:
            d["zero"] = [b for b in range(nb) if rng.random() < .4]
        out.append(R.scenario("crash-%d" % i, family="Crash", kind=kind, bsz=bsz if m is not None else 4096, isize=isz, ranges=m, pass_known=rng.random() < .5, faults=[f],
                              bpc=1 if m is not None or bsz == 4096 else bsz // 4096, verify=rng.random() < .7, **d))
    return out


def C25(c):
    c.assumptions = ASSUME
    sc = fam(c, "Versions", 450, 9000, vary=True)
    tr = R.run_api(sc)
    for t in tr:
        geometry(t)
    c.traces("CopyTrace", tr, describe=describe)
    c.sample(brief(tr[0]))
    c.model("MCPipeline", workers=8)
    bug(c, "nosum")

    def wrong(x):
        for e in x["events"]:
            if e["op"] == "geo":
                e["v"][2] += 1
    c.selftest("CopyTrace", ok_trace(tr), wrong, "C25_geometry")


def geometry(t):
    """The geometry the API reports, as an event before everything else."""
    g = t["result"].get("geo")
    if g:
        pct = g.get("mapped_percent")
        t["events"].insert(0, R.ev("geo", v=[g.get("image_size") if isinstance(g.get("image_size"), int) else -1, g.get("block_size") or -1,
                                            g["blocks_cnt"] if g.get("blocks_cnt") is not None else -1, g["mapped_cnt"] if g.get("mapped_cnt") is not None else -1,
                                            g["mapped_size"] if g.get("mapped_size") is not None else -1, int(round(pct * 100)) if pct is not None else -1]))
