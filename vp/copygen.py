"""Scenarios enumerated by spec/GenCopy.tla, translated to copyrun scenarios."""
import json
from . import core, copyrun as R


def generate(family, n, seed, module="GenCopy"):
    r = core.tlc(module, env={"VP_FAMILY": family, "VP_N": n}, workers=1, args=["-seed", str(seed)])
    out, seen = [], set()
    for x in core.printed(r["out"], "SCENARIO "):
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    if not out:
        raise core.MachineryError("no scenarios in family " + family)
    return out


def ranges(p):
    m = set(p["map"])
    if m == {-2}:
        m = set(range(p["nb"]))
    if m == {-3}:
        m = {b for b in range(p["nb"]) if b % 5 != 2}
    runs, b = [], 0
    while b < p["nb"]:
        if b not in m:
            b += 1
            continue
        e = b
        lim = {"max": 10 ** 9, "one": 1, "two": 2}[p["split"]]
        while e + 1 in m and e + 1 < p["nb"] and e + 1 - b < lim:
            e += 1
        runs.append([b, e])
        b = e + 1
    out = []
    for k, (a, b) in enumerate(runs):
        cs = {"all": 1, "none": 0, "odd": k % 2, "even": 1 - k % 2}[p["cs"]]
        out.append([a, b, 2 if p["wrong"] == k else cs])
    if p["order"] == "desc":
        out.reverse()
    if p["order"] == "mix":
        out = out[1::2] + out[::2]
    return out


def scen(p, id, family, **kw):
    isize = max(0, p["nb"] * p["bsz"] - p["cut"])
    nobmap = p["map"] == [-1]
    d = dict(family=family, kind=p["kind"], bsz=p["bsz"], isize=isize, cpb=p["cpb"], verify=p["verify"], sync=p["sync"], pass_known=p["known"],
             zero=list(p["zeros"]), srclen=isize - p["miss"] if p["miss"] and isize > p["miss"] else None, version=p["version"], hash=p["hash"],
             single=p["single"], cap=p["cap"] or None)
    if p["miss"] < 0:
        d["mayfail"] = True
    if p["old"]:
        d["oldvar"] = 1
    if p["kind"] == "reg" and p["old"] > 1:
        d["oldlen"] = max(1, isize // 3) if p["old"] == 2 else isize + 2 * p["bsz"] + 10000
    if p["kind"] == "bdev" and p["old"] == 3 and not p["cap"]:
        d["cap"] = p["nb"] * p["bsz"] + 12288
    if p["dm"] != "trunc" and not p["fault"]:
        if p["dm"] == "pos":
            d["destpos"] = 2 * p["bsz"] + 17
        if p["dm"] == "keep" and (p["old"] or p["kind"] == "bdev"):
            # what an existing file has in unmapped blocks stays if the caller does not truncate it
            d.update(destmode="rb+", fresh=not p["old"] or p["kind"] == "bdev")
    d["same"] = p["same"]
    d["plain"], d["transread"] = p["via"] == "plain", p["via"] == "reader"
    if p["via"][:3] == "raw":
        # file objects without a buffer of their own: every read and write is one system call, which may transfer less
        d["raw"] = {"raw": "id", "rawimage": "i", "rawdest": "d"}[p["via"]]
        d["plain"] = True
    if p["bad"] >= 0:
        d["bad"] = [p["bad"]]
    if p["fault"]:
        d["faults"] = [p["fault"]]
    if not nobmap:
        d["ranges"] = ranges(p)
        if p["cnt"]:
            d["mapcnt"] = sum(r[1] - r[0] + 1 for r in d["ranges"]) + p["cnt"]
    elif p["nb"] > 600:
        d["bpc"] = 37
    d.update(kw)
    return R.scenario(id, **d)


def family(name, n, seed, prefix="", **kw):
    return [scen(p, "%s%s-%d" % (prefix, name, i), name, **kw) for i, p in enumerate(generate(name, n, seed))]


def schedules(n, seed, faults=True):
    """Interleavings of reads and writes from random behaviours of the pipeline model, as gated API scenarios."""
    import random
    r = core.tlc("MCPipeline", "MCPipelineSched", workers=1, args=["-simulate", "num=%d" % n, "-depth", "400", "-seed", str(seed)])
    rng = random.Random(seed)
    out = []
    seen = set()
    for x in core.printed(r["out"], "SCHED "):
        s, h = x["par"], "".join(x["h"])
        k = (h, json.dumps(s, sort_keys=True))
        if k in seen or not h:
            continue
        seen.add(k)
        d = dict(family="Schedule", kind=s["kind"], bsz=s["bsz"], isize=s["isize"], pass_known=s["known"] >= 0, gate=h, isched=True,
                 srclen=s["srclen"] if s["srclen"] != s["isize"] else None, bad=[i for i in range(len(s["src"])) if s["src"][i] != s["orig"][i]],
                 verify=s["verify"], sync=s["sync"])
        if s["hasbmap"]:
            d["ranges"] = s["bm"]["ranges"]
        if faults and rng.random() < 0.4:
            pos = rng.randrange(len(h))
            what = h[pos]
            d["gate"] = h[:pos + 1]
            d["rfault" if what == "R" else "wfault"] = {str(h[:pos + 1].count(what)): "EIO"}
        out.append(R.scenario("sched-%d" % len(out), **d))
    if not out:
        raise core.MachineryError("no schedules")
    return out
