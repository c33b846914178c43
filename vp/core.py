"""Infrastructure shared by all checks: scratch space, the shim, TLC, verdict bookkeeping, evidence."""
import atexit, functools, hashlib, itertools, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


def once(f):
    """What threads share is made once."""
    made, lock = {}, threading.Lock()

    @functools.wraps(f)
    def g(*a):
        with lock:
            if a not in made:
                made[a] = f(*a)
            return made[a]
    return g


class Scratch:
    """A directory removed at exit. Everything a check writes (except evidence and replays) lives in it."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="vp-", dir=os.environ.get("VP_TMP", "/tmp"))
        os.chmod(self.path, 0o755)
        atexit.register(self.remove)
        self.n = itertools.count(1)

    def remove(self):
        subprocess.call(["chmod", "-R", "u+rwx", self.path], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.path, ignore_errors=True)

    def dir(self, name=None):
        d = os.path.join(self.path, name or "d%d" % next(self.n))
        os.makedirs(d, exist_ok=True)
        return d


@once
def scratch():
    return Scratch()


@once
def shim():
    """Build the preload library (well below a second) into the scratch directory."""
    out = os.path.join(scratch().path, "vpshim.so")
    r = subprocess.run(["gcc", "-O2", "-U_FORTIFY_SOURCE", "-w", "-shared", "-fPIC", "-o", out,
                        os.path.join(VERIF, "vp/shim/vpshim.c"), "-ldl", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("shim does not compile: " + r.stderr[-2000:])
    return out


def code_env(extra=None, path=None):
    """Environment in which the code under test runs."""
    s = scratch().path
    home = os.path.join(s, "home")
    os.makedirs(home, exist_ok=True)
    e = {"PATH": path or "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": home, "LANG": "C.UTF-8",
         "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(s, "pyc"),
         "TMPDIR": s, "GNUPGHOME": os.path.join(home, ".gnupg"), "no_proxy": "*"}
    e.update(extra or {})
    return e


def pmap(fn, items, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- TLC
def _specdir():
    d = scratch().dir()
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    return d


def tlc(module, cfg=None, env=None, workers=4, timeout=600, args=(), heap="4g", check=True, defs=None):
    """Run TLC on spec/<module>.tla with spec/<cfg or module>.cfg. Returns a dict: out, ok, states, distinct, printed."""
    d = _specdir()
    cfg = cfg or module
    if defs:  # extra constants: written to a config derived from the committed one
        text = open(os.path.join(d, cfg + ".cfg")).read()
        for k, v in defs.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            if not n:
                raise MachineryError("constant %s not in %s.cfg" % (k, cfg))
        open(os.path.join(d, cfg + ".cfg"), "w").write(text)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-config", cfg + ".cfg", "-workers",
           str(workers), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-nowarning", *args, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timeout on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
    out = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    states, distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        states = int(m2[-1].replace(",", "")) if m2 else 0
    ok = p.returncode == 0 and "Error:" not in out
    res = {"out": out, "ok": ok, "rc": p.returncode, "states": states, "distinct": distinct, "wall": time.time() - t0, "dir": d,
           "module": module, "cfg": cfg}
    if check and not ok:
        raise MachineryError("TLC failed on %s/%s:\n%s" % (module, cfg, re.sub(r"(?m)^(Parsing file|Semantic processing|Linting of).*\n", "", out)[-6000:] + p.stderr[-500:]))
    shutil.rmtree(d, ignore_errors=True)
    return res


def printed(out, tag):
    """The JSON payloads printed by the specification as  PrintT(<tag> \\o ToJson(x))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            res.append(json.loads(json.loads(line)[len(tag):]))
    return res


def validate(module, traces, tag="VERDICT ", workers=4, timeout=800, chunk=None, cfg=None):
    """Check recorded traces against trace specification `module`. Every trace must get exactly one verdict
    (record with fields id, viol). Returns ({id: verdict}, states, generated)."""
    verdicts, states, gen = {}, 0, 0
    if not traces:
        return verdicts, 0, 0
    chunk = chunk or max(1, -(-len(traces) // 3))
    parts = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]

    def one(part):
        f = os.path.join(scratch().path, "tr-%s.json" % hashlib.sha1(("%s%s%d" % (module, part[0]["id"], time.time_ns())).encode()).hexdigest()[:12])
        json.dump([{k: v for k, v in t.items() if k not in ("result", "key", "family", "repro")} for t in part], open(f, "w"))
        r = tlc(module, cfg=cfg, env={"VP_TRACES": f}, workers=workers, timeout=timeout)
        os.unlink(f)
        return r

    for part, r in zip(parts, pmap(one, parts, 3)):
        states += r["distinct"]
        gen += r["states"]
        vs = printed(r["out"], tag)
        for v in vs:
            verdicts.setdefault(v["id"], v)
        missing = [t["id"] for t in part if t["id"] not in verdicts]
        if missing:
            raise MachineryError("%s gave no verdict for %s\n%s" % (module, missing[:5], r["out"][-3000:]))
    return verdicts, states, gen


# ---------------------------------------------------------------- bookkeeping of one check
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models = []
        self.kinds = {}
        self.viol = []
        self.again = {}  # trace id -> how to run the same world once more
        self.known = []
        self.assumptions = []
        self.exercised = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg=None, expect=True, **kw):
        """Model-check a specification; expect=False: TLC has to find a counterexample (vacuity guard)."""
        r = tlc(module, cfg, check=expect, **kw)
        if not expect and (r["ok"] or not re.search(r"is violated|was violated|violated\.|Temporal properties were", r["out"])):
            raise MachineryError("%s/%s: the expected counterexample was not found\n%s" % (module, cfg, r["out"][-2000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        self.models.append({"module": module, "cfg": r["cfg"], "distinct": r["distinct"], "generated": r["states"],
                            "result": "holds" if expect else "counterexample found as expected", "wall_s": round(r["wall"], 1)})
        return r

    def bugs(self, module, names, cfg=None, defs=None):
        """Vacuity guards: every planted modelling bug has to give a counterexample."""
        pmap(lambda b: self.model(module, cfg, expect=False, workers=2, defs=dict(defs or {}, BUG='"%s"' % b)), names, 4)

    def traces(self, module, traces, clauses=None, cfg=None, describe=None):
        """Validate traces; report the clauses that belong to this property (prefix '<prop>_')."""
        verdicts, st, gen = validate(module, traces, cfg=cfg)
        self.cov["states"] += st
        self.cov["transitions"] += gen
        self.cov["traces_validated_against_impl"] += len(traces)
        by = {t["id"]: t for t in traces}
        # Connections may fail for reasons outside the code (a loaded machine): what happened over one has to happen again.
        bad = [by[i] for i, v in sorted(verdicts.items()) if i in self.again and any(c.startswith(self.prop + "_") for c in v["viol"])]
        if bad:
            more = [t for t in (self.again[t["id"]](t) for t in bad[:12]) if t]
            v2 = validate(module, more, cfg=cfg)[0] if more else {}
            for t in more:
                by[t["id"]], verdicts[t["id"]] = t, v2[t["id"]]
            self.cov["worlds_run_again"] = self.cov.get("worlds_run_again", 0) + len(more)
        other = {}
        for i, v in sorted(verdicts.items()):
            mine = [c for c in v["viol"] if c.startswith(self.prop + "_")]
            for c in v["viol"]:
                if c not in mine:
                    other[c] = other.get(c, 0) + 1
            if mine:
                self.violation(mine, by[i], describe)
            for x in v.get("hit", []):
                self.exercised[x] = self.exercised.get(x, 0) + 1
        if other:
            self.cov.setdefault("other_properties_clauses_seen", {}).update(other)
        for t in traces:
            k = t.get("family", module)
            self.kinds[k] = self.kinds.get(k, 0) + 1
        return verdicts

    def violation(self, clauses, trace, describe=None):
        self.viol.append((sorted(clauses), trace, describe(trace) if describe else ""))

    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 6000 else s[:6000])

    def selftest(self, module, trace, mutate, expect, cfg=None):
        """Binding self-test: after corrupting a recorded trace the specification has to reject it."""
        t = json.loads(json.dumps(trace))
        mutate(t)
        v, st, gen = validate(module, [t], cfg=cfg)
        got = v[t["id"]]["viol"]
        if not any(re.match(expect, c) for c in got):
            raise MachineryError("binding self-test: corrupted trace not rejected by %s (%s): %s" % (module, expect, got))
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + 1

    def unlisted(self):
        """The violations which are not known findings."""
        known = load_known(self.prop)
        real, self.known = [], []
        for clauses, trace, text in self.viol:
            k = [e for e in known if e["key"] == trace.get("key") and set(clauses) <= set(e["clauses"])]
            if k:
                self.known.append(k[0])
            else:
                real.append((clauses, trace, text))
        return real

    def finish(self):
        real = self.unlisted()
        self.cov["models"] = self.models
        self.cov["trace_families"] = self.kinds
        self.cov["antecedents_exercised"] = self.exercised
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        replay = None
        if real:
            os.makedirs(os.path.join(d, "replay"), exist_ok=True)
            replay = os.path.join(d, "replay", "%s.json" % self.prop)
            json.dump([{"clauses": c, "what": text, "trace": t} for c, t, text in real[:20]], open(replay, "w"), indent=1)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(real)}
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            self.cov["samples"] = [str(x)[:2000] for x in self.cov["samples"]]
            s = json.dumps(ev, indent=1)
        open(os.path.join(d, self.prop + ".json"), "w").write(s)
        for e in {e["id"]: e for e in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        for c, t, text in real[:8]:
            print("  violated: %s in %s %s" % (", ".join(c), t.get("id"), text))
        if real:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s: %d traces of the code, %d model states, %.1f s" % (
            self.prop, self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 0


def load_known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [e for e in json.load(open(f))["findings"] if e["property"] == prop]
