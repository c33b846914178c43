"""C27: credentials for servers."""
import base64, hashlib, http.server, json, os, shutil, threading, urllib.parse
from . import core, content as C, copygen as G, copyrun as R, checks_read as RD, checks_cli as CL

USER = {"right": "alice", "wrong": "alice", "foreign": "mallory"}
PASS = [{"right": "sesame", "wrong": "simsim", "foreign": "fpass"}, {"right": "open-sesame", "wrong": "open", "foreign": "fpass"}, {"right": "pa:ss%", "wrong": "pa:ss", "foreign": "fpass"}]


def cred(kind, spell):
    return USER[kind], PASS[spell][kind]


class Server:
    """Paths: /<world>/<stage>/<name>; what happens is decided by the world."""

    def __init__(self, host, hub):
        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def say(self, code, body=b"", **h):
                self.send_response(code)
                for k, v in h.items():
                    self.send_header(k.replace("_", "-"), v)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def do_GET(self):
                u = urllib.parse.urlsplit(self.path)
                id, *mid, name = u.path.lstrip("/").split("/")
                W = hub.worlds.get(id)
                if not W:
                    return self.say(404)
                w, files, seen = W
                host = u.netloc or self.headers.get("Host") or ""
                role = "own" if host == place(hub, w) else "other" if host == mirror(hub, w) else "stray"
                a = self.headers.get("Authorization")
                got = "none"
                if a:
                    got = "odd"
                    for k in PASS[w["spell"]]:
                        if a == "Basic " + base64.b64encode(":".join(cred(k, w["spell"])).encode()).decode():
                            got = k
                    seen[role].append(got)
                if name not in files:
                    return self.say(404)
                want = ("basic" if w["askother"] else "no") if role == "other" else w["ask"]
                if want == "deny":
                    return self.say(403, b"forbidden")
                if want != "no" and (want != "basic" or got != "right"):
                    return self.say(401, b"who are you?" * 500, WWW_Authenticate='Basic realm="r"' if want == "basic" else 'Digest realm="r", nonce="1234", qop="auth", algorithm=MD5')
                if role == "own" and "b" not in mid and w["hop"] != "no":
                    # a place below the one asked for, so that the credentials are valid for it
                    return self.say(302, Location="http://%s%s/b/%s" % (host, u.path, name) if w["hop"] == "same" else "http://" + mirror(hub, w) + "/%s/a/%s" % (id, name))
                self.say(200, files[name])

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, *a):
                pass
        self.s = S((host, 0), H)
        self.host, self.port = host, self.s.server_address[1]
        threading.Thread(target=self.s.serve_forever, daemon=True).start()


class Hub:
    def __init__(self):
        self.worlds = {}
        self.own = Server("127.0.0.1", self)
        self.other = Server("127.0.0.2", self)


HOSTS = {"ip": "127.0.0.1", "name": "localhost", "proxied": "images.example.com", "proxied-port": "images.example.com", "proxied6": "2001:db8::7", "proxied6-port": "2001:db8::7"}


def place(hub, w):
    """Host and port of the server the user names."""
    h, n = HOSTS[w["net"]], w["net"]
    h = "[%s]" % h if ":" in h else h
    return h + (":8080" if n.endswith("-port") else "" if n.startswith("proxied") else ":%d" % hub.own.port)


def mirror(hub, w):
    return "images.example.net" if w["net"].startswith("proxied") else "127.0.0.2:%d" % hub.other.port


def netrc(d, w):
    host = HOSTS[w["net"]]
    t = ""
    if w["rcother"]:
        t += "".join("machine %s login %s password %s\n" % ((h,) + cred("foreign", 0)) for h in ("example.org", "127.0.0.3", "example.com", "images", "2001", "[2001:db8::7]", "images.example.net")[:1 if w["others"] == "one" else None])
    if w["rc"] != "none":
        t += "machine %s login %s password %s\n" % ((host,) + cred(w["rc"], w["spell"]))
    if w["rcdef"] != "none":
        t += "default login %s password %s\n" % cred(w["rcdef"], w["spell"])
    if w["rcbad"]:
        t = "machine\nnonsense here\n" + t
    if t:
        open(d + "/.netrc", "w").write(t)
        os.chmod(d + "/.netrc", 0o600)


def exchange(c, worlds):
    hub = Hub()
    top = core.scratch().dir()
    img = CL.image_bytes()
    packed = RD.pack("gz", img)
    bm = CL.bmap_of(1)
    jobs, info = [], []
    for i, w in enumerate(worlds):
        d = os.path.join(top, "a%d" % i)
        os.mkdir(d)
        netrc(d, w)
        name = "image.img" + (".gz" if w["comp"] == "gz" else "")
        data = packed if w["comp"] == "gz" else img
        files = {name: data} if w["what"] != "bmap" else {"the.map": bm}
        if w["what"] == "sidecar":
            files[name + ".bmap"] = bm
        seen = {"own": [], "other": [], "stray": []}
        hub.worlds["w%d" % i] = (w, files, seen)
        who = "" if w["url"] == "none" else USER["right"] + "@" if w["url"] == "user" else ":".join(cred(w["url"], w["spell"])) + "@"
        at = "http://%s%s/w%d/a/" % (who, place(hub, w), i)
        open(d + "/" + name, "wb").write(data)
        args = {"image": ["--nobmap", at + name], "bmap": ["--bmap", at + "the.map", d + "/" + name], "sidecar": [at + name]}[w["what"]]
        argv = ["copy", *args, d + "/dest"]
        jobs.append(R.cli_job("auth-%d" % i, argv, d, d + "/cli", env=dict({"HOME": d}, **({"http_proxy": "http://127.0.0.1:%d" % hub.own.port, "no_proxy": "", "NO_PROXY": ""} if w["net"].startswith("proxied") else {"no_proxy": "*"})), timeout=60))
        info.append((w, d, seen))
    res = R.run_driver(jobs)
    out = []
    for j, (w, d, seen) in zip(jobs, info):
        r = res[j["id"]]
        if r["outcome"] != "skipped":
            rc, o, err = R.cli_result(r)
            got = open(d + "/dest", "rb").read() if os.path.exists(d + "/dest") else b""
            only = bytearray(len(img))
            for b in CL.BLOCKS[1]:
                only[b * CL.BS:(b + 1) * CL.BS] = img[b * CL.BS:(b + 1) * CL.BS]
            used = got == bytes(only)
            out.append(dict(id=j["id"], key="auth-" + hashlib.sha1(json.dumps(w, sort_keys=True).encode()).hexdigest()[:12], what=w["what"],
                            w={k: w[k] for k in ("url", "rc", "rcdef", "rcother", "rcbad", "ask", "hop", "askother")}, o="hang" if rc is None else "ok" if rc == 0 else "fail",
                            exact=used if w["what"] == "bmap" else got == img or used and w["what"] == "sidecar", used=used, own=sorted(set(seen["own"])), other=sorted(set(seen["other"] + seen["stray"])),
                            result={"argv": j["argv"], "rc": rc, "err": err[-400:], "seen": seen, "w": w}))
        shutil.rmtree(d, ignore_errors=True)
    return out


def logins(c):
    """ssh with a password, the right one, a wrong one, none."""
    top = core.scratch().dir()
    img = CL.image_bytes()
    W = dict(url="none", rc="none", rcdef="none", rcother=False, rcbad=False, ask="basic", hop="no", askother=False)
    jobs, info = [], []
    for i, (kind, spell, want, comp) in enumerate((k, s, a, z) for k in ("right", "wrong", "none") for s in range(3) for a in ("basic", "no") for z in ("plain", "gz")):
        d = os.path.join(top, "l%d" % i)
        os.mkdir(d)
        image = d + "/image." + ("img" if comp == "plain" else "gz")
        open(image, "wb").write(RD.pack(comp, img))
        u, pw = cred(kind, spell) if kind != "none" else ("alice", "")
        if want == "no" and pw:
            continue  # sshpass offers it anyway
        env = dict(HOME=d, PATH=RD.path_with(RD.sshbin()), VP_SSH_HOST="alice@box", VP_SSH_PASS=cred("right", spell)[1] if want == "basic" else "", VP_SSH_GOT="")
        jobs.append(R.cli_job("login-%d" % i, ["copy", "--nobmap", "ssh://%s%s@box%s" % (u, ":" + pw if pw else "", image), d + "/dest"], d, d + "/cli", env=env, timeout=60))
        info.append((dict(W, url=kind, ask=want), d))
    res = R.run_driver(jobs)
    out = []
    for j, (w, d) in zip(jobs, info):
        r = res[j["id"]]
        if r["outcome"] != "skipped":
            rc, o, err = R.cli_result(r)
            got = open(d + "/dest", "rb").read() if os.path.exists(d + "/dest") else b""
            out.append(dict(id=j["id"], key=j["id"], what="login", w=w, o="hang" if rc is None else "ok" if rc == 0 else "fail", exact=got == img, used=True, own=[], other=[],
                            result={"argv": j["argv"], "rc": rc, "err": err[-400:]}))
        shutil.rmtree(d, ignore_errors=True)
    return out


def C27(c):
    c.assumptions = ["TLC and the Java/Python runtimes", "servers on the loopback network behave like others", "the basic authentication scheme (the only one the tools offer)"]
    c.model("Auth", workers=8)
    c.bugs("Auth", ["always", "anyhost", "otherentry", "netrcfirst", "body401"])
    tr = exchange(c, G.generate("", c.pick(420, 6000), c.seed, module="GenAuth")) + logins(c)
    c.traces("AuthTrace", tr, describe=lambda t: json.dumps({k: t[k] for k in ("w", "o", "own", "other", "what", "exact", "result")})[:1000])
    c.sample({k: v for k, v in tr[0].items() if k != "result"})
    CL.need(c, "image_ok", "image_fail", "bmap_ok", "bmap_fail", "sidecar_ok", "sent", "redirected", "foreign", "login_ok", "login_fail")
    ok = [t for t in tr if t["o"] == "ok" and t["own"] == ["right"] and t["w"]["ask"] == "basic"][0]
    c.selftest("AuthTrace", ok, lambda x: x.__setitem__("other", ["right"]), "C27_leak")
    c.selftest("AuthTrace", ok, lambda x: x.__setitem__("own", ["foreign"]), "C27_own")
    c.selftest("AuthTrace", ok, lambda x: x.__setitem__("o", "fail"), "C27_refused")
    c.selftest("AuthTrace", [t for t in tr if t["o"] == "fail" and t["w"]["ask"] == "deny"][0], lambda x: x.update(o="ok", exact=False), "C27_data")
