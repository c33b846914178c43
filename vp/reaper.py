"""Runs one command and reports what is left of it. Usage: reaper.py JSON (argv, env, cwd, log, timeout, stdin, grace); prints JSON."""
import ctypes, json, os, signal, sys, time


def kids():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            out += [int(x) for x in open("/proc/self/task/%s/children" % t).read().split()]
        except OSError:
            pass
    return out


def name(pid):
    try:
        return open("/proc/%d/cmdline" % pid).read().replace("\0", " ").strip()[:80] or "?"
    except OSError:
        return "?"


def main():
    j = json.loads(sys.argv[1])
    if ctypes.CDLL(None).prctl(36, 1, 0, 0, 0):  # PR_SET_CHILD_SUBREAPER
        raise OSError("prctl")
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        fd = os.open(j.get("stdin") or os.devnull, os.O_RDONLY)
        os.dup2(fd, 0)
        for n, k in ((1, "out"), (2, "err")):
            os.dup2(os.open(j["log"] + "." + k, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644), n)
        os.closerange(3, 256)
        os.chdir(j["cwd"])
        signal.signal(signal.SIGINT, signal.default_int_handler)
        os.execve(j["argv"][0], j["argv"], j["env"])
    end, rc = time.time() + j["timeout"], None
    while rc is None and time.time() < end:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == pid:
            rc = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        elif not p:
            time.sleep(.003)
    hang = rc is None
    left, end = [], time.time() + j["grace"]
    while True:
        try:
            p, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if p:
            continue
        if time.time() > end or hang:
            left = [name(p) for p in kids()]
            for p in kids():
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
        time.sleep(.01)
    print(json.dumps({"rc": rc, "left": left}))


main()
