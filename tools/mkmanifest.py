"""Writes MANIFEST.json: every property whose check exists is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vp import MODULES
mods = [__import__("vp." + n, fromlist=["x"]) for n in MODULES]
COPY = ("TLC checks that the pipeline model refines the copy contract (all interleavings, one failing operation, small layouts with the real constants); executions of the "
        "real code on specification-generated scenarios are recorded at the system-call boundary and every event is validated against the same contract by TLC. ")
T = {
    "C01": ("TLA+ contract + pipeline model (TLC), trace validation of recorded copies", COPY + "Bounded: up to 5-block layouts exhaustively in the model, sampled (seeded) for the code, block sizes 512 B to 2 MiB."),
    "C02": ("TLA+ contract + pipeline model (TLC), trace validation incl. failing and killed copies", COPY + "Every write of the code, also of failed and killed copies, is checked cell by cell."),
    "C03": ("TLA+ contract + pipeline model (TLC), trace validation of copies without bmap", COPY),
    "C04": ("TLA+ contract + pipeline model (TLC), trace validation with corrupted images", COPY + "Corruption position, range layout, hash type and format version vary."),
    "C05": ("TLA+ contract + pipeline model (TLC), trace validation with misfitting images", COPY),
    "C07": ("TLA+ pipeline model with failing operations (TLC), fault-injected executions validated against the contract", COPY + "Fault enumeration over operation kind, position and errno."),
    "C08": ("TLA+ contract (dirty / unsynchronised bytes) model-checked (TLC), fsync coverage of recorded executions validated", COPY + "Stable storage is modelled as: covered by a later successful fsync."),
    "C09": ("TLC-checked pipeline model; TLC-generated interleavings enforced on the real threads, traces validated", COPY + "Interleavings are enforced at reads and writes, not inside Python's queue."),
    "C20": ("TLA+ contract on progress reports (TLC), recorded reports validated", COPY + "Each report is compared with the share of blocks written when it was made."),
    "C22": ("TLA+ crash/restart model (TLC), killed and repeated executions validated", COPY + "Process kill at and within every kind of operation; no power loss."),
    "C25": ("TLA+ contract, traces of all bmap versions validated", COPY + "The same map in all versions, spellings and hash types, with intact and corrupted images."),
    "C06": ("TLA+ model of bmap acceptance (TLC), damaged bmaps enumerated and replayed", "Every reachable record of the bmap model rendered as a file and offered; every byte of three bmap versions damaged; sampled (seeded) beyond that."),
    "C10": ("TLA+ model of layouts and bmap generation (TLC), generated layouts replayed, bmaps validated", "Model exhaustive for small layouts; code on sampled layouts, scripted kernel answers and real sparse files; bmaps parsed by an independent reader."),
    "C11": ("TLA+ model of bmap writing with crashes (TLC), crash images of the real write history validated", "Crash points: every write boundary of the recorded history and points within writes; files written by the code, no power-loss reordering."),
    "C12": ("TLA+ model of extent queries (TLC, exhaustive windows), answers of the code validated", "Model exhaustive over layouts of up to 4-5 blocks, windows and reply sizes; code with the same and with long scripted layouts."),
    "C13": ("TLA+ model of method selection and kernel behaviours (TLC), all behaviours replayed", "All combinations of kernel answers of the model replayed on the code by scripting ioctl/lseek/fsync results."),
    "C14": ("TLA+ model of sequential readers (TLC), generated operation sequences replayed on all formats", "Model exhaustive for images of up to 4 units and 5 operations; operation sequences replayed on every format and transport."),
    "C15": ("TLA+ model of failing sources (TLC), truncated/corrupt sources replayed", "Cut and corruption points sampled over each format and transport; what a decompressor accepts silently is not demanded."),
    "C16": ("TLA+ decision model of signatures (TLC), all cases replayed on the real command", "All signature kinds x places x options of the model; real gpg keys; loopback server, mock ssh."),
    "C17": ("TLA+ decision model of bmap discovery and options (TLC), all cases replayed on the real command", "All existence patterns of candidate bmaps up to 3 suffixes x options; real command."),
    "C18": ("TLA+ model of sysfs tuning (TLC), all cases replayed, recorded accesses validated", "Model exhaustive over settings, faults and interrupts; all its behaviours replayed against a redirected sysfs tree."),
    "C19": ("TLA+ contract (exclusive, capacity), model (TLC), traces of the real command on emulated devices validated", COPY + "Devices are emulated on regular files; capacities around the image size, several busy errors."),
    "C21": ("TLA+ decision model of input aliasing (TLC), all cases replayed on the real command", "Alias spellings (path, symlink, hard link) x inputs x transports, failing copies; files compared byte by byte with inode and mode."),
    "C23": ("TLA+ contract, differential traces of both writers validated", "The same scenarios (incl. images beyond 4 GiB) through both writers; destinations compared."),
    "C26": ("TLA+ model of helpers, pipes and temporary files (TLC), generated runs of the command validated", "Sampled worlds (seeded); real command in its own process with a subreaper; helpers get 5 s; stalled sources excluded."),
    "C27": ("TLA+ model of authenticated exchanges (TLC), generated worlds replayed against recording servers", "Model exhaustive over its worlds; code on sampled worlds with two loopback servers and a mock ssh."),
    "C28": ("TLA+ model of pieces of work sharing a process (TLC), model-generated interleavings enforced on real threads, results compared by a trace spec", "Model exhaustive for two pieces of work of up to 3 steps; code on sampled schedules of three pieces, sequences over the same objects or names, and free running threads with switches at arbitrary lines."),
    "C29": ("TLA+ model of the copy command with what the user is told, checked against declarative rules (TLC); worlds replayed on the real command, its messages judged by a trace spec", "Model exhaustive for its worlds; code on sampled worlds with real keys, faults, transports and image sizes; messages are recognised by their wording."),
    "C30": ("TLA+ model of where image data are held and how often they are read (TLC); copies and descriptions of a small and a big image under the same memory limit judged by a trace spec", "Model exhaustive for all maps of 8 units; code on sampled forms, transports and maps with images of 256 MiB (thorough 1 GiB)."),
    "C31": ("TLA+ model of a file system with links, nodes and devices and of the command writing to it, judged by shared rules (TLC); generated worlds run on the real file system, judged by a trace spec with the same rules", "Model exhaustive for its worlds; code on sampled names, forms and spellings of every kind of place; unprivileged, below scratch directories, /dev/shm, /dev/null, /dev/full."),
    "C24": ("TLA+ layout model (TLC), create+copy round trips validated", "Round trips on ext4 and tmpfs and with scripted layouts, all compressed forms."),
}
checks, na = [], []
for i in range(1, 32):
    p = "C%02d" % i
    if any(hasattr(m, p) for m in mods):
        t, n = T[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        raise SystemExit("no check for " + p)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in TLA+ (spec/), checked with TLC. /repo is not instrumented: executions are observed by a preload library built from vp/shim."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
