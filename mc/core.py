"""Exploration engine: shards an enumeration over worker processes, collects coverage,
reports the first violation (lowest case index) and writes evidence.

A check module defines
    ID, LEVEL ('model_checking' | 'fault_enumeration' | 'exploration'), RULE
    units(tier)         -> deterministic iterator of (label, payload): the work units
    run(unit, cx)       -> explores one unit on the real code; raises Violation
    ENVS (optional)     -> list of environment overrides; units run under every one
Counters kept in cx: cx.state(key), cx.transition(), cx.trace(), cx.sample(obj).
"""

import hashlib
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Stuck(BaseException):
    """Raised by the watchdog timer inside a case."""


class Context:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.scratch = scratch
        self.states = set()
        self.counts = {}
        self.samples = []
        self.label = ""
        self.outcomes = {}
        self.slowest = (0, "")

    def state(self, key):
        """Count a distinct state; True the first time it is seen by this worker."""
        if not isinstance(key, bytes):
            key = repr(key).encode("utf-8", "surrogatepass")
        h = hashlib.blake2b(key, digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def transition(self, n=1):
        self.count("transitions", n)

    def trace(self, n=1):
        self.count("traces", n)

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def limit(self, seconds):
        """Arm the watchdog for the next case (0 disarms): processor time of this worker, so that
        a busy machine does not look like a hang, and four times that in real time for a tool that waits."""
        signal.setitimer(signal.ITIMER_PROF, seconds)
        signal.setitimer(signal.ITIMER_REAL, 4 * seconds)


def _alarm(signum, frame):
    raise Stuck()


def load(check):
    return importlib.import_module(f"mc.checks.{check.lower()}")


def prepare_import():
    """Import the tool from /repo's current sources, never from a stale bytecode cache."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-such-cache")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def _worker(check, tier, idx, n, scratch, out, env, only=None):
    os.environ.update(env)
    prepare_import()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    sys.setrecursionlimit(1000)
    mem = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    sys.stdout.flush()
    sys.stdout = open(os.devnull, "w", encoding="utf-8")
    mod = load(check)
    mydir = os.path.join(scratch, f"w{idx}-{os.getpid()}")
    os.mkdir(mydir)
    cx = Context(tier, mydir)
    result = {"violation": None, "error": None, "units": 0, "capped": False}
    deadline = float(os.environ["VERIF_DEADLINE"])
    stop = os.path.join(scratch, "stop")
    try:
        if hasattr(mod, "setup"):
            mod.setup(cx)
        for i, (label, payload) in enumerate(mod.units(tier)):
            if only is not None:
                if i != only:
                    continue
            elif i % n != idx:
                continue
            if time.monotonic() > deadline:
                result["capped"] = True
                break
            if os.path.exists(stop):
                break
            cx.label = label
            result["units"] += 1
            try:
                cx.limit(120)
                t = time.process_time()
                mod.run(payload, cx)
                cx.slowest = max(cx.slowest, (time.process_time() - t, label))
            except Violation as v:
                result["violation"] = {"index": i, "unit": label, "what": v.what, "detail": v.detail, "env": env}
            except Exception as e:
                # an error of the tool where the check relies on it working; others are the check's own
                if not any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__)):
                    raise
                result["violation"] = {
                    "index": i,
                    "unit": label,
                    "what": f"the tool fails: {type(e).__name__}: {e}",
                    "detail": {"where": traceback.format_exc()[-1500:]},
                    "env": env,
                }
            except Stuck:
                result["violation"] = {
                    "index": i,
                    "unit": label,
                    "what": "does not terminate in time",
                    "detail": {"where": traceback.format_exc()[-1500:]},
                    "env": env,
                }
            finally:
                cx.limit(0)
            if result["violation"]:
                open(stop, "w").close()
                break
    except BaseException:
        result["error"] = traceback.format_exc()
    result.update(states=cx.states, counts=cx.counts, samples=cx.samples, outcomes=cx.outcomes, slowest=cx.slowest)
    with open(out, "wb") as f:
        pickle.dump(result, f)
    os._exit(0)


def explore(check, tier, only=None, envs=None, workers=WORKERS, budget=None):
    mod = load(check)
    envs = envs or getattr(mod, "ENVS", [{}])
    budget = budget or getattr(mod, "BUDGET", {}).get(tier) or (600 if tier == "quick" else 6 * 3600)
    os.environ["VERIF_DEADLINE"] = str(time.monotonic() + budget)
    scratch = tempfile.mkdtemp(prefix=f"verif-{check}-", dir=scratch_root())
    merged = {"states": set(), "counts": {}, "samples": [], "outcomes": {}, "units": 0, "capped": False, "slowest": (0, "")}
    violations, errors = [], []
    try:
        for env in envs:
            pids = []
            for w in range(workers if only is None else 1):
                out = os.path.join(scratch, f"out{w}.pkl")
                if os.path.exists(out):
                    os.unlink(out)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        _worker(check, tier, w, workers, scratch, out, env, only)
                    finally:
                        os._exit(3)
                pids.append((pid, out))
            for pid, out in pids:
                _, status = os.waitpid(pid, 0)
                try:
                    with open(out, "rb") as f:
                        r = pickle.load(f)
                except Exception:
                    errors.append(f"worker ended with status {status} and no result")
                    continue
                if r["error"]:
                    errors.append(r["error"])
                if r["violation"]:
                    violations.append(r["violation"])
                merged["states"] |= r["states"]
                merged["units"] += r["units"]
                merged["capped"] |= r["capped"]
                merged["slowest"] = max(merged["slowest"], r["slowest"])
                for k in ("counts", "outcomes"):
                    for a, b in r[k].items():
                        merged[k][a] = merged[k].get(a, 0) + b
                merged["samples"] += r["samples"]
            if violations or errors:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    violations.sort(key=lambda v: v["index"])
    return merged, violations, errors


def scratch_root():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None


def main(check, tier, replay=None):
    t0 = time.monotonic()
    mod = load(check)
    if replay is not None:
        merged, violations, errors = explore(check, replay["tier"], only=replay["index"], envs=[replay["env"]])
    else:
        merged, violations, errors = explore(check, tier)
    wall = time.monotonic() - t0
    for e in errors[:2]:
        print(e, file=sys.stderr)
    c = merged["counts"]
    cov = {}
    if mod.LEVEL == "model_checking":
        cov["states"] = len(merged["states"])
        cov["transitions"] = c.get("transitions", 0)
        cov["traces_validated_against_impl"] = c.get("traces", 0)
    else:
        cov["evaluations"] = c.get("traces", 0)
        cov["distinct_nontrivial"] = len(merged["states"])
        cov["rule"] = mod.RULE
    cov["samples"] = merged["samples"][:6]
    cov["units"] = merged["units"]
    cov["outcomes"] = dict(sorted(merged["outcomes"].items())[:60])
    cov["bound"] = mod.bound(tier) if hasattr(mod, "bound") else getattr(mod, "BOUND", "")
    cov["other_counts"] = {k: v for k, v in sorted(c.items()) if k not in ("transitions", "traces")}
    cov["slowest_unit"] = {"cpu_s": round(merged["slowest"][0], 1), "unit": merged["slowest"][1][:200]}
    cov["exhaustive"] = not merged["capped"] and not violations and not errors
    ev = {
        "property": check,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if replay is None:
        with open(os.path.join(VERIF, "evidence", f"{check}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(
        f"{check} {tier}: {cov.get('states', cov.get('distinct_nontrivial'))} states, "
        f"{c.get('transitions', 0)} transitions, {c.get('traces', 0)} traces on the code, "
        f"{wall:.1f} s{', CAPPED' if merged['capped'] else ''}"
    )
    if violations:
        v = violations[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{check}-{v['index']}.json")
        with open(path, "w") as f:
            json.dump({"check": check, "tier": replay["tier"] if replay else tier, **v}, f, indent=1, default=repr)
            f.write("\n")
        print(f"  unit {v['unit']}: {v['what']}"[:600])
        for k, x in v["detail"].items():
            print(f"    {k}: {str(x)[:400]}".encode("ascii", "backslashreplace").decode())
        print(f"VIOLATION property={check} replay={path}")
        return 1
    if errors:
        return 2
    return 0
