"""Explorer core: bounded-exhaustive enumeration of cases on the real code.

A check module (mc/checks/cNN.py) defines

    PROPERTY, LEVEL, TITLE, ASSUMPTIONS
    plan(tier)            -> list of (family, args) tasks; together they are the
                             complete bounded space of the check
    FAMILIES              -> {family: function(res, args)}; enumerates a slice
                             of the space, evaluating every element
    run_case(case)        -> re-executes one recorded counterexample, raising
                             Violation if it still fails

Everything is deterministic: no sampling, no randomness, no wall-clock
dependence in any verdict (the watchdog counts CPU time of the worker).
"""
import hashlib
import json
import logging
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

REPO = os.environ.get("ATRCOPY_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CASE_CPU_LIMIT = 60.0   # seconds of CPU for one case; ordinary cases take milliseconds
STOP_AFTER = int(os.environ.get("VERIF_STOP_AFTER", 12))     # violations
MEM_LIMIT = 6 << 30


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, tags=()):
        Exception.__init__(self, msg)
        self.tags = tuple(tags)


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class limit:
    """CPU-time watchdog: raises Hang inside the block."""

    def __init__(self, seconds=CASE_CPU_LIMIT):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_alarm)
        # repeat, in case the first one is swallowed by a bare except
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


class Result:
    """Counters and findings of one task (merged by the runner)."""

    def __init__(self):
        self.n = {}
        self.states = set()
        self.outcomes = {}
        self.viols = []
        self.samples = []
        self.known = {}
        self.caps = []

    def count(self, key, by=1):
        self.n[key] = self.n.get(key, 0) + by

    def state(self, key):
        """record a distinct state / nontrivial case (any hashable or bytes)"""
        if not isinstance(key, bytes):
            key = repr(key).encode("utf8", "backslashreplace")
        self.states.add(hashlib.blake2b(key, digest_size=8).digest())

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, case):
        if len(self.samples) < 3:
            self.samples.append(case)

    def violation(self, msg, case, tags=()):
        if len(self.viols) < 20:
            self.viols.append({"message": str(msg)[:2000], "case": case, "tags": list(tags)})
        self.count("violations")

    def case(self, case, fn, *args, cpu=CASE_CPU_LIMIT):
        """Run one case; anything the case raises is a violation."""
        self.count("evaluations")
        try:
            with limit(cpu):
                return fn(*args)
        except Violation as e:
            self.violation(str(e), case, e.tags)
        except Hang:
            self.violation("does not terminate (> %g s CPU)" % cpu, case, ("hang",))
        except MemoryError:
            self.violation("runs out of memory (> %d GB)" % (MEM_LIMIT >> 30), case, ("memory",))
        except Exception as e:
            self.violation("unexpected %s: %s | %s" % (type(e).__name__, e, short_tb()), case, ("exception",))
        return None


def short_tb():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return " < ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-4:]))


def quiet():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


_module = None


def _init_worker(modname):
    global _module
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    quiet()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)     # the code under test prints progress; only the runner reports


def _run_task(task):
    family, args = task
    res = Result()
    try:
        _module.FAMILIES[family](res, args)
    except Violation as e:
        res.violation(str(e), {"family": family, "args": args}, e.tags)
    except Hang:
        res.violation("does not terminate", {"family": family, "args": args}, ("hang",))
    except Exception as e:
        res.violation("unexpected %s: %s | %s" % (type(e).__name__, e, short_tb()),
                      {"family": family, "args": args}, ("exception",))
    return family, res


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as fh:
            entries = json.load(fh)["findings"]
    except (OSError, ValueError, KeyError):
        return []
    return [e for e in entries if e.get("property") == prop]


def is_known(known, viol):
    for e in known:
        if e.get("message_contains") and e["message_contains"] not in viol["message"]:
            continue
        if "case" in e and e["case"] != viol["case"]:
            continue
        if e.get("message_contains") or "case" in e:
            return e
    return None


def run(module, tier, seed, jobs=None, deadline=None, verbose=False):
    global _module
    _module = module
    prop = module.PROPERTY
    t0 = time.time()
    tasks = list(module.plan(tier))
    thin = int(os.environ.get("VERIF_THIN", 1))      # tools/mutate.py only
    tasks = tasks[::thin]
    if deadline is None:
        deadline = 700 if tier == "quick" else float(os.environ.get("VERIF_DEADLINE", 3 * 3600))
    jobs = jobs or os.cpu_count() or 1
    total = Result()
    fam_states = {}
    fam_counts = {}
    done = 0
    capped = thin > 1
    known = load_known(prop)
    known_hit = {}
    fresh = []
    accept = getattr(module, "relevant", lambda v: True)
    if os.environ.get("VERIF_ALLTAGS"):              # tools/mutate.py only
        accept = lambda v: True  # noqa: E731

    def merge(family, r):
        for k, v in r.n.items():
            total.n[k] = total.n.get(k, 0) + v
            fam_counts.setdefault(family, {})
            fam_counts[family][k] = fam_counts[family].get(k, 0) + v
        fam_states.setdefault(family, set()).update(r.states)
        for k, v in r.outcomes.items():
            total.outcomes[k] = total.outcomes.get(k, 0) + v
        if len(total.samples) < 6:
            for s in r.samples:
                if len(total.samples) < 6:
                    total.samples.append({"family": family, "case": s})
        for v in r.viols:
            if not accept(v):
                continue
            v["family"] = family
            e = is_known(known, v)
            if e is not None:
                known_hit[e["text"]] = known_hit.get(e["text"], 0) + 1
            else:
                fresh.append(v)
        for c in r.caps:
            if c not in total.caps:
                total.caps.append(c)

    serial = os.environ.get("VERIF_SERIAL")
    if serial:
        quiet()
        for t in tasks:
            merge(*_run_task(t))
            done += 1
    else:
        ctx = multiprocessing.get_context("fork")
        pending = list(tasks)
        crashed = []
        while pending:
            batch, pending = pending, []
            ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker, initargs=(module.__name__,))
            futs = {}
            it = iter(batch)
            broken = False

            def submit():
                for t in it:
                    futs[ex.submit(_run_task, t)] = t
                    return True
                return False
            try:
                for _ in range(jobs * 3):
                    if not submit():
                        break
                while futs:
                    fin = next(as_completed(list(futs)))
                    t = futs.pop(fin)
                    family, r = fin.result()
                    merge(family, r)
                    done += 1
                    if len(fresh) >= STOP_AFTER:
                        break
                    if time.time() - t0 > deadline:
                        capped = True
                        break
                    submit()
            except BrokenProcessPool:
                broken = True
                # a worker was killed: find the task(s) that do it
                suspects = [t] + list(futs.values())
                for s in suspects:
                    if _dies_alone(s, ctx, module):
                        crashed.append(s)
                        fresh.append({"message": "worker process killed while exploring this slice",
                                      "case": {"family": s[0], "args": s[1]}, "tags": ["killed"], "family": s[0]})
                    else:
                        with ProcessPoolExecutor(1, mp_context=ctx, initializer=_init_worker, initargs=(module.__name__,)) as ex1:
                            try:
                                merge(*ex1.submit(_run_task, s).result())
                                done += 1
                            except BrokenProcessPool:
                                fresh.append({"message": "worker process killed while exploring this slice",
                                              "case": {"family": s[0], "args": s[1]}, "tags": ["killed"], "family": s[0]})
                pending = list(it)
            _kill_pool(ex)
            if not broken:
                pending = []
            if capped or len(fresh) >= STOP_AFTER:
                break

    wall = time.time() - t0
    nstates = sum(len(s) for s in fam_states.values())
    exhaustive = not capped and not total.caps and not fresh
    if module.LEVEL == "model_checking":
        cov = {
            "states": nstates,
            "transitions": total.n.get("transitions", 0),
            "traces_validated_against_impl": total.n.get("traces", 0),
            "executions": total.n.get("evaluations", 0),
        }
    else:
        cov = {
            "evaluations": total.n.get("evaluations", 0),
            "distinct_nontrivial": nstates,
        }
    cov.update({
        "rule": getattr(module, "RULE", "every element of the stated bounded space; distinct = distinct canonical states/cases"),
        "samples": [jsonable(s) for s in total.samples] or [{"note": "no sample recorded"}],
        "exhaustive": exhaustive,
        "tasks_planned": len(tasks),
        "tasks_completed": done,
        "per_family": {f: dict(fam_counts.get(f, {}), distinct=len(fam_states.get(f, ()))) for f in sorted(set(fam_counts) | set(fam_states))},
        "outcomes": {str(k): v for k, v in sorted(total.outcomes.items(), key=lambda kv: (-kv[1], str(kv[0])))[:60]},
        "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
        "caps_hit": (["deadline of %d s reached after %d of %d slices" % (deadline, done, len(tasks))] if capped else []) + total.caps,
    })
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": module.LEVEL, "coverage": cov,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": len(fresh),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")

    print("%s %s: %s" % (prop, tier, getattr(module, "TITLE", "")))
    print("  states=%d transitions=%d executions=%d traces=%d outcomes=%d slices=%d/%d wall=%.1fs exhaustive=%s" % (
        nstates, total.n.get("transitions", 0), total.n.get("evaluations", 0), total.n.get("traces", 0),
        len(total.outcomes), done, len(tasks), wall, exhaustive))
    if verbose:
        for f, c in cov["per_family"].items():
            print("   ", f, c)
        print("    outcomes:", json.dumps(cov["outcomes"]))
    for c in cov["caps_hit"]:
        print("  cap: %s" % c)
    for text in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if not fresh:
        if done == 0 or total.n.get("evaluations", 0) == 0:
            print("error: nothing was explored")
            return 2
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    fresh.sort(key=lambda v: (len(json.dumps(jsonable(v["case"]))), json.dumps(jsonable(v["case"]))))
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as fh:
            json.dump({"property": prop, "message": v["message"], "family": v["family"], "case": jsonable(v["case"])}, fh, indent=1)
            fh.write("\n")
        print("  %s" % v["message"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def _kill_pool(ex):
    procs = list((getattr(ex, "_processes", None) or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass


def _dies_alone(task, ctx, module):
    ex = ProcessPoolExecutor(1, mp_context=ctx, initializer=_init_worker, initargs=(module.__name__,))
    try:
        ex.submit(_run_task, task).result()
        return False
    except BrokenProcessPool:
        return True
    finally:
        _kill_pool(ex)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return "hex:" + bytes(x).hex()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def unhex(x):
    if isinstance(x, str) and x.startswith("hex:"):
        return bytes.fromhex(x[4:])
    return x


def pattern(tag, n):
    """Deterministic data of length n, different for every tag, containing
    every byte value soon, not periodic with any sector payload size."""
    h = hashlib.blake2b(str(tag).encode(), digest_size=32).digest()
    a = h[0] | 1
    c = h[1]
    x = h[2] | (h[3] << 8)
    out = bytearray(n)
    for i in range(n):
        x = (x * 20021 + a + 2 * c) & 0xffff
        # the generator alone repeats after 8192 bytes
        out[i] = ((x >> 5) ^ ((i >> 13) * 151 + (i >> 21) * 77)) & 0xff
    return bytes(out)


FILLS = ("zero", "ff", "blank", "eol", "zeroend", "zerostart", "ffend", "ffstart", "marks")


def filled(kind, tag, n):
    """data that a careless program might strip, split or stop at"""
    if not kind:
        return pattern(tag, n)
    if kind in ("zero", "ff", "blank", "eol"):
        return bytes([{"zero": 0, "ff": 255, "blank": 32, "eol": 0x9b}[kind]]) * n
    if kind == "marks":                     # segment markers, line ends, text ends
        return (b"\xff\xff\0\0\x1a\r\n\x9b\xa0\x8d\0\x20\x03\x20AB" * (n // 16 + 1))[:n]
    d = pattern(tag, n)
    k = (n + 1) // 2
    b = b"\0" if kind.startswith("zero") else b"\xff"
    return d[:n - k] + b * k if kind.endswith("end") else b * k + d[k:]


def chunks(seq, size):
    seq = list(seq)
    return [seq[i:i + size] for i in range(0, len(seq), size)]
