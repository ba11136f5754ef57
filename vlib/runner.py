"""
Case runner: deterministic generation, forked workers, watchdogs, evidence, verdicts.

A check module provides
    ID, LEVEL, RULE, ASSUMPTIONS
    gen(tier, seed)      iterator of JSON-able cases (deterministic)
    run(case, st)        raises Violation (or any exception) when the property is broken;
                         st.count(name, n) / st.seen(key) record what was observed
    MIN                  {counter: minimum} below which the verdict is "inconclusive"
    DEADLINE             {"quick": s, "thorough": s}  soft wall deadline for starting new cases
"""
import collections
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

import vlib.loader  # noqa: F401

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_CPU = float(os.environ.get("VERIF_CASE_CPU", "30"))


class Violation(Exception):
    """The property is broken (message explains how).  `key` identifies the mechanism."""

    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class CpuBudget(SystemExit):
    """Raised inside the running code when it burns its CPU budget."""


class _Wall(SystemExit):
    pass


class Stats:
    def __init__(self):
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.maxima = {}

    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode("utf8", "replace"), digest_size=8).digest())

    def peak(self, name, v):
        if v > self.maxima.get(name, float("-inf")):
            self.maxima[name] = v

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def _cpu_fire(signum, frame):
    raise CpuBudget("CPU budget of the case exhausted")


def with_cpu(seconds):
    signal.signal(signal.SIGVTALRM, _cpu_fire)
    signal.signal(signal.SIGALRM, _cpu_fire)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    # generous wall backstop: the event loop of the harness never sleeps, so this only fires when
    # the code under test blocks the thread
    signal.setitimer(signal.ITIMER_REAL, max(90.0, seconds * 5))


def no_cpu():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(mod, case, st):
    """-> None or dict describing the violation."""
    limit = getattr(mod, "CASE_CPU", CASE_CPU)
    try:
        with_cpu(limit)
        try:
            mod.run(case, st)
        finally:
            no_cpu()
        return None
    except Violation as e:
        return {"msg": str(e), "key": e.key, "detail": e.detail}
    except CpuBudget:
        return {"msg": f"no progress: case exceeded {limit:g} s of CPU time (hang / blocked event loop)", "key": "cpu",
                "detail": traceback.format_exc(limit=-6)}
    except MemoryError:
        return {"msg": "memory exhausted while running the case", "key": "memory", "detail": None}
    except Exception as e:  # a malformed response, an unexpected failure of the server ...
        return {"msg": f"{type(e).__name__}: {e}", "key": None,
                "detail": traceback.format_exc(limit=-8)}


def _worker(mod, tier, seed, w, n, deadline, fd, stop_after):
    st = Stats()
    knownkeys = {k for k, _ in load_known(mod.ID)}
    viol = []
    done = 0
    truncated = False
    t0 = time.time()
    prof = collections.Counter()
    slowest = (0, None)
    try:
        for i, case in enumerate(mod.gen(tier, seed)):
            if i % n != w:
                continue
            if time.time() > deadline:
                truncated = True
                break
            done += 1
            t = time.time()
            v = run_case(mod, case, st)
            dt = time.time() - t
            k = str(case.get("k", "?"))
            prof[k] += dt
            st.counts["cases." + k] += 1
            if dt > slowest[0]:
                slowest = (dt, case)
            if v is not None:
                v["case"] = case
                v["index"] = i
                viol.append(v)
                if sum(1 for x in viol if not (x.get("key") and x["key"] in knownkeys)) >= stop_after:
                    break
        msg = {"ok": True}
    except BaseException as e:  # generator/harness failure
        msg = {"ok": False, "error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
    msg.update(done=done, viol=viol, counts=dict(st.counts), maxima=st.maxima, samples=st.samples,
               keys=[k.hex() for k in st.keys], truncated=truncated, prof=dict(prof),
               slowest=[slowest[0], slowest[1]], wall=time.time() - t0)
    data = json.dumps(msg, default=repr).encode()
    with os.fdopen(fd, "wb") as f:
        f.write(data)


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out.append((key.removeprefix("key="), text))
    return out


def replay_cmd(mod, path):
    with open(path) as f:
        rec = json.load(f)
    st = Stats()
    v = run_case(mod, rec["case"], st)
    if v is None:
        print("replay: no violation")
        return 0
    print("replay:", v["msg"])
    if v.get("detail"):
        print(v["detail"])
    return 1


def main(name):
    try:
        mod = importlib.import_module("checks." + name)
    except Exception:
        traceback.print_exc()
        return 2
    args = sys.argv[1:]
    if "--replay" in args:
        return replay_cmd(mod, args[args.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    budget = getattr(mod, "DEADLINE", {"quick": 240, "thorough": 780})[tier]
    deadline = t0 + budget
    procs = []
    for w in range(WORKERS):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                _worker(mod, tier, seed, w, WORKERS, deadline, wfd, 3)
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    # collect
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in procs:
        os.set_blocking(r, False)
        sel.register(r, selectors.EVENT_READ, pid)
        bufs[r] = bytearray()
    hard = deadline + 100
    killed = False
    while sel.get_map():
        for key, _ in sel.select(1.0):
            try:
                d = os.read(key.fd, 1 << 20)
            except BlockingIOError:
                continue
            if d:
                bufs[key.fd] += d
            else:
                sel.unregister(key.fd)
        if time.time() > hard and not killed:
            killed = True
            for pid, r in procs:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
    for pid, r in procs:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    counts = collections.Counter()
    maxima = {}
    keys = set()
    samples = []
    viol = []
    errors = []
    prof = collections.Counter()
    done = 0
    truncated = False
    slow = (0, None)
    for pid, r in procs:
        try:
            m = json.loads(bytes(bufs[r]).decode())
        except ValueError:
            errors.append("a worker died without reporting")
            continue
        if not m["ok"]:
            errors.append(m["error"])
        counts.update(m["counts"])
        for k, v in m["maxima"].items():
            maxima[k] = max(v, maxima.get(k, v))
        keys.update(m["keys"])
        samples += m["samples"]
        viol += m["viol"]
        prof.update(m["prof"])
        done += m["done"]
        truncated |= m["truncated"]
        if m["slowest"][0] > slow[0]:
            slow = tuple(m["slowest"])
    viol.sort(key=lambda v: v["index"])
    known = load_known(mod.ID)
    knownkeys = {k: t for k, t in known}
    fresh = [v for v in viol if not (v.get("key") and v["key"] in knownkeys)]
    hit = {v["key"] for v in viol if v.get("key") and v["key"] in knownkeys}
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for k, t in known:
        print(f"KNOWN-FINDING: property={mod.ID} {t}" + ("" if k in hit else " (not re-observed in this run)"))
    for n, v in enumerate(fresh[:5]):
        p = os.path.join(rdir, f"{mod.ID}-{n}.json")
        with open(p, "w") as f:
            json.dump({"property": mod.ID, "case": v["case"], "msg": v["msg"], "detail": v["detail"],
                       "key": v["key"]}, f, indent=1, default=repr)
        v["replay"] = p
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples[:5] or ["(none)"],
        "events": {k: counts[k] for k in sorted(counts)},
        "deadline_reached": truncated,
        "cpu_profile_s": {k: round(v, 2) for k, v in prof.most_common()},
        "slowest_case_s": round(slow[0], 3),
    }
    if maxima:
        cov["maxima"] = maxima
    if getattr(mod, "EXHAUSTIVE", None):
        cov["exhaustive_parts"] = mod.EXHAUSTIVE
    wall = time.time() - t0
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(fresh)}
    tmp = os.path.join(EVID, f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVID, f"{mod.ID}.json"))
    print(f"{mod.ID} tier={tier} seed={seed} cases={done} distinct={len(keys)} "
          f"violations={len(fresh)} wall={wall:.1f}s" + (" (deadline)" if truncated else ""))
    if "-v" in args:
        print(json.dumps(cov, indent=1, default=repr))
        print("slowest", slow)
    if fresh:
        for v in fresh[:5]:
            print(f"  case {json.dumps(v['case'], default=repr)[:300]}\n  -> {v['msg'][:600]}")
            if "-v" in args and v["detail"]:
                print(v["detail"])
        for v in fresh[:5]:
            print(f"VIOLATION property={mod.ID} replay={v['replay']}")
        return 1
    if killed or errors:
        for e in errors:
            print("harness error:", e)
        return 2
    low = {k: (counts.get(k, 0), m) for k, m in getattr(mod, "MIN", {}).items() if counts.get(k, 0) < m}
    if low:
        print("inconclusive, minimum observations not reached:", low)
        return 3
    return 0
