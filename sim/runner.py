"""
Seeded search over simulated executions: sharding, watchdog, minimisation, replay, evidence.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")

CPU_LIMIT = 20.0      # seconds of CPU for one execution (they take milliseconds): more is a hang
REAL_LIMIT = 240.0


def load_check(pid):
    return importlib.import_module(f"sim.checks.{pid.lower()}").CHECK


def case_rng(seed, pid, i):
    h = hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(log):
    return hashlib.sha256(repr(log).encode("utf-8", "surrogatepass")).hexdigest()[:20]


class Scratch:
    """Scratch directory of one worker; removed at the end."""

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="cpesim_"))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def _alarm(signum, frame):
    raise W.Hang()


def execute(check, case, root):
    """Run one case. Returns (violation or None, world)."""
    w = W.World(root)
    w.wipe()
    violation = None
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, check.cpu_limit, 1.0)
    signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT, 5.0)
    try:
        try:
            w.install(check.environ(case, w))
            check.run(case, w)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            w.uninstall()
    except W.Violation as v:
        violation = v
    except W.Hang:
        violation = W.Violation("hang", "the execution did not finish")
    finally:
        w.uninstall()
        try:
            w.wipe()
        except OSError:
            pass
    if violation is not None and not violation.kind.startswith(check.id):
        violation.kind = f"{check.id}.{violation.kind}"
    return violation, w


# ---------------------------------------------------------------------- shrinking
def _paths(x, pre=()):
    """All lists inside a JSON value, outermost first."""
    if isinstance(x, list):
        yield pre
        for i, y in enumerate(x):
            yield from _paths(y, pre + (i,))
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], pre + (k,))


def _at(x, path):
    for p in path:
        x = x[p]
    return x


def _copy(x):
    return json.loads(json.dumps(x))


class Result:
    """What an isolated execution reported."""

    def __init__(self, kind=None, detail=None, log=(), at=None):
        self.kind = kind          # kind of the violation, None if there was none
        self.detail = detail
        self.log = log
        self.at = at              # index of the violating case

    def digest(self):
        return digest(self.log)


def run_seq(check, cases, root):
    """Executes the cases one after another in this process, as a worker does; stops at the first violation."""
    w = None
    for i, c in enumerate(cases):
        try:
            v, w = execute(check, c, root)
        except W.Inadmissible:
            w = None
            continue
        if v is not None:
            return Result(v.kind, v.detail, w.log, i)
    return Result(log=w.log if w is not None else ())


def in_child(fn):
    """The result of fn() in a forked process: whatever it leaves behind in modules and classes is lost."""
    r, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(fn())
            except BaseException:
                data = pickle.dumps(RuntimeError(traceback.format_exc()))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data) if data else RuntimeError("the child process died")
    if isinstance(res, RuntimeError):
        raise res
    return res


def iso(check, cases, root):
    """The cases one after another in a process that has not run anything before."""
    try:
        return in_child(lambda: run_seq(check, cases, root))
    except RuntimeError:
        return Result()


def shrink(check, seq, kind, root, run, budget_s=25.0, budget_runs=600):
    """Greedy minimisation of a sequence of cases: drop list elements (whole cases, operations, faults, file
    lines, schedule points), keep the candidate if the same kind of violation remains."""
    t0 = time.time()
    runs = [0]

    def over():
        return time.time() - t0 > budget_s or runs[0] >= budget_runs

    def fails(c):
        if over() or not c:
            return False
        runs[0] += 1
        try:
            r = run(check, c, root)
        except Exception:
            return False
        return r.kind == kind

    cur = _copy(seq)
    progress = True
    while progress and not over():
        progress = False
        for path in list(_paths(cur)):
            try:
                lst = _at(cur, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list) or len(path) > 1 and path[1] in check.keep:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(_at(cur, path)):
                    cand = _copy(cur)
                    l = _at(cand, path)
                    del l[i:i + size]
                    if fails(cand):
                        cur = cand
                        progress = True
                    else:
                        i += size
                    if over():
                        break
                if size == 1 or over():
                    break
                size //= 2
    return cur, runs[0]


def reproduce(check, seed, tier, workers, viols, root):
    """A sequence of cases (mostly one) that shows the violation when it is run in a fresh process.

    A violation that needs what earlier executions left behind in modules or classes gets those executions in
    front of it. Returns (sequence, index, kind, seen again)."""
    for index, kind, detail, case in viols:
        if iso(check, [case], root).kind == kind:
            return [case], index, kind, True
    t0 = time.time()
    for index, kind, detail, case in viols:
        before = list(range(index % workers, index, workers))
        size = 1
        while before and time.time() - t0 < 150:
            part = before[-size:]
            seq = [_copy(check.gen(case_rng(seed, check.id, j), tier)) for j in part] + [case]
            r = iso(check, seq, root)
            if r.kind is not None:
                return seq[:r.at + 1], index, r.kind, True
            if len(part) == len(before):
                break
            size *= 2
    index, kind, detail, case = viols[0]
    return [case], index, kind, False


def minimise(check, seq, kind, root):
    """The minimised sequence and the number of executions it took."""
    if len(seq) == 1:
        small, runs = in_child(lambda: shrink(check, seq, kind, root, run_seq))
        if iso(check, small, root).kind == kind:
            return small, runs
    return shrink(check, seq, kind, root, iso, budget_s=60.0)


# ---------------------------------------------------------------------- workers
def _worker(check, seed, tier, indices, deadline, out):
    res = {"n": 0, "counts": {}, "steps": 0, "digests": set(), "nontriv": set(), "violation": None, "samples": [],
           "cases": 0, "inadmissible": 0, "error": None, "sample_digests": {}}
    try:
        with Scratch() as root:
            for i in indices:
                if time.time() > deadline:
                    res["capped"] = True
                    break
                rng = case_rng(seed, check.id, i)
                case = check.gen(rng, tier)
                case = _copy(case)
                try:
                    v, w = execute(check, case, root)
                except W.Inadmissible:
                    res["inadmissible"] += 1
                    continue
                res["n"] += 1
                res["steps"] += w.steps
                for k, c in w.counts.items():
                    res["counts"][k] = res["counts"].get(k, 0) + c
                d = digest(w.log)
                if i < 64:
                    res["sample_digests"][i] = d
                res["digests"].add(d[:12])
                if check.nontrivial(case, w):
                    res["nontriv"].add(d[:12])
                    if len(res["samples"]) < 1 and any(k.startswith("fault.") for k in w.counts):
                        res["samples"].append({"index": i, "case": case, "log_tail": repr(w.log[-12:])[:1500],
                                               "counts": w.counts})
                if v is not None:
                    res["violation"] = (i, v.kind, v.detail, case)
                    break
    except BaseException:
        res["error"] = traceback.format_exc()
    with open(out, "wb") as f:
        pickle.dump(res, f)


def run_sharded(check, seed, tier, n, wall, workers):
    deadline = time.time() + wall
    tmp = tempfile.mkdtemp(prefix="cpesim_res_")
    pids = []
    try:
        sys.stdout.flush()
        for k in range(workers):
            out = os.path.join(tmp, f"{k}.pkl")
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(check, seed, tier, range(k, n, workers), deadline, out)
                finally:
                    os._exit(0)
            pids.append((pid, out))
        results = []
        for pid, out in pids:
            os.waitpid(pid, 0)
            try:
                with open(out, "rb") as f:
                    results.append(pickle.load(f))
            except Exception as ex:
                results.append({"error": f"worker died without a result: {ex!r}"})
        return results
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------- replay files
def write_replay(pid, seed, index, seq, kind, detail, dig, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, f"{pid}-seed{seed}-case{index}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "seed": seed, "index": index, "kind": kind, "detail": detail, "log_digest": dig,
                   "prelude": seq[:-1], "case": seq[-1], **extra}, f, indent=1)
        f.write("\n")
    return p


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    check = load_check(rec["property"])
    with Scratch() as root:
        r = run_seq(check, rec.get("prelude", []) + [rec["case"]], root)
    d = r.digest()
    if r.kind is None:
        print(f"REPLAY property={rec['property']} did not reproduce (log digest {d}, recorded {rec['log_digest']})")
        return 0
    print(f"{r.kind}: {r.detail}")
    print(f"log digest {d} recorded {rec['log_digest']} {'identical' if d == rec['log_digest'] else 'DIFFERENT'}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1 if r.kind == rec["kind"] else 3


def digests_of(pid, seed, tier, idx):
    """Log digests of some cases; used to compare processes and hash seeds."""
    check = load_check(pid)
    out = {}
    with Scratch() as root:
        for i in idx:
            case = _copy(check.gen(case_rng(seed, check.id, i), tier))
            try:
                v, w = execute(check, case, root)
            except W.Inadmissible:
                continue
            out[i] = digest(w.log) + ("!" + v.kind if v else "")
    return out


def determinism_sample(pid, seed, tier, expected, n=8):
    """Re-run some cases in a fresh interpreter with another hash seed. Reported, never decisive."""
    idx = sorted(expected)[:n]
    env = dict(os.environ, PYTHONHASHSEED="4242", CPESIM_HASHSEED="4242")
    try:
        r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check"), "digests", pid, tier, str(seed),
                            ",".join(map(str, idx))], env=env, capture_output=True, text=True, timeout=120)
        got = {int(k): v for k, v in json.loads(r.stdout.strip().splitlines()[-1]).items()}
    except Exception as ex:
        return {"compared": 0, "identical": 0, "note": f"not run: {type(ex).__name__}"}
    same = sum(1 for i in idx if got.get(i) == expected[i])
    return {"compared": len(idx), "identical": same, "hash_seeds": ["0", "4242"]}


# ---------------------------------------------------------------------- main entry
def run_check(pid, tier, seed):
    t0 = time.time()
    check = load_check(pid)
    n = check.quick_n if tier == "quick" else check.thorough_n
    wall = float(os.environ.get("VERIF_WALL", check.quick_wall if tier == "quick" else check.thorough_wall))
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, max(1, os.cpu_count() or 1))
    n = int(os.environ.get("VERIF_CASES", n))

    known = in_child(lambda: list(check.known_findings()))

    results = run_sharded(check, seed, tier, n, wall, workers)
    errors = [r["error"] for r in results if r.get("error")]
    good = [r for r in results if not r.get("error")]

    counts, digests, nontriv, samples, sdig = {}, set(), set(), [], {}
    steps = total = inad = 0
    viols = []
    for r in results:
        if "n" not in r:
            continue
        total += r["n"]
        steps += r["steps"]
        inad += r["inadmissible"]
        digests |= r["digests"]
        nontriv |= r["nontriv"]
        samples += r["samples"]
        sdig.update(r["sample_digests"])
        for k, c in r["counts"].items():
            counts[k] = counts.get(k, 0) + c
        if r["violation"]:
            viols.append(r["violation"])

    rc = 0
    vio_lines = []
    if viols:
        viols.sort(key=lambda v: v[0])
        with Scratch() as root:
            seq, index, kind, again = reproduce(check, seed, tier, workers, viols, root)
            if not again and all(v[1].endswith(".hang") for v in viols):
                errors.append(f"case {index} did not finish in time once, and did when it was repeated")
                viols = []
            else:
                small, runs = minimise(check, seq, kind, root) if again else (seq, 0)
                r = iso(check, small, root)
                if r.kind != kind:
                    small = seq
                    r = iso(check, small, root)
                if r.kind is None:
                    r = Result(kind, viols[0][2])
                path = write_replay(pid, seed, index, small, r.kind, r.detail, r.digest(),
                                    {"tier": tier, "shrink_runs": runs, "trace": [repr(e) for e in r.log][-400:]})
                rr = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check"), "replay", path],
                                    capture_output=True, text=True, env=dict(os.environ))
                same = rr.returncode == 1 and "identical" in rr.stdout
                print(f"{r.kind}: {r.detail}")
                print(f"case {index} of seed {seed}, {len(small) - 1} executions before it in the same process, "
                      f"minimised with {runs} runs, fresh-process replay {'identical' if same else 'differs'}")
                vio_lines.append(f"VIOLATION property={pid} replay={path}")
                rc = 1

    wall_s = time.time() - t0
    det = None
    if rc == 0 and not errors and sdig:
        det = determinism_sample(pid, seed, tier, sdig)

    fired = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe.")}
    cov = {
        "evaluations": total,
        "distinct_nontrivial": len(nontriv),
        "rule": check.rule,
        "samples": samples[:3] or [{"note": "no faulty sample in this run"}],
        "distinct_executions": len(digests),
        "distinct_measure": "number of different seam event logs (operations, I/O, callbacks, faults, schedule points)",
        "simulated_steps": steps,
        "simulated_time": "the code reads no clock; simulated time is counted in seam crossings (simulated_steps)",
        "runs_and_seeds_per_hour": int(total / max(wall_s, 1e-3) * 3600),
        "seed_rule": "case i of VERIF_SEED s is generated from sha256(s/property/i): every run has its own seed",
        "cases_out_of_domain": inad,
        "capped_by_wall_clock": any(r.get("capped") for r in good),
        "faults_fired": fired,
        "probes": probes,
        "components_real": check.real,
        "components_stub": check.stub,
        "determinism_recheck": det,
        "workers": workers,
        "known_findings_reported": len(known),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(vio_lines)}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))

    for k in known:
        print(k)
    print(f"{pid} {tier}: {total} simulated runs, {len(digests)} distinct, {len(nontriv)} non-trivial, "
          f"{sum(fired.values())} faults of {len(fired)} kinds, {steps} steps, {wall_s:.1f}s")
    for l in vio_lines:
        print(l)
    if rc == 0 and errors:
        print("HARNESS ERROR", errors[0], file=sys.stderr)
        return 2
    return rc
