"""Parent (campaign) and worker (cases) of every check."""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
NWORK = 8
# seconds before a case is run again with its executed lines counted, the lines no terminating case comes near
# (the longest generated cases take 3 million, real documents 25 million), and the seconds that run may take
LIMITS = {"generated": (40, 30_000_000, 400), "real": (300, 400_000_000, 1500)}


UNREADABLE = (TypeError, KeyError, ValueError, AttributeError, IndexError, RecursionError)
UNREADABLE_TEXT = "the library's answer could not be interpreted:"


class Alarm(BaseException):
    pass


def _alarm(*_):
    raise Alarm()


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()


def run_case(mod, case, stats):
    """-> None or a message.  A case that does not end is decided by counting executed lines, not by the clock."""
    from . import lib
    from .monitor import Violation, Skip
    alarm, cap, second = LIMITS["real" if "fixture" in case else "generated"]
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(alarm)
        try:
            return mod.check(case, stats), None
        finally:
            signal.alarm(0)
    except Skip:
        stats["skipped"] += 1
        return False, None
    except Violation as v:
        return False, str(v)
    except UNREADABLE as e:
        # What the library returned does not even have the shape its interface promises.  (The check itself never
        # raises these on the unchanged library; a second run excludes a passing disturbance.)
        try:
            return mod.check(case, Counter()), None
        except Skip:
            return False, None
        except Violation as v:
            return False, str(v)
        except UNREADABLE as e2:
            tb = traceback.extract_tb(e2.__traceback__)[-1]
            return False, "%s %s: %s (%s:%d)" % (UNREADABLE_TEXT, type(e2).__name__, str(e2)[:300],
                                                 os.path.basename(tb.filename), tb.lineno)
    except Alarm:
        stats["slow_cases"] += 1
        signal.alarm(second)
        try:
            with lib.step_limit(cap):
                return mod.check(case, Counter()), None
        except lib.StepLimit as s:
            return False, "the operation does not terminate: %s" % s
        except Violation as v:
            return False, str(v)
        except Skip:
            return False, None
        finally:
            signal.alarm(0)


def shrink(mod, case, msg, budget=20):
    """Greedy deletion that keeps the document valid and the case failing."""
    from . import gen
    t0 = time.time()
    deadline = t0 + budget
    doc_of = lambda c, k: c.get("other", c["doc"]) if k == "ops2" else c["doc"]
    emptied = {k: k in case and "doc" in case and not getattr(mod, "FREE_OPS", False)
               and gen.cleans_empty(case[k], doc_of(case, k)) for k in ("ops", "ops2")}

    def fails(c):
        if "doc" in c and not gen.valid(c["doc"]):
            return None
        if "doc" in c and not getattr(mod, "FREE_OPS", False):
            for k in ("ops", "ops2"):
                if k in c and not (gen.valid_ops(c[k], doc_of(c, k))
                                   and (emptied[k] or not gen.cleans_empty(c[k], doc_of(c, k)))):
                    return None
        try:
            m = run_case(mod, c, Counter())[1]
        except AssertionError:
            return None
        # a smaller case that only confuses the check itself is no witness
        return None if m and m.startswith(UNREADABLE_TEXT) and not msg.startswith(UNREADABLE_TEXT) else m

    def sites(x, path=()):
        if isinstance(x, dict):
            for k in list(x):
                yield path + (k,)
            for k in list(x):
                yield from sites(x[k], path + (k,))
        elif isinstance(x, list):
            for i in reversed(range(len(x))):
                yield path + (i,)
            for i in range(len(x)):
                yield from sites(x[i], path + (i,))

    def without(c, path):
        c = json.loads(json.dumps(c))
        x = c
        for p in path[:-1]:
            x = x[p]
        del x[path[-1]]
        return c
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for path in list(sites(case)):
            if time.time() > deadline:
                break
            if not (path[0] == "doc" or (path[0] in ("ops", "ops2") and (len(path) == 2 or path[2:3] == (1,) and len(path) == 4))
                    or (hasattr(mod, "shrinkable") and mod.shrinkable(path))):
                continue
            if len(path) == 1 or path[-1] in ("type", "bones", "target") or path[:2] == ("doc", "skeleton") or path in (("doc", "bones"), ("doc", "skins")):
                continue
            try:
                c = without(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            m = fails(c)
            if m:
                case, msg, changed = c, m, True
    return case, msg


def worker(a):
    from . import lib
    lib.install()
    mod = importlib.import_module("mon.props." + a.prop.lower())
    stats, digests, samples, viol = Counter(), set(), [], []
    out = {}
    try:
        for i in range(a.start, a.n, a.step):
            r = random.Random("%s/%s/%d" % (a.prop, a.seed, i))
            case = mod.gen(r, i, a.tier)
            if case is None:
                continue
            stats["evaluations"] += 1
            nontrivial, msg = run_case(mod, case, stats)
            if msg:
                if len(json.dumps(case, default=repr)) < 400000 and not getattr(mod, "NO_SHRINK", False) \
                        and "does not terminate" not in msg:
                    case, msg = shrink(mod, case, msg)
                viol.append({"case": case, "message": msg, "index": i})
                break
            if nontrivial:
                digests.add(digest(case)[:16])
                if len(samples) < 1 or (len(samples) < 2 and i > a.n // 2):
                    s = json.dumps(case, ensure_ascii=True, default=repr)
                    if len(s) < 3500:
                        samples.append(json.loads(s))
        out["ok"] = True
    except Exception:
        out["ok"] = False
        out["error"] = traceback.format_exc()[-3000:]
        out["index"] = i
    out.update(stats=stats, digests=sorted(digests), samples=samples, violations=viol,
               lines={k: sorted(v) for k, v in lib.LINES.items()})
    with open(a.out, "w") as f:
        json.dump(out, f, default=repr)


def env_for(seed, w):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str((seed * 1009 + w * 7919 + 1) % 4294967295)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    e["PYTHONPATH"] = ROOT
    e.setdefault("LC_ALL", "C.UTF-8")
    return e


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != rec["hashseed"]:
        os.environ.update(env_for(0, 0), PYTHONHASHSEED=rec["hashseed"])
        os.execv(PY, [PY, "-m", "mon.runner", rec["property"], "--replay", path])
    from . import lib
    lib.install()
    mod = importlib.import_module("mon.props." + rec["property"].lower())
    _, msg = run_case(mod, rec["case"], Counter())
    print("replay: %s" % (msg or "no violation"))
    if msg:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1 if msg else 0


def executable_lines(path):
    import types
    out = set()
    with open(path) as f:
        top = compile(f.read(), path, "exec")
    todo = [top]
    while todo:
        c = todo.pop()
        if c is not top:
            out.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.worker:
        return worker(a)
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("mon.props." + a.prop.lower())
    n = a.n or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    import tempfile
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    procs = []
    try:
        for w in range(NWORK):
            out = os.path.join(tmp, "w%d.json" % w)
            err = open(os.path.join(tmp, "w%d.err" % w), "w+")
            p = subprocess.Popen([PY, "-m", "mon.runner", a.prop, "--worker", "--tier", a.tier, "--seed", str(a.seed),
                                  "--n", str(n), "--start", str(w), "--step", str(NWORK), "--out", out],
                                 cwd=tmp, env=env_for(a.seed, w), stdout=subprocess.DEVNULL, stderr=err)
            procs.append((p, out, err))
        cap = (800 if a.tier == "quick" else 7200)
        results, problems = [], []
        for w, (p, out, err) in enumerate(procs):
            try:
                p.wait(timeout=max(5, cap - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                problems.append("worker %d exceeded the wall-clock watchdog (inconclusive)" % w)
                p.kill()
                p.wait()
                continue
            if not os.path.exists(out):
                err.seek(0)
                problems.append("worker %d died (%s): %s" % (w, p.returncode, err.read()[-1500:]))
                continue
            with open(out) as f:
                res = json.load(f)
            res["hashseed"] = env_for(a.seed, w)["PYTHONHASHSEED"]
            results.append(res)
            if not res["ok"]:
                problems.append("worker %d failed at case %s: %s" % (w, res.get("index"), res["error"]))
    finally:
        for p, _, err in procs:
            if p.poll() is None:
                p.kill()
            err.close()
        subprocess.run(["rm", "-rf", tmp])

    stats, digests, samples, viol, lines = Counter(), set(), [], [], {}
    for res in results:
        stats.update(res["stats"])
        digests.update(res["digests"])
        samples += res["samples"]
        for v in res["violations"]:
            v["hashseed"] = res["hashseed"]
            viol.append(v)
        for f, ls in res["lines"].items():
            lines.setdefault(f, set()).update(ls)
    cov = {}
    repo = os.environ.get("SPINE_REPO", "/repo")
    for f in getattr(mod, "FILES", sorted(lines)):
        p = os.path.join(repo, "spine_json_lib", f)
        if os.path.exists(p):
            ex = executable_lines(p)
            cov[f] = "%d/%d" % (len(ex & lines.get(f, set())), len(ex))
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": stats.pop("evaluations", 0),
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples[:3] or ["no nontrivial case small enough to print"],
            "observed": dict(sorted(stats.items())),
            "library_function_lines_executed": cov,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "monitored executions only: nothing is claimed for inputs the generator cannot produce",
            "the independent Spine 3.8 model in mon/spec.py is taken as the meaning of a document"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    c = evidence["coverage"]
    print("%s %s seed=%d: %d executions, %d distinct nontrivial, %s, %.1fs" % (
        a.prop, a.tier, a.seed, c["evaluations"], c["distinct_nontrivial"],
        json.dumps(c["observed"]), evidence["wall_s"]))
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v["case"], default=repr)))
        seen = set()
        for v in viol:
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (a.prop, digest(v["case"])[:10]))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "message": v["message"], "hashseed": v["hashseed"],
                           "seed": a.seed, "index": v["index"], "case": v["case"]}, f, indent=1, default=repr)
            print("  witness: %s" % v["message"][:600])
            if path not in seen:
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
            seen.add(path)
        sys.exit(1)
    for p in problems:
        print("INCONCLUSIVE: " + p)
    if not problems:
        for k, least in getattr(mod, "REQUIRED", {}).items():
            got = c["distinct_nontrivial"] if k == "distinct_nontrivial" else stats.get(k, 0)
            if got < least:
                problems.append(k)
                print("INCONCLUSIVE: %s: observed %d, need at least %d" % (k, got, least))
    sys.exit(2 if problems else 0)


if __name__ == "__main__":
    main()
