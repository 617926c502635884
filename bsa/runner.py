"""Runs the obligations of one property, in parallel, and reports."""
from __future__ import annotations

import json
import os
import pathlib
import signal
import sys
import time
import traceback
from multiprocessing import TimeoutError, get_context

from . import dom, lexob, spec, world

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known-findings.txt"


class Task:
    """one obligation: a function of the statistics that returns findings"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def run_case(case):
    return Task(case.name, lambda st: spec.check(case, st))


def lex_case(case, kinds=lexob.KINDS):
    return Task(f"scan {case.name}", lambda st: lexob.check(case, st, kinds))


def load_known(prop):
    """[(what, set of keys)]"""
    out = []
    cur = None
    if KNOWN.exists():
        for line in KNOWN.read_text(encoding="utf-8").splitlines():
            if line.startswith("known: property="):
                pid, _, what = line[len("known: property="):].partition(" ")
                cur = (what, set()) if pid == prop else None
                if cur:
                    out.append(cur)
            elif line.startswith("  key: "):
                if cur:
                    cur[1].add(json.loads(line[len("  key: "):]))
            elif line.strip() and not line.startswith(" "):
                cur = None
    return out


_tasks: list = []
DEADLINE = {"quick": 600, "thorough": 780}   # seconds; a check has 900
TASK_LIMIT = 150
_clock = {"end": None, "found": None}


class OutOfTime(dom.Engine):
    """an obligation took too long: undecided"""


def _alarm(*_):
    raise OutOfTime("time limit")


def _one(i):
    t = _tasks[i]
    st = spec.Stats()
    t0 = time.time()
    left = _clock["end"] - t0
    # with violations in hand, the rest of the search only adds more of them
    if left < 5 or (_clock["found"].value and t0 > _clock["patience"]):
        st.undecided.append((t.name, "not reached in time"))
        return i, [], st, 0.0
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(TASK_LIMIT, left))
    try:
        return _one_timed(i, t, st, t0)
    except OutOfTime:
        st.undecided.append((t.name, "time limit"))
        return i, [], st, time.time() - t0
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _some(ids):
    return [_one(i) for i in ids]


def _one_timed(i, t, st, t0):
    try:
        dom.CTX.path = dom.Path()
        fs = t.fn(st) or []
        fs = [{"key": f.key, "case": getattr(f.case, "name", str(f.case)),
               "source": f.case.source() if hasattr(f.case, "source") else None, "message": f.message,
               "where": spec.where(f.loc), "detail": json.loads(json.dumps(f.detail, default=repr))} for f in fs]
    except dom.Engine as e:
        st.undecided.append((t.name, f"{type(e).__name__}: {e}"))
        fs = []
    except RecursionError:
        st.undecided.append((t.name, "recursion"))
        fs = []
    except Exception:
        st.undecided.append((t.name, "internal: " + traceback.format_exc()[-900:]))
        fs = []
    st.functions |= spec.W.interp.called
    spec.W.interp.called = set()
    return i, fs, st, time.time() - t0


def main(prop, tier=None, repo=None, verbose=False):
    from . import checks
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    repo = repo or os.environ.get("BSA_REPO") or "/repo"
    sys.setrecursionlimit(20000)
    chk = checks.CHECKS[prop]
    try:
        w = world.World(repo)
        spec.use(w)
        w.parser()
        tasks = chk.tasks(tier)
    except Exception as e:  # the sources cannot be read at all
        traceback.print_exc()
        print(f"analysis of {repo} not possible: {type(e).__name__}: {e}")
        return 2
    _tasks[:] = tasks
    stats = spec.Stats()
    found = {}
    slow = []
    names = set()
    und_tasks = set()
    nproc = int(os.environ.get("BSA_JOBS") or min(8, os.cpu_count() or 1))
    ctx = get_context("fork")
    _clock["end"] = t0 + DEADLINE.get(tier, 600)
    _clock["patience"] = t0 + float(os.environ.get("BSA_PATIENCE") or 200)
    _clock["found"] = ctx.Value("b", 0)
    known = load_known(prop)
    known_keys = set().union(*[k for _, k in known]) if known else set()
    with ctx.Pool(nproc) as pool:
        chunk = max(1, min(6, len(tasks) // (nproc * 6) or 1))
        it = pool.imap_unordered(_some, [range(k, min(k + chunk, len(tasks))) for k in range(0, len(tasks), chunk)])
        seen = set()
        ready = []
        while True:
            try:
                if not ready:
                    ready = it.next(timeout=max(1, _clock["end"] + 60 - time.time()))
                i, fs, st, dt = ready.pop()
            except StopIteration:
                break
            except TimeoutError:  # a worker died
                for i in set(range(len(tasks))) - seen:
                    und_tasks.add(i)
                    stats.undecided.append((tasks[i].name, "no result"))
                pool.terminate()
                break
            seen.add(i)
            stats.merge(st)
            names.add(tasks[i].name)
            if st.undecided:
                und_tasks.add(i)
            slow.append((round(dt, 2), tasks[i].name))
            for f in fs:
                found.setdefault(f["key"], f)
                if f["key"] not in known_keys:
                    _clock["found"].value = 1
    status = 0
    hit = set()
    new = []
    for k in sorted(found):
        for what, keys in known:
            if k in keys:
                hit.add(what)
                break
        else:
            new.append(found[k])
    for what in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if new:
        d = ROOT / "replays"
        d.mkdir(exist_ok=True)
        p = d / f"{prop}.json"
        p.write_text(json.dumps({"property": prop, "rule": chk.rule, "violations": new[:3000]}, indent=1, ensure_ascii=False),
                     encoding="utf-8")
        for f in new[:6]:
            print(f"{prop}: {f['case']}")
            if f["source"]:
                print("    source  : " + json.dumps(f["source"], ensure_ascii=False)[:400])
            if f["detail"].get("text"):
                print("    example : " + json.dumps(f["detail"]["text"], ensure_ascii=False)[:400])
            print("    problem : " + f["message"][:600])
            if f["where"]:
                print("    at      : " + f["where"])
        if len(new) > 6:
            print(f"... and {len(new) - 6} more, see {p}")
        print(f"VIOLATION property={prop} replay={p}")
        status = 1
    slow.sort(reverse=True)
    cov = {
        "explanation": chk.explain,
        "rule": chk.rule,
        "obligations": len(tasks),
        "obligations_undecided": len(und_tasks),
        "templates": stats.cases,
        "abstract_paths": stats.paths,
        "comparisons": stats.comparisons,
        "paths_where_a_value_was_sampled": stats.sampled,
        "undecided": [f"{a}: {str(b)[:300]}" for a, b in stats.undecided[:25]],
        "samples": stats.samples[:6],
        "functions_analysed": sorted(functions(w, stats))[:400],
        **stats.extra,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
        "known_findings_present": sorted(hit),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False, default=repr), encoding="utf-8")
    print(f"{prop}: {len(tasks)} obligations, {stats.cases} templates, {stats.paths} paths, {len(und_tasks)} undecided, "
          f"{len(new)} violations, {len(found) - len(new)} known keys, {ev['wall_s']} s")
    if verbose:
        for x in slow[:4]:
            print("   ", *x)
        for a, b in stats.undecided[:6]:
            print("    undecided:", a, "|", str(b)[-260:])
        for k in sorted(found)[:60]:
            print("    key:", json.dumps(k, ensure_ascii=False), "" if found[k] in new else "(known)")
    if status == 0 and len(und_tasks) * 2 > len(tasks):
        print(f"{prop}: more than half of the obligations could not be decided")
        return 2
    return status


def functions(w, stats):
    """file:line name of every function of the package the analysis went through"""
    out = set()
    for path, line, name in stats.functions:
        rel = str(path).replace(str(w.repo) + "/", "")
        out.add(f"{rel}:{line} {name}")
    return out
