#!/opt/venv/bin/python
"""check.py <property id>: decide one property on /repo's current tree.  See DESIGN.md."""
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["NBKODE_NONUMBA"] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"

from nbv.props import SPECS, TRUSTED, assumptions  # noqa: E402

REPO = os.environ.get("NBV_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def jobs():
    try:
        return max(2, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def task_process(conn, prop, index, cfg):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.setpgrp()
    from nbv.engine import Run
    from nbv.tasks import TASKS
    name, fn, base = TASKS[prop][index]
    cfg = dict(base, **cfg)
    dump = [] if cfg.pop("want_dump", False) else None
    if dump is not None:
        cfg["dump"] = dump
    seen = watch_functions()
    cfg["stream"] = lambda o: conn.send(("refuted", (o.name, o.status, o.path, o.detail, o.backend, o.time, o.exact)))
    r = Run(name, cfg).verify(fn)
    s = r.summary()
    r.functions = seen
    out = dict(name=name, index=index, obligations=[(o.name, o.status, o.path, o.detail, o.backend, o.time, o.exact) for o in r.obligations],
               unsupported=r.unsupported, covers=r.covers, paths=r.paths, wall=r.wall, solver_time=r.solver_time,
               queries=r.queries, truncated=r.truncated, bounded=r.bounded, invariants=sorted(map(str, r.invs)),
               functions=sorted(getattr(r, "functions", ())), notes=sorted(r.notes))
    if dump is not None:
        from nbv import crosscheck
        out["crosscheck"] = crosscheck.run(dump)
    conn.send(("done", out))
    conn.close()


def watch_functions():
    """Names of the functions of /repo that the verifier executes."""
    seen, m = set(), sys.monitoring

    def start(code, offset):
        if code.co_filename.startswith(os.path.join(REPO, "nbkode")):
            seen.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return m.DISABLE
    m.use_tool_id(3, "nbv")
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)
    return seen


def run_tasks(prop, which, cfg, limit, deadline=None, only=None):
    """({index: result or None}, {index: refuted obligations}); in parallel, each task in its own process.
    Refutations are streamed, so that those of a task which does not finish are not lost."""
    ctx = mp.get_context("fork")
    pending, live, done, streamed = list(which), {}, {}, {}
    n = jobs()
    while pending or live:
        while pending and len(live) < n:
            i = pending.pop(0)
            if deadline and time.time() > deadline - 5:
                done[i] = None
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=task_process, args=(b, prop, i, dict(cfg, only=only[i]) if only else cfg), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        time.sleep(0.02)
        for i, (p, a, t0) in list(live.items()):
            end = False
            try:
                while not end and a.poll(0):
                    what, x = a.recv()
                    if what == "refuted":
                        streamed.setdefault(i, []).append(x)
                    else:
                        done[i], end = x, True
            except EOFError:
                done[i], end = None, True
            if not end and not p.is_alive() and not a.poll(0):
                done[i], end = None, True
            if not end and (time.time() - t0 > limit or deadline and time.time() > deadline):
                p.kill()
                done[i], end = None, True
            if end:
                p.join(5)
                del live[i]
    return done, streamed


def load_specs(prop):
    import importlib
    for m in SPECS[prop]:
        importlib.import_module("nbv.specs." + m)
    from nbv.tasks import TASKS
    return TASKS.get(prop, [])


def start_replay_search(prop, tier):
    """Concrete executions of the real code (uninstrumented): the search for a failing input."""
    path = os.path.join(HERE, "harness", prop.lower() + ".py")
    if not os.path.exists(path):
        return None
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=tier, NBV_REPO=REPO)
    return subprocess.Popen(["/opt/venv/bin/python", "-m", "harness.run", prop], cwd=HERE, env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, start_new_session=True)


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv else "quick"
    replay_dir = os.path.join(HERE, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(replay_dir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replay_dir, f))

    search = start_replay_search(prop, tier)
    undecided, refuted, results = [], [], {}
    try:
        tasks = load_specs(prop)
    except BaseException as ex:  # the package cannot even be imported under instrumentation
        tasks = []
        undecided.append(("import", "%s: %s" % (type(ex).__name__, ex)))
    which = range(len(tasks))
    # the longest first
    which = sorted(which, key=lambda i: -tasks[i][2].get("weight", 1))
    cfg = dict(budget_s=420 if tier == "quick" else 1500)
    if tier == "thorough":
        cfg["want_dump"] = True
    results, streamed = run_tasks(prop, which, cfg, 480 if tier == "quick" else 1800)
    redo, only = [], {}
    for i in which:
        r = results[i]
        if r is None:
            redo.append(i)
            only[i] = None
            continue
        bad = [o for o in r["obligations"] if o[1] != "discharged"]
        if r["unsupported"] or bad or not r["obligations"]:
            redo.append(i)
            only[i] = None if r["unsupported"] or not r["obligations"] else {o[0] for o in bad}
        missing = [k for k in tasks[i][2].get("covers", ()) if r["covers"].get(k) != "sat"]
        if missing:
            undecided.append((tasks[i][0], "vacuous: never reached: %s" % ", ".join(missing)))
    failures, hsum = [], None
    if search is not None:
        try:
            limit = max(30, (400 if tier == "quick" else 3600) - (time.time() - t0))
            out, err = search.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(search.pid, signal.SIGKILL)
            out, err = search.communicate()
        for line in out.splitlines():
            if line.startswith("FAIL "):
                failures.append(json.loads(line[5:]))
            elif line.startswith("SUMMARY "):
                hsum = json.loads(line[8:])
        if hsum is None:
            undecided.append(("replay search", "did not finish: " + err[-300:]))

    known = known_findings(prop)
    violations = []
    shown = set()
    for f in failures:
        key = f.get("key", "")
        if key in known:
            if key not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
                shown.add(key)
            continue
        violations.append(("input", f))
    # Refuted on a path where no loop was abstracted: exact.  Refuted with a failing input at hand: confirmed.
    # The rest is decided by unrolling (exact, no invented invariants).
    bounded, unroll = {}, []
    for i in redo:
        exact = [o for o in streamed.get(i, []) if o[6]]
        if exact:
            refuted += [(tasks[i][0], o, "exact") for o in exact]
        elif violations and streamed.get(i):
            refuted += [(tasks[i][0], o, "modular, with a failing input") for o in streamed[i]]
        else:
            unroll.append(i)
    if violations:
        undecided += [(tasks[i][0], "not discharged (a failing input was found)") for i in unroll]
    elif unroll:
        end = t0 + (720 if tier == "quick" else 4000)
        each = max(100, min(300, (end - time.time()) / max(1, -(-len(unroll) // jobs()))))
        bounded, ustream = run_tasks(prop, unroll, dict(cfg, mode="unroll", budget_s=each - 10), each, end, only)
        for i in unroll:
            r, name = results[i], tasks[i][0]
            b_ref = ustream.get(i, [])
            if b_ref:
                refuted += [(name, o, "unrolled") for o in b_ref]
                continue
            if r is None:
                undecided.append((name, "the verifier ran out of time or memory"))
                continue
            left_over = [o for o in r["obligations"] if o[1] != "discharged"]
            why = "; ".join(sorted(set(o[0] for o in left_over)))[:400] or "; ".join(r["unsupported"])[:400] or "no obligations"
            undecided.append((name, why))

    obs = {}
    for name, o, how in refuted:
        obs.setdefault((name, o[0]), (o, how))
    replays = []
    n = 0
    if violations or obs:
        by_obl = [dict(task=k[0], obligation=k[1], path=o[2], verifier=o[4], mode=how, output=o[3]) for k, (o, how) in list(obs.items())[:20]]
        for kind, f in violations[:5]:
            n += 1
            path = os.path.join(replay_dir, "%s-%d.json" % (prop, n))
            json.dump(dict(property=prop, failed_obligations=by_obl, input=f,
                           replay="cd /verif && /opt/venv/bin/python -m harness.run %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
            replays.append((path, True, "%s: %s" % (f.get("case"), f.get("error"))))
        if not violations:
            for b in by_obl[:5]:
                n += 1
                path = os.path.join(replay_dir, "%s-%d.json" % (prop, n))
                json.dump(dict(property=prop, failed_obligation=b), open(path, "w"), indent=1)
                replays.append((path, False, "%(task)s: %(obligation)s" % b))

    for name, why in undecided:
        print("UNDECIDED property=%s %s: %s" % (prop, name, why))
    write_evidence(prop, tier, t0, tasks, results, bounded, undecided, obs, hsum, len(replays))
    total = sum(len(r["obligations"]) for r in results.values() if r)
    ok = sum(o[1] == "discharged" for r in results.values() if r for o in r["obligations"])
    print("property=%s tier=%s obligations=%d discharged=%d undecided_tasks=%d concrete_replays=%s failing=%d wall=%.1fs" % (
        prop, tier, total, ok, len(undecided), hsum and hsum.get("evaluations"), len(replays), time.time() - t0))
    if replays:
        for path, found, what in replays:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
        return 1
    if total == 0 and hsum is None:
        print("no obligation was generated and nothing was executed")
        return 2
    return 0


def known_findings(prop):
    """{key: description} of the findings that are recorded, not repaired."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def write_evidence(prop, tier, t0, tasks, results, bounded, undecided, obs, hsum, nviol):
    rs = [r for r in results.values() if r]
    obl = [o for r in rs for o in r["obligations"]]
    by_backend = {}
    for o in obl:
        if o[1] == "discharged":
            by_backend[o[4]] = by_backend.get(o[4], 0) + 1
    cov = dict(
        obligations=len(obl), discharged=sum(o[1] == "discharged" for o in obl),
        checker_cmd="/opt/venv/bin/python /verif/check.py %s%s" % (prop, " --thorough" if tier == "thorough" else ""),
        trusted_base=TRUSTED,
        discharged_by_backend=by_backend,
        named_obligations=len(set(o[0] for o in obl)),
        paths=sum(r["paths"] for r in rs),
        solver_queries=sum(r["queries"] for r in rs), solver_time_s=round(sum(r["solver_time"] for r in rs), 2),
        tasks=[dict(name=r["name"], obligations=len(r["obligations"]), discharged=sum(o[1] == "discharged" for o in r["obligations"]),
                    paths=r["paths"], wall_s=round(r["wall"], 2), reached=r["covers"], loop_invariants=len(r["invariants"])) for r in rs],
        functions_under_contract=sorted(set(f for r in rs for f in r["functions"])),
        undecided=[dict(task=a, why=b) for a, b in undecided],
        failed_obligations=[dict(task=k[0], obligation=k[1]) for k in obs],
        loop_invariants=sorted(set(i for r in rs for i in r["invariants"]))[:60],
    )
    if bounded:
        cov["bounded_standins"] = [dict(task=b["name"], label="bounded (loops unrolled, at most 2, 3 or 4 iterations each), not counted as proved",
                                        obligations=len(b["obligations"]), discharged=sum(o[1] == "discharged" for o in b["obligations"]))
                                   for b in bounded.values() if b]
    if hsum:
        cov["concrete_replay_search"] = dict(hsum, label="bounded: concrete executions of the uninstrumented code, not counted as proved")
    if any(r.get("crosscheck") for r in rs):
        cc = [r["crosscheck"] for r in rs if r.get("crosscheck")]
        cov["cvc5_crosscheck"] = {k: sum(c[k] for c in cc) for k in cc[0]}
    ev = dict(property=prop, tier=tier, seed=SEED, level="proof", coverage=cov, assumptions=assumptions(prop),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
