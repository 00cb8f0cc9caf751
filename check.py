"""Decides one property:  python3-vt check.py C01 [--tier quick|thorough] [--only CONFIG] [-v]

1. Every configuration of props/<id>.py is executed symbolically over the source in
   /repo (symx/), each assertion becomes an SMT query over all values in the bounds.
2. Counterexamples are replayed on the real compiled package (replay.py).  Only what
   reproduces there is reported.
3. A few concrete points per configuration validate the encoding against the real code;
   where the solver gives no answer (unsupported construct, timeout) more points are
   sampled and the evidence says that the configuration was not decided.
"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
PATIENCE = 150  # seconds without progress on the compiled code
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


# ------------------------------------------------------------------ symbolic stage


def _child(conn, mod, cfg, seed, budget):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:  # noqa: BLE001
        pass
    sys.setrecursionlimit(20000)
    try:
        from symx.symctx import run_symbolic

        r = run_symbolic(
            cfg.fn, cfg.params, seed=seed, budget=budget, quick_ms=cfg.quick_ms,
            hard_ms=cfg.hard_ms, max_paths=cfg.max_paths,
        )
    except BaseException as e:  # noqa: BLE001
        import traceback

        r = dict(
            candidates=[], undecided=[], unsupported=["%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])],
            tolerance=[], labels={}, functions=[], witness=None, status="error", stats={}, notes={}, wall_s=0.0,
        )
    conn.send(json.loads(json.dumps(r, default=str)))
    conn.close()


def symbolic_stage(mod, cfgs, seed, verbose, end):
    load_error = None
    try:
        from symx import shadow

        shadow.load()
    except BaseException as e:  # noqa: BLE001  stubs do not cover what the package imports
        load_error = "%s: %s" % (type(e).__name__, e)
    results = {}
    if load_error:
        for c in cfgs:
            results[c.name] = dict(
                candidates=[], undecided=[], unsupported=["import: " + load_error], tolerance=[], labels={},
                functions=[], witness=None, status="error", stats={}, notes={}, wall_s=0.0,
            )
        return results
    todo = sorted(cfgs, key=lambda c: -c.budget)
    run = []
    ctx = mp.get_context("fork")
    while todo or run:
        while todo and len(run) < NPROC:
            c = todo.pop(0)
            # all configurations together end in time, also where everything takes longer than usual
            share = 1.5 * NPROC * (end - time.time()) / (len(todo) + 1)
            budget = max(5.0, min(c.budget, share, end - time.time()))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, mod, c, seed, budget))
            p.start()
            b.close()
            run.append((c, p, a, time.time(), budget))
        nxt = []
        for c, p, a, t, budget in run:
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = "died"
            elif not p.is_alive() and not a.poll(0.2):
                r = "died"
            elif time.time() - t > min(budget * 1.3 + 20, max(end - t, 10.0) + 20):
                p.kill()
                r = "timeout"
            if r is None:
                nxt.append((c, p, a, t, budget))
                continue
            if isinstance(r, str):
                r = dict(
                    candidates=[], undecided=[], unsupported=["encoder process: " + r], tolerance=[], labels={},
                    functions=[], witness=None, status=r, stats={}, notes={}, wall_s=time.time() - t,
                )
            p.join(5)
            results[c.name] = r
            if verbose:
                print(
                    "  %-34s %-7s %5.1fs paths=%s q=%s cand=%d undec=%s unsup=%s tol=%s %s"
                    % (
                        c.name, r["status"], r["wall_s"], r["stats"].get("paths"), r["stats"].get("queries"),
                        len(r["candidates"]), sorted({u["label"] for u in r["undecided"]}), sorted(set(r["unsupported"]))[:3],
                        sorted(set(r["tolerance"])), r["notes"] or "",
                    ),
                    flush=True,
                )
                if verbose > 1:
                    for k in r["candidates"][:4]:
                        print("     ", k, flush=True)
        run = nxt
        if run:
            time.sleep(0.03)
    return results


# ------------------------------------------------------------------ concrete stage


class Worker:
    def __init__(self, pool, n):
        self.pool = pool
        self.base = os.path.join(pool.tmp, "w%d" % n)
        self.pending = []  # jobs without a result, in order
        self.started = None
        self.progress = time.time()
        self.pos = 0
        open(self.base + ".out", "w").close()
        self.inp = open(self.base + ".in", "w")
        env = dict(os.environ)
        env["PYTHONPATH"] = REPO
        env["VERIF_REPO"] = REPO
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "replay.py"), "--serve", pool.prop, self.base + ".in", self.base + ".out"],
            stdout=open(self.base + ".log", "w"), stderr=subprocess.STDOUT, env=env, cwd=pool.tmp,
        )

    def send(self, jobs):
        for j in jobs:
            self.inp.write(json.dumps(j) + "\n")
        self.inp.flush()
        self.pending += jobs

    def poll(self):
        with open(self.base + ".out") as f:
            f.seek(self.pos)
            data = f.read()
        data = data[: data.rfind("\n") + 1]
        self.pos += len(data.encode())
        for line in data.splitlines():
            r = json.loads(line)
            self.progress = time.time()
            if "start" in r:
                self.started = r["start"]
            else:
                self.pool.results[r["id"]] = r
                self.started = None
                self.pending = [j for j in self.pending if j["id"] != r["id"]]


class Replayer:
    """Runs jobs on the real code in background processes; survives its crashes."""

    def __init__(self, prop, procs, tmp, end, patience=PATIENCE):
        self.prop, self.tmp, self.end, self.procs = prop, tmp, end, procs
        self.patience, self.hung = patience, 0
        self.results = {}
        self.workers = []
        self.home = {}
        self.n = 0

    def spawn(self):
        self.n += 1
        w = Worker(self, self.n)
        self.workers.append(w)
        return w

    def submit(self, jobs):
        groups = {}
        for j in jobs:
            groups.setdefault(j.get("group") or j["config"], []).append(j)
        for g, js in sorted(groups.items(), key=lambda x: -len(x[1])):
            w = self.home.get(g)
            if w is None or w not in self.workers:
                if len(self.workers) < self.procs:
                    w = self.spawn()
                else:
                    w = min(self.workers, key=lambda w: len(w.pending))
                self.home[g] = w
            w.send(js)

    def wait(self):
        t0 = time.time()
        while any(w.pending for w in self.workers):
            for w in list(self.workers):
                w.poll()
                if not w.pending:
                    continue
                dead = w.p.poll() is not None
                over = time.time() > self.end
                pat = self.patience
                if any(j["id"] == w.started and j.get("group") == "p" for j in w.pending):
                    pat = max(pat, PATIENCE)  # whole finders take long to compile
                late = time.time() - max(t0, w.progress) > pat or over
                if not dead and not late:
                    continue
                if not dead:
                    w.p.kill()
                    w.p.wait()
                w.poll()
                self.workers.remove(w)
                err = open(w.base + ".log").read()[-600:]
                left = w.pending
                if w.started is None or over:
                    for j in left:
                        self.results[j["id"]] = dict(id=j["id"], status="error", why="exit %s: %s" % (w.p.returncode, err))
                    continue
                self.results[w.started] = dict(
                    id=w.started, status="violated" if dead else "timeout", inputs={}, choices={}, claims=0,
                    violated=[("crash", "process ended with %s: %s" % (w.p.returncode, err[-300:]))],
                )
                cfg = [j["config"] for j in left if j["id"] == w.started]
                left = [j for j in left if j["id"] != w.started]
                self.hung += not dead
                if self.hung > 1:
                    cfg = [j["config"] for j in left]
                if not dead:  # endless: do not try the same configuration again
                    for j in left:
                        if j["config"] in cfg:
                            self.results[j["id"]] = dict(id=j["id"], status="error", why="not run after a timeout")
                    left = [j for j in left if j["config"] not in cfg]
                if left and self.n % 100 < 30:
                    self.spawn().send(left)
                else:
                    for j in left:
                        self.results[j["id"]] = dict(id=j["id"], status="error", why="not run after a crash")
            time.sleep(0.03)
        return self.results

    def close(self):
        for w in self.workers:
            try:
                w.inp.write('{"quit": 1}\n')
                w.inp.close()
                w.p.wait(5)
            except Exception:  # noqa: BLE001
                w.p.kill()


# ----------------------------------------------------------------------------- main


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(w.split("=", 1) for w in line[6:].split(" -- ")[0].split() if "=" in w)
                f["text"] = line.split(" -- ", 1)[1] if " -- " in line else line
                if f.get("property") == prop:
                    out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.prop.upper()
    mod = importlib.import_module("props." + prop.lower())
    from symx.cfg import select

    cfgs = select(mod, tier)
    if a.only:
        cfgs = [c for c in mod.CONFIGS if a.only in c.name]
    if tier == "thorough":
        for c in cfgs:
            c.budget *= 3
            c.hard_ms *= 3
            c.quick_ms *= 2
            c.points *= 5
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = decide(prop, mod, cfgs, tier, seed, tmp, a.v, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, mod, cfgs, tier, seed, tmp, verbose, t0):
    procs = getattr(mod, "REPLAY_PROCS", 2)
    end = t0 + (700 if tier == "quick" else 6000)
    hang = getattr(mod, "HANG", None)
    patience = 40 if hang else PATIENCE
    # concrete points that validate the encoding; they run while the solver works
    jobs, meta, order = [], {}, []
    for c in cfgs:
        for k in range(c.points):
            i = len(meta)
            meta[i] = dict(kind="validation", config=c.name)
            jobs.append(dict(id=i, config=c.name, seed=seed * 1000003 + k, group=c.params.get("group")))
    pool = Replayer(prop, procs, tmp, end, patience)
    pool.submit(jobs)
    jmap = {j["id"]: j for j in jobs}
    sym = symbolic_stage(mod, cfgs, seed, verbose, t0 + (450 if tier == "quick" else 5000))
    pool.wait()
    if verbose:
        print("  validation done %.1fs" % (time.time() - t0), flush=True)

    # counterexamples, witnesses and, where the solver gave no answer, samples
    jobs2 = []

    def add(kind, c, **kw):
        i = len(meta)
        meta[i] = dict(kind=kind, config=c.name)
        j = dict(id=i, config=c.name, group=c.params.get("group"), **kw)
        jobs2.append(j)
        jmap[i] = j
        return i

    undecided_cfg = {}
    cand_ids = {}
    for c in cfgs:
        r = sym[c.name]
        per = {}
        for k in r["candidates"]:
            n = per.setdefault(k["label"], 0)
            if n >= 4:
                continue
            per[k["label"]] += 1
            i = add("candidate", c, env=k["env"], choices=k["choices"], seed=seed)
            cand_ids[i] = k
        if r["witness"]:
            add("witness", c, env=r["witness"]["env"], choices=r["witness"]["choices"], seed=seed)
        why = []
        if r["unsupported"]:
            why.append("unsupported: " + "; ".join(sorted(set(r["unsupported"]))[:3]))
        if r["undecided"]:
            why.append("no verdict: " + ", ".join(sorted({u["label"] for u in r["undecided"]})))
        if r["status"] != "ok":
            why.append("exploration ended early: " + r["status"])
        if r["notes"]:
            why.append("; ".join(r["notes"]))
        nclaims = sum(v for l, v in r["labels"].items() if not l.startswith("cover:"))
        # a point of the real code that reaches the assertions is a witness, too
        reached = r["witness"] is not None or any(
            meta[i]["config"] == c.name and x["status"] == "ok" and x.get("claims") for i, x in pool.results.items() if i in meta
        )
        if not why and not r["candidates"] and (not reached or nclaims == 0):
            why.append("vacuous: no satisfiable path reached an assertion")
        if why:
            undecided_cfg[c.name] = " | ".join(why)
        if why or r["candidates"]:
            for k in range(c.fallback * (4 if tier == "thorough" else 1)):
                add("sample", c, seed=seed * 7919 + 100000 + k)
    pool.submit(jobs2)
    res = dict(pool.wait())
    pool.close()
    late = [i for i in sorted(res) if res[i]["status"] == "timeout" and jmap[i].get("group") != "p"]
    if hang and late:
        # does the same input never end in a fresh process, too?
        again = Replayer(prop, 1, tmp, end + 100, 2 * patience)
        again.n = 100
        again.submit([jmap[late[0]]])
        r = again.wait()[late[0]]
        again.close()
        if r["status"] == "timeout":
            res[late[0]] = dict(r, status="violated", violated=[(hang, "no result within %d s" % (2 * patience))])

    viol, errors = [], []
    counts = dict(validation=0, witness=0, candidate=0, sample=0, skip=0)
    samples = []
    per_cfg_ok = {}
    for i, m in meta.items():
        r = res.get(i)
        if r is None or r["status"] == "error":
            errors.append((m, (r or {}).get("why")))
            continue
        if r["status"] == "skip":
            counts["skip"] += 1
            continue
        if r["status"] == "timeout":
            errors.append((m, "timeout"))
            continue
        counts[m["kind"]] += 1
        per_cfg_ok[m["config"]] = per_cfg_ok.get(m["config"], 0) + 1
        if len(samples) < 6 and m["kind"] in ("validation", "witness"):
            samples.append(dict(config=m["config"], inputs=r.get("inputs"), choices=r.get("choices"), status=r["status"]))
        if r["status"] == "violated":
            viol.append((i, m, r))
    reproduced = {m["config"] for i, m, r in viol if m["kind"] == "candidate"}
    mismatch = []
    for i, k in cand_ids.items():
        r = res.get(i)
        if r is not None and r["status"] == "ok" and k["consistent"] and meta[i]["config"] not in reproduced:
            mismatch.append(dict(config=meta[i]["config"], label=k["label"], env=k["env"], desc=k["desc"]))
    for m in mismatch:
        undecided_cfg.setdefault(m["config"], "counterexample of the encoding does not reproduce: %s" % m["label"])
    for c in cfgs:
        if sym[c.name]["candidates"] and c.name not in reproduced:
            undecided_cfg.setdefault(c.name, "solver model is spurious (uninterpreted exp/log)")

    # ---- report
    known = known_findings(prop)
    out_viol = []
    hit_known = set()
    rdir = os.path.join(EVID, "replays")
    seen = set()
    viol.sort(key=lambda v: ("candidate", "witness", "validation", "sample").index(v[1]["kind"]))
    for i, m, r in viol:
        label = r["violated"][0][0]
        kf = [f for f in known if f.get("config") == m["config"] and f.get("label") in (label, "*")]
        if kf:
            hit_known.add(kf[0]["text"])
            continue
        key = (m["config"], label)
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(out_viol) + 1))
        j = jmap[i]
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=prop, config=m["config"], found_by=m["kind"], env=r.get("inputs") or j.get("env") or {},
                    choices=r.get("choices") or j.get("choices") or {}, seed=j.get("seed", 0),
                    violated=r["violated"], rerun="%s %s/replay.py --file %s" % (PY, HERE, path),
                ),
                f, indent=1, default=str,
            )
        out_viol.append((path, m, r))
    for t in sorted(hit_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for path, m, r in out_viol[:5]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s, found by %s] %s" % (m["config"], m["kind"], r["violated"][:2]))
    tot = {}
    for r in sym.values():
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in sym.values() for f in r["functions"]})
    decided = [c.name for c in cfgs if c.name not in undecided_cfg and not sym[c.name]["candidates"]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)),
            transitions=int(tot.get("branch_queries", 0)),
            traces_validated_against_impl=counts["validation"] + counts["witness"] + counts["candidate"] + counts["sample"],
            samples=samples,
            meaning="states = symbolic paths explored; transitions = branch-feasibility decisions put to the solver; "
            "traces = concrete points run on the compiled package (%s)" % counts,
            technique="symbolic execution of the repository's Python source, z3 %s over reals/integers" % z3version(),
            functions_encoded=funcs,
            bounds=getattr(mod, "BOUNDS", ""),
            outside_the_bounds=getattr(mod, "OUTSIDE", ""),
            configurations=[
                dict(
                    name=c.name, decided=c.name in decided, note=undecided_cfg.get(c.name, ""),
                    paths=sym[c.name]["stats"].get("paths"), assertions=sym[c.name]["labels"],
                    queries=sym[c.name]["stats"].get("queries"), wall_s=round(sym[c.name]["wall_s"], 2),
                    within_tolerance=sorted(set(sym[c.name]["tolerance"])),
                    solver_s=round(sym[c.name]["stats"].get("solver_s", 0), 2),
                )
                for c in cfgs
            ],
            queries=dict(
                assertion_queries=int(tot.get("queries", 0)), unsat=int(tot.get("unsat", 0)), sat=int(tot.get("sat", 0)),
                unknown=int(tot.get("unknown", 0)), branch_queries=int(tot.get("branch_queries", 0)),
                branch_unknown=int(tot.get("branch_unknown", 0)), assertions=int(tot.get("checks", 0)),
                closed_by_normal_form=int(tot.get("closed_form", 0)), infeasible_paths=int(tot.get("infeasible_paths", 0)),
            ),
            solver_time_s=round(tot.get("solver_s", 0), 2),
            configurations_decided=len(decided), configurations_total=len(cfgs),
            encoder_mismatches=mismatch[:5],
            replay_errors=[str(e)[:300] for e in errors[:5]],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=len(out_viol),
    )
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s: %d/%d configurations decided by the solver, %d paths, %d queries (%.1fs solver), %d points on the real code, %d violations, %.1fs"
        % (prop, tier, len(decided), len(cfgs), tot.get("paths", 0), tot.get("queries", 0) + tot.get("branch_queries", 0),
           tot.get("solver_s", 0), ev["coverage"]["traces_validated_against_impl"], len(out_viol), time.time() - t0)
    )
    for n, w in undecided_cfg.items():
        print("  not decided: %s: %s" % (n, w[:400]))
    for m in mismatch[:3]:
        print("  mismatch:", str(m)[:600])
    for e in errors[:3]:
        print("  replay error:", str(e)[:600])
    return 1 if out_viol else 0


COMMON_ASSUMPTIONS = [
    "arithmetic over the reals: floating-point rounding is outside the claim (equalities are decided up to 1e-4 where not exact)",
    "numba compiles the Python semantics faithfully; numpy/scipy library functions behave as modelled in symx/ (spot-checked by the replayed points)",
    "exp/log are uninterpreted apart from exp(a)exp(b)=exp(a+b), log(exp a)=a, log of products, positivity",
]


def z3version():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    main()
