"""Runner: executes every contract of a property and reports."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, dtypes, mode, funcs, con, budget, tier, npaths, setup):
        self.prop, self.name, self.fn, self.dtypes = prop, name, fn, dtypes
        self.mode = mode  # 'both' | 'sym' | 'con'
        self.funcs = funcs
        self.con = con  # batch sizes of the concrete runs
        self.budget = budget
        self.tier = tier
        self.npaths = npaths


def contract(prop, name=None, dtypes=("float64",), mode="both", funcs=(), con=(32, 1, 3), budget=40, tier="quick", npaths=64, setup=None, internal=False):
    """internal: the clauses speak of local variables of the code (a loop invariant); a
    failure is reported, as one without a failing input."""
    def deco(f):
        nm = name or f.__name__
        c = Contract(prop, nm, f, dtypes, mode, tuple(funcs), con, budget, tier, npaths, setup)
        c.internal = internal
        CONTRACTS.setdefault(prop, []).append(c)
        return f

    return deco


def in_repo(tb) -> bool:
    """the exception surfaced through a frame of the code under test."""
    for fr in traceback.extract_tb(tb):
        f = os.path.abspath(fr.filename)
        if f.startswith(REPO + "/"):
            return True
    return False


def last_frames(tb, n=4):
    return [f"{os.path.relpath(fr.filename, '/')}:{fr.lineno} {fr.name}: {fr.line}" for fr in traceback.extract_tb(tb)[-n:]]


# ---------------------------------------------------------------------------


class f32_thresholds:
    """float64 arithmetic with the float32 branch thresholds, set through the
    libraries' public set_global_params."""

    def __enter__(self):
        import theseus.global_params as tg
        import torchlie.global_params as lg

        self.g = [(lg.set_global_params, lg._TORCHLIE_GLOBAL_PARAMS), (tg.set_global_params, tg._THESEUS_GLOBAL_PARAMS)]
        self.old = []
        for f, o in self.g:
            d = {n: v for n, v in vars(o).items() if n.endswith("_float64")}
            self.old.append((f, d))
            f({n: getattr(o, n[:-2] + "32") for n in d if "near" in n})

    def __exit__(self, *a):
        for f, d in self.old:
            f(d)


def run_precise(c, seed, rows):
    """contract of a float32 branch region, run on the real code in float64."""
    with f32_thresholds():
        return run_concrete(c, "float64", seed, rows, nominal="float32")


def run_concrete(c, dtype, seed, rows, dom=None, nominal=None):
    """-> list of failures [(ob, msg, row)], n_checked, error(or None)."""
    import torch

    from .kit import ConKit
    from .prove import Domain

    dom = dom or Domain(seed)
    k = ConKit(dom, rows, getattr(torch, dtype))
    if nominal:
        k.nominal = getattr(torch, nominal)
        k.precise = True
    torch.manual_seed(seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.fn(k)
    except Exception as e:
        tb = e.__traceback__
        frs = last_frames(tb)
        if in_repo(tb):
            return [("no-exception", f"raised {type(e).__name__}: {e}"[:400], None)], k.checked, k, frs
        return k.fails, k.checked, k, [f"contract error {type(e).__name__}: {e}"] + frs
    return k.fails, k.checked, k, None


def explore(c, dtype, seed, deadline):
    """symbolic runs over every feasible path."""
    import torch

    from . import expr as X
    from .kit import SymKit
    from .prove import Domain, Prover
    from .symt import Ctx, Infeasible, LinFacts, SymMode, Unsupported

    results, unsupported, funcs, ops = [], [], set(), Counter()
    stack = [()]
    paths = 0
    prover = None
    done = set()
    while stack:
        if time.time() > deadline:
            unsupported.append("time limit during exploration")
            break
        if paths >= c.npaths:
            unsupported.append("path limit")
            break
        prefix = stack.pop()
        LinFacts.reset()
        X._fresh_n[0] = 0
        X.INTVARS.clear()
        dom = Domain(seed)
        k = SymKit(dom, getattr(torch, dtype))
        pr = Prover(dom, deadline)
        k.prover = pr

        def decider(cx, b, dom=dom):
            pr.nf = dom.make_nf()
            pr._bmemo.clear()
            return pr.decider(cx, b)

        def simplify(e, dom=dom):
            nf = dom.make_nf()
            pr.nf = nf
            pr._bmemo.clear()
            e2 = dom.sub([e])[0]
            if e2.isbool:
                r = pr.simplify_bool(e2)
                return r if r in (X.TRUE, X.FALSE) else e
            try:
                p = nf.nf(e2)
            except Exception:
                return e
            if not p:
                return X.ZERO
            if len(p) == 1 and () in p:
                return X.const(p[()])
            return e

        def canon(e, dom=dom):
            nf = dom.make_nf()
            pr.nf = nf
            pr._bmemo.clear()
            try:
                return nf.to_expr(nf.nf(dom.sub([e])[0]))
            except Exception:
                return e

        def resolve(e, dom=dom, cx_=None):
            """e with every condition decided by the facts so far (e itself when
            some condition is open), in normal form."""
            nf = dom.make_nf()
            pr.nf = nf
            pr._bmemo.clear()
            pr._cmemo.clear()
            try:
                ls = list(pr.leaves(dom.sub([e]), dom.sub(list(cx.facts))))
                return nf.to_expr(nf.nf(ls[0][0][0])) if len(ls) == 1 else e
            except Exception:
                return e

        cx = Ctx(prefix, decider)
        cx.resolve = resolve
        cx.simplify = simplify
        cx.canon = canon
        Ctx.cur = cx
        err = None

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(REPO + "/") and "/tests/" not in co.co_filename:
                    funcs.add(os.path.relpath(co.co_filename, REPO) + ":" + co.co_qualname)

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sys.setprofile(prof)
                try:
                    with SymMode(), torch.no_grad():
                        c.fn(k)
                finally:
                    sys.setprofile(None)
        except Infeasible:
            err = "infeasible"
        except Unsupported as e:
            err = f"Unsupported: {e} @ " + " < ".join(reversed(last_frames(e.__traceback__, 6)))[:500]
        except Exception as e:
            if isinstance(e.__context__, Unsupported):
                err = f"Unsupported: {e.__context__}"
            else:
                err = f"{type(e).__name__}: {e} @ " + " < ".join(reversed(last_frames(e.__traceback__, 6)))[:500]
        finally:
            Ctx.cur = None
        paths += 1
        for i in range(len(prefix), len(cx.taken)):
            if cx.open[i]:
                stack.append(tuple(cx.taken[:i]) + (not cx.taken[i],))
        ops.update(cx.ops)
        if err == "infeasible":
            continue
        if err:
            unsupported.append(err)
        pr2 = Prover(dom, deadline)
        pr2._feas = pr._feas
        for kind, name, es, facts, tol in k.obs:
            key = (kind, name, tuple(e.id for e in es), tuple(f.id for f in facts))
            if key in done:
                continue
            done.add(key)
            if time.time() > deadline:
                unsupported.append(f"time limit before {name}")
                break
            r = pr2.prove_eq(name, es, facts, tol) if kind == "eq" else pr2.prove_true(name, es, facts)
            results.append((r, k.notes))
        prover = pr2
    return results, unsupported, sorted(funcs), paths, dict(ops), (prover.solver_s if prover else 0.0)


def worker(args):
    modname, prop, idx, dtype, seed, tier, q = args
    t0 = time.time()
    out = {"contract": None, "violations": [], "obligations": [], "undecided": [], "concrete_checked": 0, "concrete_rows": 0}
    try:
        importlib.import_module(modname)
        c = CONTRACTS[prop][idx]
        out["contract"] = c.name
        out["dtype"] = dtype
        from .prove import Domain

        rng = np.random.default_rng(seed)
        witness_rows = []
        if c.mode in ("both", "con"):
            reps = 1 if tier == "quick" else 4
            for rep in range(reps):
                for b in c.con:
                    rows = rng.integers(0, Domain.N, b) if b > 1 or rep else np.array([0])
                    fails, n, k, err = run_concrete(c, dtype, seed + rep, rows)
                    out["concrete_checked"] += n
                    out["concrete_rows"] += len(rows)
                    if err and not fails:
                        out["undecided"].append(f"concrete: {err}")
                    for ob, msg, row in fails:
                        out["violations"].append(mkviol(c, dtype, seed + rep, rows, ob, msg, row, k, err, "bounded run of the contract on the real code"))
                    if dtype == "float32" and not fails and not err and b == c.con[0]:
                        fails, n, k, err = run_precise(c, seed + rep, rows)
                        out["concrete_checked"] += n
                        for ob, msg, row in fails:
                            v = mkviol(c, dtype, seed + rep, rows, ob, msg, row, k, err, "bounded run of the contract on the real code, float64 arithmetic with the float32 thresholds set through set_global_params")
                            v["precise"] = True
                            out["violations"].append(v)
        if c.mode in ("both", "sym") and not out["violations"]:
            budget = c.budget if tier == "quick" else max(300, c.budget)
            results, unsup, funcs, paths, ops, solver = explore(c, dtype, seed, time.time() + budget)
            out["functions"] = funcs
            out["paths"] = paths
            out["solver_s"] = solver
            out["undecided"] += [u for u in unsup]
            out["ops"] = len(ops)
            for r, notes in results:
                out["obligations"].append({"name": r.name, "status": r.status, "leaves": r.leaves, "methods": r.methods, "note": r.note, "wall": round(r.wall, 3), "bound": getattr(r, "bound", None), "tol": getattr(r, "tol", None)})
                if r.status == "refuted":
                    rows = [r.witness if r.witness is not None else 0]
                    rep = None
                    for rr in ([rows[0]], [rows[0]] + list(rng.integers(0, Domain.N, 3))):
                        fails, n, k, err = run_concrete(c, dtype, seed, np.array(rr))
                        if fails:
                            rep = (fails, rr, k, err)
                            break
                        if dtype == "float32":
                            fails, n, k, err = run_precise(c, seed, np.array(rr))
                            if fails:
                                rep = (fails, rr, k, ["precise: float64 arithmetic with the float32 thresholds set through set_global_params"])
                                break
                    if rep:
                        ob, msg, row = rep[0][0]
                        out["violations"].append(mkviol(c, dtype, seed, rep[1], r.name, msg, row, rep[2], rep[3], f"refuted obligation ({r.note}); replayed on the real code"))
                    else:
                        v = mkviol(c, dtype, seed, rows, r.name, r.note + " " + "; ".join(notes[:3]), None, None, None, "refuted obligation; replay on the real code did not show it")
                        v["nfif"] = True
                        out["violations"].append(v)
            if c.mode == "sym" and not results and not unsup:
                out["undecided"].append("no obligations generated")
    except BaseException as e:
        out["undecided"].append(f"worker: {type(e).__name__}: {e} {last_frames(e.__traceback__)}")
    if out["contract"] and c.internal:
        for v in out["violations"]:
            v["nfif"] = True
    out["wall"] = time.time() - t0
    q.put((args[2], dtype, out))


def mkviol(c, dtype, seed, rows, ob, msg, row, k, err, how):
    v = {"contract": c.name, "dtype": dtype, "seed": int(seed), "rows": [int(x) for x in rows], "obligation": ob, "message": msg, "how": how, "nfif": False}
    if err:
        v["trace"] = err
    if k is not None:
        v["inputs"] = {n: t.tolist() if t.numel() <= 64 else t[: min(2, len(t))].tolist() for n, t in k.inputs.items()}
    return v


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import torch

    torch.set_num_threads(1)
    import theseus  # noqa: F401  (the real code, from the working tree)

    modname = f"contracts.{a.prop.lower()}"
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(modname)
    cs = CONTRACTS.get(a.prop, [])
    if a.replay:
        v = json.load(open(a.replay))
        c = next(c for c in cs if c.name == v["contract"])
        pr = v.get("precise") or str((v.get("trace") or [""])[0]).startswith("precise")
        fails, n, k, err = run_precise(c, v["seed"], np.array(v["rows"])) if pr else run_concrete(c, v["dtype"], v["seed"], np.array(v["rows"]))
        print(json.dumps({"fails": [(o, m) for o, m, _ in fails], "trace": err}, indent=1))
        return 1 if fails else 0
    tasks = []
    for i, c in enumerate(cs):
        if a.only and a.only not in c.name:
            continue
        if c.tier == "thorough" and a.tier == "quick":
            continue
        for dt in c.dtypes:
            tasks.append((i, dt, c))
    limit = 700 if a.tier == "quick" else 3000
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    pending = list(tasks)
    running = {}
    outs = []
    while pending or running:
        while pending and len(running) < a.jobs:
            i, dt, c = pending.pop(0)
            p = ctxm.Process(target=worker, args=((modname, a.prop, i, dt, seed, a.tier, q),))
            p.start()
            hard = (c.budget if a.tier == "quick" else max(300, c.budget)) * 1.6 + 120
            running[(i, dt)] = (p, time.time() + hard, c)
        try:
            i, dt, o = q.get(timeout=0.2)
            outs.append(o)
            p, _, _ = running.pop((i, dt))
            p.join()
        except Exception:
            pass
        for key, (p, dl, c) in list(running.items()):
            dead = not p.is_alive() and q.empty()
            if dead:
                time.sleep(0.3)
                if not q.empty():
                    continue
            if dead or time.time() > dl or time.time() - t0 > limit:
                if p.is_alive():
                    p.kill()
                running.pop(key)
                outs.append({"contract": c.name, "dtype": key[1], "violations": [], "obligations": [], "undecided": ["hard time limit or worker death"], "concrete_checked": 0, "concrete_rows": 0, "wall": 0})
    extra = []
    if hasattr(mod, "extra_checks"):
        extra = mod.extra_checks(a.tier, seed)
        outs += extra
    return report(a, seed, outs, time.time() - t0, mod)


def report(a, seed, outs, wall, mod):
    prop = a.prop
    known = [f for f in load_known() if f["property"] == prop]
    obl = [dict(o, contract=x["contract"], dtype=x.get("dtype", "")) for x in outs for o in x["obligations"]]
    n_obl = sum(max(1, o["leaves"]) for o in obl)
    n_dis = sum(max(1, o["leaves"]) for o in obl if o["status"] == "proved")
    unk = [o for o in obl if o["status"] == "unknown"]
    und = [f"{x['contract']}[{x.get('dtype','')}]: {u}" for x in outs for u in x["undecided"]]
    viols, kf = [], []
    for x in outs:
        for v in x["violations"]:
            hit = None
            for f in known:
                if f.get("status") == "open" and f["contract"] == v["contract"] and v["obligation"] in f["obligations"]:
                    hit = f
            (kf if hit else viols).append((v, hit))
    seen = set()
    for v, f in kf:
        if f["id"] not in seen:
            seen.add(f["id"])
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    code = 0
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    printed = set()
    viols.sort(key=lambda z: z[0].get("nfif", False))
    hasreal = any(not v.get("nfif") for v, _ in viols)
    for n, (v, _) in enumerate(viols):
        key = v["contract"]
        if key in printed:
            continue
        if v.get("nfif") and hasreal:
            continue
        printed.add(key)
        p = os.path.join(rdir, f"{prop}_{re.sub(r'[^A-Za-z0-9]+', '_', v['contract'])}_{v['dtype']}.json")
        json.dump(v, open(p, "w"), indent=1, default=str)
        print(f"  failed obligation {v['contract']}::{v['obligation']} [{v['dtype']}] {v['message']} -- {v['how']}")
        print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if v.get("nfif") else ""))
        code = 1
    funcs = sorted({f for x in outs for f in x.get("functions", [])})
    under = sorted({f for x in CONTRACTS.get(prop, []) for f in x.funcs})
    methods = Counter()
    for o in obl:
        methods.update(o["methods"])
    info = getattr(mod, "INFO", {})
    level = info.get("level", "proof")
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {prop} --tier {a.tier}",
            "trusted_base": info.get("trusted", []) + BASE_TRUST,
            "named_obligations": len(obl),
            "discharged_by": dict(methods),
            "undischarged": [f"{o['contract']}[{o['dtype']}]::{o['name']}: {o['note']}" for o in unk][:60],
            "engine_limits": und[:40],
            "functions_under_contract": under,
            "functions_executed_symbolically": funcs,
            "paths": sum(x.get("paths", 0) for x in outs),
            "solver_s": round(sum(x.get("solver_s", 0) for x in outs), 2),
            "bounded_standin": {"label": "bounded", "clauses_checked": sum(x["concrete_checked"] for x in outs), "rows": sum(x["concrete_rows"] for x in outs)},
            "contracts": [{"name": x["contract"], "dtype": x.get("dtype"), "obligations": len(x["obligations"]), "wall_s": round(x.get("wall", 0), 2)} for x in outs],
            "samples": [f"{o['contract']}[{o['dtype']}]::{o['name']} -> {o['status']} by {o['methods']}" for o in obl[:12]] or [f"{x['contract']}: {x['concrete_checked']} clauses on {x['concrete_rows']} rows" for x in outs[:8]],
            "evaluations": sum(x["concrete_checked"] for x in outs),
        },
        "assumptions": info.get("assumptions", []) + BASE_ASSUME,
        "wall_s": round(wall, 2), "violations": len(printed),
    }
    if level == "other":
        ev["coverage"]["explanation"] = info.get("explanation", "")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    if getattr(a, "v", False):
        for x in outs:
            print(f"-- {x['contract']}[{x.get('dtype')}] {x.get('wall',0):.1f}s con={x['concrete_checked']} paths={x.get('paths')}")
            for o in x["obligations"]:
                if os.environ.get("DV_BOUNDS") and o.get("bound"):
                    print(f"     BOUND {o['name']} bound={o['bound']:.2e} tol={o['tol']:.2e}")
                if o["status"] == "proved" and o["wall"] < 2 and not os.environ.get("DV_ALL"):
                    continue
                print(f"     {o['status']:8s} {o['name']} leaves={o['leaves']} {o['methods']} {o['note']} {o['wall']}s")
            for u in x["undecided"]:
                print("     UNDECIDED", u)
    print(f"{prop}: obligations {n_obl} discharged {n_dis} undischarged {len(unk)} engine-limits {len(und)} violations {len(printed)} bounded-clauses {ev['coverage']['bounded_standin']['clauses_checked']} wall {wall:.1f}s")
    return code


BASE_TRUST = [
    "CPython 3.12 executing the unmodified functions of /repo",
    "dv.symt: exact real-arithmetic interpretation of the aten operators issued by the code",
    "dv.poly normal forms and dv.taylor Taylor models (identities listed in their headers)",
    "z3 5.3.2 (nonlinear real arithmetic) for inequalities and infeasible cases",
    "torch meta tensors for shapes and dtypes",
]
BASE_ASSUME = [
    "machine arithmetic is treated as exact real arithmetic; a float literal stands for the simplest rational that rounds to it",
    "denominators cleared by the normal form are non-zero on the path (sampled, not proved)",
    "dynamic dispatch, autograd bookkeeping and allocation inside torch are trusted",
]
