"""Check driver:  python -m tv.check PXX [--tier quick|thorough] [--only HARNESS]

Every harness of the property is run in two lanes, each in its own process:
 sym  : real code executed on symbolic tensors, obligations discharged by the prover
 conc : the same contract evaluated on concrete inputs (replay / bounded stand-in)
"""
from __future__ import annotations
import os, sys, time, json, argparse, importlib, pathlib, multiprocessing as mp, signal, traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
T0 = time.time()


def load_prop(pid):
    for f in sorted((ROOT / "tv" / "props").glob("*.py")):
        if f.stem.split("_")[0].upper() == pid.upper():
            return importlib.import_module("tv.props." + f.stem)
    raise SystemExit(f"no check for {pid}")


def _unit(lane, mod, hname, tier, seed, known, extra, q):
    try:
        import resource
        lim = 10 * 2 ** 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    from tv import runner
    h = next(h for h in mod.H if h.name == hname)
    try:
        if lane == "sym":
            r = runner.sym_lane(h, tier, **(extra or {}))
        else:
            r = runner.conc_lane(h, tier, seed0=seed, known=known, **(extra or {}))
    except MemoryError:
        r = {"harness": hname, "error": "memory"}
    except BaseException as e:
        r = {"harness": hname, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
    q.send(r)
    q.close()


def run_units(units, mod, tier, seed, known, ctxm, jobs, hard):
    """units: list of (lane, hname, extra). -> dict (lane,hname)->result"""
    res = {}
    todo = list(units)
    live = []
    while todo or live:
        while todo and len(live) < jobs:
            lane, hn, extra = todo.pop(0)
            a, b = ctxm.Pipe(False)
            pr = ctxm.Process(target=_unit, args=(lane, mod, hn, tier, seed, known, extra, b))
            pr.start()
            b.close()
            live.append((pr, a, lane, hn, time.time()))
        time.sleep(0.02)
        for u in list(live):
            pr, a, lane, hn, t = u
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = {"harness": hn, "error": "died"}
            elif not pr.is_alive():
                got = {"harness": hn, "error": f"worker exit {pr.exitcode}"}
                if a.poll():
                    try:
                        got = a.recv()
                    except EOFError:
                        pass
            elif time.time() - t > hard:
                pr.kill()
                got = {"harness": hn, "error": "hard timeout"}
            if got is not None:
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                live.remove(u)
                res[(lane, hn)] = got
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--record", action="store_true", help="maintainer: record which contracts are fully proved (proved.json)")
    A = ap.parse_args()
    tier = A.tier if A.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = A.prop.upper()
    viol, kfl, notes = [], [], []
    known = []
    kf = ROOT / "known_findings.json"
    if kf.exists():
        known = [k for k in json.loads(kf.read_text()) if k["property"] == pid and k["status"] == "open"]
    rdir = ROOT / "replays"
    rdir.mkdir(exist_ok=True)
    for f in rdir.glob(f"{pid}-*.json"):
        f.unlink()

    def replay(tag, d):
        p = rdir / f"{pid}-{tag}.json"
        p.write_text(json.dumps({"property": pid, **d}, indent=1, default=str))
        return str(p)

    try:
        from tv import runner
        mod = load_prop(pid)
        # the code under test must import
        for name, e in runner.import_all().items():
            raise e
        for m in getattr(mod, "IMPORTS", ()):
            importlib.import_module(m)
    except SystemExit:
        raise
    except Exception as e:
        p = replay("import", {"error": traceback.format_exc()})
        print(f"the code under test does not import: {type(e).__name__}: {e}")
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    H = [h for h in mod.H if A.only is None or h.name == A.only]
    ctxm = mp.get_context("fork")
    units = [("sym", h.name, None) for h in H if h.sym] + [("conc", h.name, None) for h in H if h.conc]
    # longest first
    order = {h.name: -h.sym_time for h in H}
    units.sort(key=lambda u: (0 if u[0] == "sym" else 1, order[u[1]]))
    hard = 320 if tier == "quick" else 3000
    jobs = int(os.environ.get("TV_JOBS", "8"))
    res = run_units(units, mod, tier, seed, known, ctxm, jobs, hard)

    # refuted obligations: replay the counter-model, then search
    follow = []
    for h in H:
        r = res.get(("sym", h.name))
        if not r or "records" not in r:
            continue
        bad = [x for x in r["records"] if x["status"] == "refuted"]
        c = res.get(("conc", h.name), {})
        if bad and not c.get("fails") and h.conc:
            x = bad[0]
            dims = dict(x.get("dims") or {})
            dims.update({k: v for k, v in (x.get("choices") or {}).items()})
            for k, v in (x.get("fixed") or {}).items():
                try:
                    dims[k] = int(v)
                except ValueError:
                    pass
            follow.append(("conc", h.name, {"dims": dims, "forced": x.get("tables"), "seeds": max(3, h.seeds // 4), "budget": 40}))
    res2 = run_units(follow, mod, tier, seed, known, ctxm, jobs, hard) if follow else {}
    follow3 = [("conc", hn, {"dims": ex["dims"], "seeds": 200, "budget": 60}) for _, hn, ex in follow
               if not res2.get(("conc", hn), {}).get("fails")]
    res3 = run_units(follow3, mod, tier, seed, known, ctxm, jobs, hard) if follow3 else {}

    # obligations that are discharged on the recorded tree and are not any more: try again with more time
    proved_before = set()
    pb = ROOT / "proved.json"
    if pb.exists():
        proved_before = set(json.loads(pb.read_text()).get(pid, []))
    lost = lambda r: r and r.get("status") == "ok" and any(x["status"] == "unknown" for x in r.get("records", [])) and not any(
        x["status"] == "refuted" for x in r["records"])
    again = [("sym", h.name, {"budget": h.sym_time * 2}) for h in H if h.name in proved_before and lost(res.get(("sym", h.name)))
             and not res.get(("conc", h.name), {}).get("fails")]
    if again:
        res.update(run_units(again, mod, tier, seed, known, ctxm, min(jobs, 4), hard))

    funcs, tot, dis, und, bounded = {}, 0, 0, [], []
    hrep = []
    for h in H:
        r = res.get(("sym", h.name))
        c = res.get(("conc", h.name), {})
        fails = list(c.get("fails", []))
        forced = None
        for rr, fo in ((res2, True), (res3, False)):
            f2 = rr.get(("conc", h.name), {}).get("fails", [])
            if not fails and f2:
                fails = f2
                if fo:
                    forced = next(ex for _, hn, ex in follow if hn == h.name)["forced"]
        kfl += c.get("known", [])
        st = None
        rec = []
        if r is not None:
            rec = r.get("records", [])
            st = r.get("status", r.get("error"))
            n = {}
            for x in rec:
                n[x["status"]] = n.get(x["status"], 0) + 1
            tot += len(rec)
            dis += n.get("proved", 0)
        else:
            n = {}
        ok_sym = bool(rec) and st == "ok" and all(x["status"] == "proved" for x in rec)
        lab = "proved (all sizes)" if ok_sym and not r["bounded_dims"] else \
            f"proved for literal {sorted(r['bounded_dims'])} only, other sizes unbounded" if ok_sym else "bounded (concrete instances)"
        if fails:
            f = fails[0]
            p = replay(f"{h.name}-{f['name']}".replace("/", "_"), {
                "harness": h.name, "obligation": f["name"], "message": f["msg"], "seed": f["seed"], "dims": f["dims"],
                "forced": forced, "module": mod.__name__, "instance": f["used"],
                "verifier": [x for x in rec if x["status"] == "refuted"][:1],
                "how": f"cd {ROOT} && ./run.sh replay <this file>"})
            viol.append((p, ""))
            print(f"[{h.name}] obligation '{f['name']}' violated: {f['msg']}  (instance {f['used']})")
        else:
            bad = [x for x in rec if x["status"] == "refuted"]
            if bad:
                x = bad[0]
                p = replay(f"{h.name}-{x['name']}".replace("/", "_"), {
                    "harness": h.name, "obligation": x["name"], "verifier_output": x, "module": mod.__name__})
                viol.append((p, " no-failing-input-found"))
                print(f"[{h.name}] obligation '{x['name']}' refuted by the verifier: {x.get('msg')} path: {x.get('path')}")
            elif h.name in proved_before and lost(r):
                x = next(x for x in rec if x["status"] == "unknown")
                p = replay(f"{h.name}-{x['name']}".replace("/", "_"), {
                    "harness": h.name, "obligation": x["name"], "verifier_output": x, "module": mod.__name__,
                    "why": "this obligation was discharged for the recorded tree and is not discharged from the current source"})
                viol.append((p, " no-failing-input-found"))
                print(f"[{h.name}] obligation '{x['name']}' is no longer discharged: {x.get('msg')} path: {x.get('path')}")
        for x in rec:
            if x["status"] not in ("proved", "refuted"):
                und.append(f"{h.name}/{x['name']}: {x['status']} {x.get('msg', '')[:160]}")
        if r is not None and st != "ok":
            und.append(f"{h.name}: {st}")
        if h.conc and (c.get("error") or c.get("mismatch") or (not c.get("runs") and not c.get("known"))):
            notes.append(f"{h.name}: concrete lane: {c.get('error') or c.get('mismatch') or 'no instance ran'}")
        names = sorted({x["name"] for x in rec} | set(c.get("names", {})))
        for f in h.funcs:
            funcs.setdefault(f, []).append(h.name)
        hrep.append({"harness": h.name, "functions": h.funcs, "verdict": lab, "sym_status": st, "vcs": n,
                     "paths": (r or {}).get("paths"), "bounded_dims": (r or {}).get("bounded_dims"),
                     "obligation_names": names, "solver_s": round(sum(x.get("time", 0) for x in rec), 3),
                     "sym_wall_s": (r or {}).get("wall"), "z3_calls": (r or {}).get("z3_calls"),
                     "z3_s": (r or {}).get("z3_time"), "concrete_runs": c.get("runs", 0),
                     "concrete_checks": c.get("checks", 0), "where": (r or {}).get("where") if st != "ok" else None,
                     "note": h.note})
        if A.v:
            print(f"  {h.name:34s} sym:{st} {n} bounded:{list((r or {}).get('bounded_dims', {}))} {(r or {}).get('wall')}s"
                  f" | conc:{c.get('runs')} runs {c.get('checks')} checks {c.get('wall')}s {c.get('error', '')}{c.get('mismatch', '')}")
            if r and st != "ok":
                print("        ", r.get("where"))
            for x in [x for x in rec if x["status"] != "proved"][:4]:
                    print("       ", x["status"], x["name"], x.get("msg", "")[:200], x.get("fixed"), x.get("choices"))
    seen = set()
    for k in kfl:
        f = k["finding"]
        if f["id"] not in seen:
            seen.add(f["id"])
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    for k in known:
        if k["id"] not in seen and A.only is None:
            notes.append(f"known finding {k['id']} did not show in this run")
    runs = sum(x["concrete_runs"] for x in hrep)
    nchk = sum(x["concrete_checks"] for x in hrep)
    full = [x["harness"] for x in hrep if x["verdict"] == "proved (all sizes)"]
    part = [x["harness"] for x in hrep if x["verdict"].startswith("proved for")]
    bnd = [x["harness"] for x in hrep if x["verdict"].startswith("bounded")]
    if A.record and A.only is None:
        d = json.loads(pb.read_text()) if pb.exists() else {}
        d[pid] = sorted(full + part)
        pb.write_text(json.dumps(d, indent=1, sort_keys=True))
    if not A.no_evidence and A.only is None:
        meta = next((c for c in json.loads((ROOT / "MANIFEST.json").read_text())["checks"] if c["property"] == pid), {})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "proof"),
              "coverage": {
                  "obligations": tot, "discharged": dis,
                  "checker_cmd": f"./run.sh check {pid} --tier {tier}",
                  "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
                  "functions_under_contract": {f: v for f, v in sorted(funcs.items())},
                  "harnesses_proved_all_sizes": full, "harnesses_proved_some_literal_sizes": part,
                  "harnesses_bounded": bnd, "undischarged": und,
                  "back_end": {"normaliser+case split+congruence": "tv/prove.py", "z3": _z3v(),
                               "z3_calls": sum(x["z3_calls"] or 0 for x in hrep), "z3_s": round(sum(x["z3_s"] or 0 for x in hrep), 3),
                               "solver_s": round(sum(x["solver_s"] for x in hrep), 3)},
                  "evaluations": runs, "distinct_nontrivial": nchk,
                  "rule": "evaluations = concrete instances of the contracts run on the real code (seeded random sizes and values, "
                          "bounded stand-in and cross-check, never counted as discharged); distinct_nontrivial = contract clauses evaluated on them",
                  "samples": [{"harness": x["harness"], "obligations": x["obligation_names"], "vcs": x["vcs"]} for x in hrep[:3]],
                  "explanation": (f"{dis}/{tot} verification conditions discharged from the current source; "
                                  f"{len(bnd)} of {len(hrep)} contracts rest on the bounded concrete lane only."),
                  "harnesses": hrep, "notes": notes},
              "assumptions": ASSUME + list(getattr(mod, "ASSUME", [])),
              "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} [{tier}] obligations={tot} discharged={dis} | contracts: {len(full)} proved for all sizes, {len(part)} with literal sizes, "
          f"{len(bnd)} bounded | concrete runs={runs} clauses={nchk} | {time.time() - T0:.1f}s")
    for n in notes:
        print("note:", n)
    if runs == 0 and tot == 0:
        # vacuous: nothing was decided at all.  The contracts no longer fit the code.
        p = replay("vacuous", {"notes": notes, "undecided": und})
        viol.append((p, " no-failing-input-found"))
        print("no obligation was generated")
    for p, suf in viol:
        print(f"VIOLATION property={pid} replay={p}{suf}")
    return 1 if viol else 0


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "z3 (version unknown)"


TRUSTED = [
    "the verifier itself: tv/terms.py (normaliser), tv/prove.py (proof search), tv/symt.py (path explorer)",
    "contracts of the ~200 ATen operators (tv/symt.py), standing for torch's C++ kernels; cross-checked by the concrete lane",
    "torch's Python front end, einops and torch.distributions are executed as they are, not modelled",
    "z3 (only where the normaliser leaves a residue)",
]
ASSUME = [
    "machine floating point is treated as exact real arithmetic extended with -inf/+inf/NaN",
    "children of the module under contract are stubs whose only contract is the documented shape/scope (arbitrary log-likelihood values)",
    "CPython semantics, module construction and termination are executed, not proved",
]

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
