"""Command line: python -m dv.check PROPERTY [--tier quick|thorough] [--replay FILE]."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GLIMPSE_REPO", "/repo")


def setup_path():
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)


def load_props():
    from . import props

    for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
        importlib.import_module(f"dv.props.{m}")


def worker(conn, prop, name, tier, seed, limit, shard=0, work=None):
    """Check one harness: concrete contract runs, then proof, then replay."""
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    t0 = time.time()
    out = {"harness": name, "violations": [], "conc": {}, "sym": None, "error": None}

    def send():
        conn.send(json.dumps(out, default=str))

    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        setup_path()
        load_props()
        from . import harness as H

        h = [x for x in H.HARNESSES[prop] if x.name == name][0]
        scale = 4 if tier == "thorough" else 1
        # 1. run-time contract check on the real code (bounded, seeded)
        conc = {"samples": 0, "discarded": 0, "checked": {}, "distinct": 0, "cases": []}
        out["conc"] = conc
        different = set()

        def sample(k, n, until):
            for s in range(k, n):
                if time.time() > until:
                    return
                st, env, det = H.run_concrete(h, None, seed * 1000003 + s)
                conc["samples"] += 1
                if st == "discard":
                    conc["discarded"] += 1
                elif any(env.checked.values()):
                    case = json.dumps(env.values, default=str)
                    different.add(hash(case))
                    conc["distinct"] = len(different)
                    if len(conc["cases"]) < 2:
                        conc["cases"].append(case[:400])
                for nm, c in env.checked.items():
                    conc["checked"][nm] = conc["checked"].get(nm, 0) + c
                if st in ("fail", "exception"):
                    out["violations"].append(
                        {"kind": "run-time", "status": st, "detail": det, "values": env.values, "seed": seed * 1000003 + s}
                    )
                    return

        nsamp = h.samples * scale if shard == 0 else 0
        sample(0, nsamp, t0 + 0.35 * limit)
        if not out["violations"] and shard == 0:
            # spare time: more seeded runs
            sample(nsamp, nsamp * 6, time.time() + 4 * scale)
        if out["violations"]:
            send()
            return
        # 2. proof
        if h.sym:
            try:
                sym = H.explore(
                    h,
                    min(t0 + limit * 0.9, time.time() + h.budget * (3 if tier == "thorough" else 1)),
                    h.paths * scale,
                    ob_budget=10.0 if tier == "quick" else 40.0,
                    work=work,
                )
                sym["notes"] = sorted(sym["notes"])
                out["sym"] = sym
            except Exception:
                out["error"] = traceback.format_exc()[-2000:]
                sym = None
            if sym is not None:
                bad = [o for o in sym["obligations"] if o["status"] != "proved"]
                seen = 0
                for o in bad:
                    for vals in o.get("models", []):
                        if seen > 40 or time.time() > t0 + limit * 0.95:
                            break
                        seen += 1
                        for sd in (0, 1):
                            st, env, det = H.run_concrete(h, vals, seed + sd)
                            if st in ("fail", "exception"):
                                out["violations"].append(
                                    {
                                        "kind": "counterexample", "status": st, "obligation": o["name"],
                                        "detail": det, "values": env.values, "seed": seed + sd,
                                    }
                                )
                                break
                        if out["violations"]:
                            break
                    if out["violations"]:
                        break
                if bad and not out["violations"]:
                    # intensified search before reporting or giving up
                    sample(nsamp * 6, max(nsamp, h.samples) * 14, min(t0 + limit * 0.98, time.time() + 20 * scale))
                if not out["violations"]:
                    base = baseline().get(prop, {}).get(name, {})
                    for o in bad:
                        secs = base.get("proved", {}).get(o["name"])
                        if secs is None or o["kind"] != "ensure":
                            continue
                        if o["status"] == "refuted" or (
                            o["status"] == "unknown" and secs <= 0.5 and o["secs"] >= 4 and sym["budget"] != "time"
                        ):
                            out["violations"].append(
                                {
                                    "kind": "no-failing-input-found", "obligation": o["name"], "status": o["status"],
                                    "detail": f"obligation proved on the reference tree is now {o['status']} "
                                    f"({o['backend']}); no concrete failure reproduced. {o['detail']} {o['why']}",
                                    "values": (o.get("models") or [None])[0], "seed": seed,
                                }
                            )
                            break
        send()
    except Exception:
        out["error"] = traceback.format_exc()[-3000:]
        send()
    finally:
        conn.close()
        os._exit(0)


def baseline():
    """Obligations proved on the reference tree: {property: {harness: {...}}}."""
    path = os.path.join(ROOT, "baseline.json")
    return json.load(open(path)) if os.path.exists(path) else {}


def assumed_text():
    from . import assumed

    return ["assumed contract: " + t for t in assumed.TEXT]


def known_findings():
    """Parse the committed known-findings file."""
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(line)
    return out


def run(prop, tier, seed):
    from . import harness as H
    from . import meta

    t0 = time.time()
    hs = H.HARNESSES.get(prop, [])
    if not hs:
        print(f"no harness for {prop}", file=sys.stderr)
        return 2
    total = 840 if tier == "thorough" else 400
    ncpu = max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    queue = []
    for h in hs:
        work = H.SharedWork(ctx, h.shards) if h.sym and h.shards > 1 else None
        queue += [(h, i, work) for i in range(h.shards)]
    queue.sort(key=lambda x: -x[0].budget)
    running = []
    results = []
    while queue or running:
        while queue and len(running) < ncpu:
            h, shard, work = queue.pop(0)
            limit = min(h.budget * (4 if tier == "thorough" else 1) + 60, total - (time.time() - t0) - 5)
            limit = max(limit, 10)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w, prop, h.name, tier, seed, limit, shard, work))
            p.start()
            w.close()
            running.append((h, p, r, time.time(), limit))
        time.sleep(0.02)
        still = []
        for item in running:
            h, p, r, ts, limit = item
            done = False
            try:
                if r.poll(0):
                    results.append((h, json.loads(r.recv()), time.time() - ts))
                    done = True
            except EOFError:
                results.append((h, {"harness": h.name, "violations": [], "conc": {}, "sym": None, "error": "worker ended"}, time.time() - ts))
                done = True
            if not done and time.time() - ts > limit + 25:
                results.append((h, {"harness": h.name, "violations": [], "conc": {}, "sym": None, "error": "time limit"}, time.time() - ts))
                done = True
            if done:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(5)
                r.close()
            else:
                still.append(item)
        running = still
        if any(v["kind"] != "no-failing-input-found" for _, x, _ in results for v in x["violations"]):
            # a failing input settles the check
            queue = []
            for _, p, r, _, _ in running:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(5)
                r.close()
            running = []
    return report(prop, tier, seed, results, time.time() - t0, meta)


def merge(rs):
    """Combine the results of the shards of one harness."""
    if len(rs) == 1:
        return rs[0]
    out = {"harness": rs[0]["harness"], "violations": [], "conc": {}, "sym": None, "error": None}
    syms = [r.get("sym") for r in rs]
    for r in rs:
        out["violations"] += r["violations"]
        out["error"] = out["error"] or r.get("error")
        for k, zero in (("samples", 0), ("discarded", 0), ("distinct", 0), ("cases", [])):
            out["conc"][k] = out["conc"].get(k, zero) + (r["conc"].get(k, zero) if r["conc"] else zero)
    out["violations"] = out["violations"][:1]
    if all(syms):
        m = {"paths": 0, "obligations": [], "unsupported": {}, "budget": None, "notes": []}
        for s in syms:
            m["paths"] += s["paths"]
            m["obligations"] += s["obligations"]
            m["budget"] = m["budget"] or s["budget"]
            m["notes"] += s["notes"]
            for k, v in s["unsupported"].items():
                m["unsupported"][k] = m["unsupported"].get(k, 0) + v
        out["sym"] = m
    return out


def report(prop, tier, seed, results, wall, meta):
    obl = disch = 0
    backends, names, undecided, funcs = {}, set(), [], set()
    notes, harn = set(), []
    solver = 0.0
    viols = []
    samples = distinct = 0
    cases = []
    base_out = {}
    from . import harness as H

    for h in H.HARNESSES[prop]:
        res = [(x, w) for hh, x, w in results if hh.name == h.name]
        if not res:
            continue
        r, w = merge([x for x, _ in res]), max(w for _, w in res)
        s = r.get("sym")
        rec = {
            "harness": h.name, "functions": list(h.targets), "seconds": round(w, 1),
            "runtime_samples": r["conc"].get("samples", 0) - r["conc"].get("discarded", 0),
        }
        samples += rec["runtime_samples"]
        distinct += r["conc"].get("distinct", 0)
        cases += [{"harness": h.name, "values": c} for c in r["conc"].get("cases", [])]
        if s:
            o = s["obligations"]
            ok = [x for x in o if x["status"] == "proved"]
            obl += len(o)
            disch += len(ok)
            for x in ok:
                for b in (x["backend"] or "trivial").split("+"):
                    backends[b] = backends.get(b, 0) + 1
            solver += sum(x["secs"] for x in o)
            for x in o:
                names.add(f"{h.name}:{x['name']}")
                if x["status"] != "proved":
                    undecided.append(f"{h.name}:{x['name']}: {x['status']} {x['why']}".strip())
            notes |= set(s["notes"])
            rec.update(paths=s["paths"], obligations=len(o), discharged=len(ok))
            complete = not s["unsupported"] and not s["budget"] and len(o) == len(ok) and o
            if s["unsupported"]:
                rec["unsupported"] = s["unsupported"]
                undecided += [f"{h.name}: outside the verifier's reach: {k}" for k in s["unsupported"]]
            if s["budget"]:
                rec["budget"] = s["budget"]
                undecided.append(f"{h.name}: {s['budget']} budget reached")
            rec["decided_by"] = "proof" if complete else "bounded run-time contract check (proof incomplete)"
            if complete and h.bounded:
                rec["decided_by"] = "proof for all values, bounded in: " + h.bounded
            funcs |= set(h.targets)
            proved, rest = {}, {x["name"] for x in o if x["status"] != "proved"}
            for x in ok:
                if x["name"] not in rest and x["kind"] == "ensure":
                    proved[x["name"]] = max(proved.get(x["name"], 0), round(x["secs"], 1))
            base_out[h.name] = {"complete": bool(complete), "proved": proved}
        else:
            rec["decided_by"] = "bounded run-time contract check"
            if h.sym:
                undecided.append(f"{h.name}: verifier gave no answer ({(r.get('error') or '')[-300:]})")
        if r.get("error"):
            rec["error"] = r["error"][-500:]
        harn.append(rec)
        for v in r["violations"][:1]:
            viols.append((h, v))
    if any(v["kind"] != "no-failing-input-found" for _, v in viols):
        viols = [x for x in viols if x[1]["kind"] != "no-failing-input-found"]
    lvl, assumptions = meta.level(prop), meta.assumptions(prop)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    known = [k for k in known_findings() if f"property={prop} " in k and not k.startswith("fixed:")]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": lvl,
        "coverage": {
            "obligations": obl,
            "discharged": disch,
            "checker_cmd": f"python -m dv.check {prop} --tier {tier}",
            "trusted_base": meta.TRUSTED,
            "obligation_names": sorted(names)[:400],
            "functions_under_contract": sorted(funcs),
            "backends": backends,
            "solver_seconds": round(solver, 2),
            "undecided": undecided[:60],
            "evaluations": samples,
            "distinct_nontrivial": distinct,
            "rule": "seeded executions of each contract on the real code with real numpy; counted when no assumption "
            "rejected the inputs, at least one clause of the contract was evaluated, and no earlier run of that "
            "contract drew the same inputs",
            "samples": cases[:40],
            "harnesses": harn,
        },
        "assumptions": assumptions + assumed_text() + sorted(notes),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print("KNOWN-FINDING: " + k.split("known: ", 1)[-1])
    for r in harn:
        print(f"  {r['harness']}: {r.get('discharged', 0)}/{r.get('obligations', 0)} obligations, "
              f"{r.get('paths', 0)} paths, {r['runtime_samples']} runs, {r['seconds']}s -> {r['decided_by']}")
    for u in undecided[:20]:
        print("  undecided:", u)
    if os.environ.get("DV_BASELINE"):
        write_baseline(prop, base_out)
    for r in harn:
        if r.get("error"):
            print("  error:", r["harness"], r["error"])
    if not viols:
        print(f"OK property={prop} obligations={obl} discharged={disch} runs={samples} wall={wall:.1f}s")
        return 0
    for i, (h, v) in enumerate(viols):
        path = os.path.join(ROOT, "replays", f"{prop}-{h.name}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": h.name, **v}, f, indent=1, default=str)
        tail = " no-failing-input-found" if v["kind"] == "no-failing-input-found" else ""
        print(f"  {h.name}: {v.get('obligation', '')} {v['detail'][:600]}")
        print(f"  input: {json.dumps(v.get('values'), default=str)[:600]}")
        print(f"VIOLATION property={prop} replay={path}{tail}")
    return 1


def write_baseline(prop, rec):
    """Maintenance only (DV_BASELINE=1): record what is proved on this tree."""
    d = baseline()
    d[prop] = rec
    with open(os.path.join(ROOT, "baseline.json"), "w") as f:
        json.dump(d, f, indent=0, sort_keys=True)


def replay(path):
    setup_path()
    load_props()
    from . import harness as H

    d = json.load(open(path))
    h = [x for x in H.HARNESSES[d["property"]] if x.name == d["harness"]][0]
    st, env, det = H.run_concrete(h, d["values"], d.get("seed", 0))
    print(st, det)
    return 1 if st in ("fail", "exception") else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?", default="")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--harness")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    setup_path()
    load_props()
    if a.property == "--selftest" or a.selftest:
        from . import harness as H

        print(f"ok: {sum(map(len, H.HARNESSES.values()))} harnesses for {len(H.HARNESSES)} properties")
        sys.exit(0)
    if a.harness:
        from . import harness as H

        for k in H.HARNESSES:
            H.HARNESSES[k] = [h for h in H.HARNESSES[k] if h.name == a.harness or k != a.property]
    sys.exit(run(a.property, a.tier, a.seed))


if __name__ == "__main__":
    main()
