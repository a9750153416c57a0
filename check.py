#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

1. Verus units of the property are generated from /repo's current source and discharged (the deciding step).
2. The native harness (the same real code, compiled) looks for a concrete failing input.
See DESIGN.md for how the outcomes are combined.
"""
import json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import verusrun as V
from rustx import Lost, TRANSFORMS
from props import PROPS

BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")


def prove(unit, out):
    """generate + verify one unit; functions that cannot be brought to the verifier any more are stubbed and undecided"""
    stubs, notes = {}, {}
    res = None
    t0 = time.time()
    for _ in range(8):
        try:
            src, fns, substs = V.build(unit, stubs=set(stubs))
        except Lost as ex:
            k = getattr(ex, "fn", None)
            if k and k not in stubs:
                stubs[k] = "not extractable: %s" % ex
                continue
            out[unit] = {"unit": unit, "status": "lost", "why": str(ex), "fns": [], "wall": time.time() - t0}
            return
        except Exception as ex:
            out[unit] = {"unit": unit, "status": "lost", "why": repr(ex), "fns": [], "wall": time.time() - t0}
            return
        res = V.run_verus(src, unit)
        if res["status"] != "compile":
            break
        hit = False
        for f in res["failures"]:
            if not V.is_compile(f["msg"]):
                continue
            fn = V.fn_of(fns, f["lines"])
            if fn and fn["key"] not in stubs:
                stubs[fn["key"]] = "outside the verifier's reach: " + f["msg"]
                hit = True
        if not hit:
            break
    o = {"unit": unit, "status": res["status"], "fns": fns, "substs": substs, "res": res, "stubs": stubs,
         "src": src, "wall": time.time() - t0, "assumptions": V.scan_assumptions(src)}
    out[unit] = o


def probe(unit, out):
    """vacuity: `assert(false)` at the start of every contracted body must fail"""
    try:
        src, fns, _ = V.build(unit, probe=True)
        r = V.run_verus(src, unit + "_probe")
        bad = set()
        for f in r["failures"]:
            if "assertion failed" in f["msg"]:
                fn = V.fn_of(fns, f["lines"])
                if fn:
                    bad.add(fn["key"])
        out[unit] = {"functions": len(fns), "reachable": len(bad), "vacuous": sorted(f["key"] for f in fns if f["key"] not in bad) if r["status"] != "compile" else None}
    except Exception as ex:
        out[unit] = {"error": str(ex)}


def build_harness(out, crate):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.73", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"), HOME=os.environ.get("HOME", "/root"))
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["RUSTFLAGS"] = "--cfg nakamoto_verif -Awarnings"
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(HERE, crate), env=env, capture_output=True, text=True)
    out["rc"] = p.returncode
    out["err"] = p.stderr[-4000:]
    out["wall"] = time.time() - t0


def tags_of(unit, fn, line):
    """property tags on the clause at `line` of the generated file (`// [C01 C02]` above it), if any"""
    ls = unit["src"].split("\n")
    for i in range(line - 1, fn["gen"][0] - 2, -1):
        m = re.match(r"\s*// \[([C\d ]+)\]", ls[i])
        if m:
            return m.group(1).split()
        if re.search(r"\b(requires|ensures)\b\s*$", ls[i]):
            return None
    return None


def baseline_fp(unit):
    try:
        return json.load(open(os.path.join(HERE, "verus", "fp.json")))[unit]
    except Exception:
        return {}


def same_shape(fn, base):
    b = base.get(fn["key"])
    if b is None:
        return False
    f = fn["fp"]
    return f["loops"] == b["loops"] and f["closures"] == b["closures"] and set(f["calls"]) <= set(b["calls"])


def stops(f):
    """is this obligation one whose failure is a panic, an overflow or a loop without end?"""
    m = f["msg"].lower()
    if m.startswith("possible ") or "decreases" in m or "unreachable" in m:
        return True
    t = f["text"]
    return m.startswith("precondition not satisfied") and bool(re.search(r"std_specs/|pervasive\.rs|unwrap *\(|expect *\(|(assert|unreachable) *! *\(", t))


def judge(prop, units, cfg):
    """-> (failed obligations that count, undecided notes, obligations, discharged)"""
    failed, undecided = [], []
    obl = dis = 0
    for u in cfg["units"]:
        o = units[u]
        if "res" not in o:
            undecided.append({"unit": u, "why": o["why"]})
            continue
        r = o["res"]
        obl += r["verified"] + r["errors"] + len(o["stubs"])
        dis += r["verified"]
        for k, why in o["stubs"].items():
            undecided.append({"unit": u, "function": k, "why": why})
        if r["status"] in ("compile", "timeout"):
            undecided.append({"unit": u, "why": r["status"] + ": " + (r["failures"][0]["msg"] if r["failures"] else "")})
            continue
        base = baseline_fp(u)
        for f in r["failures"]:
            fn = V.fn_of(o["fns"], f["lines"])
            own = fn["props"] if fn and fn["props"] else cfg.get("unit_props", {}).get(u)
            if fn and "postcondition" in f["msg"]:
                for l in f["lines"]:
                    if fn["gen"][0] <= l <= fn["gen"][1]:
                        t = tags_of(o, fn, l)
                        if t:
                            own = t
                            break
            if cfg.get("panics"):
                # this property is about what stops the node, whatever else the function is for
                if not stops(f):
                    continue
            elif own is not None and prop not in own:
                continue
            rec = {"unit": u, "function": fn["key"] if fn else "(lemma or type)", "source_line": fn["line"] if fn else None, "message": f["msg"], "verifier_output": f["text"]}
            low = f["msg"].lower()
            if "rlimit" in low or "resource limit" in low:
                rec["why"] = "solver resource limit"
                undecided.append(rec)
            elif fn is not None and not same_shape(fn, base):
                rec["why"] = "the body's loops, closures or calls changed, so its proof script may simply no longer fit"
                undecided.append(rec)
            elif o["stubs"]:
                rec["why"] = "another function of the unit is not under proof any more"
                undecided.append(rec)
            else:
                failed.append(rec)
    return failed, undecided, obl, dis


def known():
    res = []
    p = os.path.join(HERE, "known_findings.jsonl")
    for l in open(p):
        l = l.strip()
        if l and not l.startswith("#") and l.startswith("{"):
            res.append(json.loads(l))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    units, probes, hb = {}, {}, {}
    crate = cfg.get("harness", "harness")
    binary = {"harness": "nakamoto-verif", "harness_wallet": "nakamoto-verif-wallet"}[crate]
    th = [threading.Thread(target=prove, args=(u, units)) for u in cfg["units"]]
    th += [threading.Thread(target=probe, args=(u, probes)) for u in cfg["units"]]
    hth = threading.Thread(target=build_harness, args=(hb, crate))
    hth.start()
    for t in th:
        t.start()
    hth.join()
    harness = None
    concrete = []
    if hb["rc"] == 0:
        ms = cfg.get("ms", {}).get(tier, 20000 if tier == "quick" else 240000)
        exe = os.path.join(BUILD, "target", "debug", binary)
        cmd = [exe, prop, "--seed", str(seed), "--ms", str(ms)]
        env = dict(os.environ, VERIF_SCRATCH=os.path.join(BUILD, "scratch-%d" % os.getpid()))
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=ms / 1000 + 240, env=env)
            try:
                harness = json.loads(p.stdout)
            except Exception:
                if p.returncode == -9:
                    raise MemoryError
                harness = [{"scenario": "?", "cases": 0, "fail": {"case": None, "what": "harness ended with status %d: %s" % (p.returncode, (p.stderr or p.stdout)[-2000:]), "history": []}}]
        except MemoryError:
            hb = {"rc": 99, "err": "the harness was killed (memory)", "wall": hb["wall"]}
        except subprocess.TimeoutExpired:
            harness = [{"scenario": "?", "cases": 0, "fail": {"case": None, "what": "the code under test did not terminate (harness killed after %d s)" % (ms / 1000 + 240), "history": []}}]
        subprocess.run(["rm", "-rf", env["VERIF_SCRATCH"]])
        for h in harness or []:
            if h.get("fail"):
                concrete.append(h)
    for t in th:
        t.join()
    failed, undecided, obl, dis = judge(prop, units, cfg)
    vac = [k for u in probes.values() for k in (u.get("vacuous") or [])]
    vac = [k for k in vac if k not in cfg.get("probe_skip", [])]
    # known findings: printed, never counted
    kf = [k for k in known() if k["property"] == prop and k["status"] == "known"]
    for h in (harness or []):
        for k in kf:
            if h.get("stats", {}).get("known:" + k["id"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    violation = None
    replay = os.path.join(EVID, "%s.replay.json" % prop)
    rp = {"property": prop, "failed_obligations": failed, "undecided": undecided}
    if concrete:
        h = concrete[0]
        rp["failing_input"] = h["fail"]
        rp["scenario"] = h["scenario"]
        rp["replay_cmd"] = "cd %s/%s && CARGO_TARGET_DIR=%s/target cargo build --offline && %s/target/debug/%s %s --scenario %s --case %s" % (HERE, crate, BUILD, BUILD, binary, prop, h["scenario"], h["fail"]["case"])
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    if violation:
        json.dump(rp, open(replay, "w"), indent=1)
    bounded = None
    if harness is not None:
        bounded = [{"scenario": h["scenario"], "cases": h["cases"], "events": h.get("stats", {}), "wall_s": h.get("wall_s")} for h in harness]
    contracts = []
    for u in cfg["units"]:
        for f in units[u].get("fns", []):
            if cfg.get("panics") or f["props"] is None or prop in f["props"]:
                contracts.append({"function": f["key"], "line": f["line"], "under_proof": not f["stub"]})
    smt = sum(o["res"].get("smt_ms", 0) for o in units.values() if "res" in o)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join(o["res"]["cmd"] for o in units.values() if "res" in o),
            "trusted_base": sorted(set(a for o in units.values() for a in o.get("assumptions", []))) + cfg.get("trusted", []),
            "functions_under_contract": contracts,
            "obligation_unit": "one per function, lemma or well-formedness query that Verus reports",
            "backend": "Verus (Z3)", "solver_ms": smt,
            "units": [{"unit": u, "status": o["status"], "verified": o.get("res", {}).get("verified"), "errors": o.get("res", {}).get("errors"), "wall_s": round(o["wall"], 2)} for u, o in units.items()],
            "extraction": TRANSFORMS, "substitutions": [s for o in units.values() for s in o.get("substs", [])],
            "vacuity_probes": probes,
            "not_decided_by_proof": [{k: v for k, v in x.items() if k != "verifier_output"} for x in undecided],
            "bounded_stand_in": {"what": cfg.get("bounded", ""), "runs": bounded, "harness_build": "ok" if hb["rc"] == 0 else hb["err"]},
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for u in undecided:
        print("undecided by proof: %s %s: %s" % (u["unit"], u.get("function", ""), u["why"]))
    print("%s: %d/%d obligations discharged, %s" % (prop, dis, obl, "harness did not build" if hb["rc"] else "%d cases of the bounded stand-in" % sum(h["cases"] for h in harness)))
    if violation:
        for f in failed:
            print("failed obligation: %s | %s | %s" % (f["unit"], f["function"], f["message"]))
        for h in concrete:
            print("failing input: scenario %s case %s: %s" % (h["scenario"], h["fail"]["case"], h["fail"]["what"]))
        print(violation)
        sys.exit(1)
    if hb["rc"] != 0:
        if undecided or not obl:
            print(hb["err"])
            sys.exit(2)
    if vac and all(o["status"] == "ok" and not o["stubs"] for o in units.values()):
        print("vacuous contracts: %s" % vac)
        sys.exit(2)
    if obl == 0 and not undecided:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
