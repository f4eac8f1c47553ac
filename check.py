#!/usr/bin/env python3
"""Run the solver-based check of one property (or replay a counterexample).

  check.py build                 build the symbolic-execution harness (setup)
  check.py C02 [--tier thorough] check property C02, rewrite evidence/C02.json
  check.py replay FILE           replay a recorded counterexample on the f64 code

The harness crate symx instantiates the real, compiled generic library of /repo
at a symbolic number type; it is rebuilt from /repo's working tree on every run.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(V, ".build", "symx")
BIN = os.path.join(TGT, "release", "symx")
WASM = False
OUT = os.path.join(V, "out")


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TGT
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cfg rcgal_verif -Awarnings"
    e["RUSTUP_TOOLCHAIN"] = e.get("VERIF_TOOLCHAIN", "1.98.0")
    e.pop("RUSTC_WRAPPER", None)
    return e


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def use_wasm():
    """the harness that also contains the WebAssembly wrappers, compiled natively"""
    global TGT, BIN, WASM
    TGT = os.path.join(V, ".build", "symxw")
    BIN = os.path.join(TGT, "release", "symx")
    WASM = True


def build():
    os.makedirs(TGT, exist_ok=True)
    with open(os.path.join(V, ".build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo trusts modification times; trust contents instead
        want = tree_hash(os.path.join(REPO, "src")) + open(os.path.join(REPO, "Cargo.toml")).read()
        stamp = os.path.join(TGT, "repo.hash")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if want != have:
            fp = os.path.join(TGT, "release", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("rcgal-"):
                        shutil.rmtree(os.path.join(fp, d))
        gen_sources("gen_num.py")
        if WASM:
            gen_sources("gen.py")
        # the data structures are private to the library: without them if they do not fit
        for f in ([["--features", "wasm"]] if WASM else [[], ["--no-default-features"]]):
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"] + f, cwd=os.path.join(V, "symx"),
                               env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die("the harness does not build against /repo")
        with open(stamp, "w") as f:
            f.write(want)


def gen_sources(tool):
    """Sources derived from /repo by tools (regenerated on every run)."""
    g = os.path.join(V, "tools", tool)
    if os.path.exists(g):
        r = subprocess.run([sys.executable, g], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            die("source generation failed")


def known(prop):
    """(finding lines, fixed lines) of known_findings.txt for this property"""
    fs, fx = [], []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: ") and f"property={prop} " in l:
                head, what = l.split(" :: ", 1)
                kv = dict(x.split("=", 1) for x in head.split()[1:])
                kv["what"] = what
                fs.append(kv)
            elif l.startswith("fixed: ") and f"property={prop} " in l:
                fx.append(l)
    return fs, fx


def native(harness, inputs, choices, what=""):
    r = subprocess.run([BIN, "replay", "--harness", harness, "--inputs", inputs, "--choices", choices, "--what", what],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    return json.loads(r.stdout.strip().splitlines()[-1])


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "C30":
        use_wasm()
    build()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    budget = 420 if tier == "quick" else 3600
    budget = int(os.environ.get("VERIF_BUDGET", budget))
    res = os.path.join(OUT, f"{prop}.{tier}.json")
    if os.path.exists(res):
        os.remove(res)
    p = subprocess.run([BIN, "run", "--prop", prop, "--tier", tier, "--threads", str(min(8, os.cpu_count() or 8)),
                        "--timeout", str(budget), "--query-ms", "20000" if tier == "quick" else "120000", "--out", res],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget + 400)
    if not os.path.exists(res):
        die("the symbolic executor produced no result")
    r = json.load(open(res))
    hs = r["harnesses"]
    extra = {}
    ext = os.path.join(V, "tools", f"extra_{prop}.py")
    if not hs and not os.path.exists(ext):
        die("no harness for " + prop)
    rc = 0
    viol = [v for h in hs for v in h["violations"]]
    conf = [v for v in viol if v["confirmed"]]
    lines = []
    for i, v in enumerate(conf[:5]):
        path = os.path.join(OUT, f"{prop}-{i}.replay.json")
        v["repro"] = ("python3 /verif/check.py replay " + path)
        json.dump(dict(property=prop, **v), open(path, "w"), indent=1)
        print(f"  counterexample in {v['harness']}: {v['what']} | inputs " +
              ", ".join(f"{k}={x.split(':')[1]}" for k, x in v["inputs"].items()) +
              f" choices={v['choices']} | real f64 code: {v['native']} {v['detail']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    if os.path.exists(ext):
        # additional solver checks of the same property (Kani / CBMC)
        q = subprocess.run([sys.executable, ext, tier], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            extra = json.loads(q.stdout.strip().splitlines()[-1])
        except Exception:
            print(q.stdout[-3000:])
            die("extra check failed to run")
        for i, v in enumerate(extra.get("violations", [])):
            path = os.path.join(OUT, f"{prop}-x{i}.replay.json")
            json.dump(dict(property=prop, **v), open(path, "w"), indent=1)
            print("  counterexample: " + json.dumps(v)[:600])
            lines.append(f"VIOLATION property={prop} replay={path}")
        if extra.get("error"):
            die(extra["error"])
    tot = lambda k: sum(h[k] for h in hs)
    unknown = tot("unknown_assert")
    complete = not extra.get("incomplete") and r["unexplored"] == 0 and tot("unsupported_n") == 0 and tot("bounded_n") == 0 and unknown == 0 and tot("unknown_branch") == 0
    findings, fixed = known(prop)
    kn = []
    # inputs on which rounding once broke the property (invisible to exact arithmetic): replayed
    # on the real f64 code, so that the repaired defect is reported again if it returns
    recorded = 0
    for e in json.load(open(os.path.join(V, "regress.json"))).get(prop, []):
        o = native(e["harness"], e.get("inputs", ""), e.get("choices", ""))
        recorded += 1
        if o["violates"]:
            path = os.path.join(OUT, f"{prop}-r{recorded}.replay.json")
            json.dump(dict(property=prop, harness=e["harness"], what=e["what"], choices=[int(x) for x in e["choices"].split(",") if x], native=o["what"],
                           inputs={a.split("=")[0]: a.split("=")[1].replace("0x", "") + ":" for a in e.get("inputs", "").split(",") if a}), open(path, "w"), indent=1)
            print(f"  recorded input of {e['harness']} choices={e['choices']}: {e['what']} | real f64 code: {o['what']}")
            lines.append(f"VIOLATION property={prop} replay={path}")
    for f in findings:
        o = native(f["harness"], f["inputs"], f.get("choices", ""))
        if o["violates"]:
            kn.append(f["what"])
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        else:
            print(f"note: recorded finding no longer reproduces: {f['what']}")
    for l in lines:
        print(l)
    if lines:
        rc = 1
    elif viol:
        v = viol[0]
        # exact-arithmetic counterexample the real code does not show: not a violation
        complete = False
        print(f"UNCONFIRMED (no violation): the f64 code does not reproduce {v['harness']}: {v['what']} inputs={v['inputs']} choices={v['choices']} native: {v['native']} {v['detail']}")
    elif hs and (tot("paths") == 0 or tot("asserts") == 0):
        print("ERROR: vacuous: no path reached an assertion")
        rc = 2
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", violations=len(lines), wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  states=tot("paths") + extra.get("states", 0), transitions=tot("decisions") + extra.get("transitions", 0),
                  traces_validated_against_impl=tot("native_agree") + extra.get("native", 0),
                  samples=([f"{h['name']}: {s}" for h in hs for s in h["samples"][:2]] + extra.get("samples", []))[:12],
                  exhaustive=bool(complete),
                  rule="states = feasible execution paths of the compiled library explored to the end (each stands for all real inputs that satisfy its path condition); transitions = branch decisions put to the solver or to a verified model" +
                       ("; plus Kani proofs (states) and the obligations CBMC decided in them (transitions)" if extra else ""),
                  functions_encoded=sorted({f.strip() for h in hs for f in h["funcs"].split(",")} | set(extra.get("functions", []))),
                  bounds={h["name"]: h["bounds"] for h in hs},
                  solver="z3-new (qfnra-nlsat, then the default tactic)", solver_queries=tot("queries"), solver_time_s=round(tot("solver_time"), 2),
                  max_query_s=max([h["max_query"] for h in hs], default=0),
                  assertions=tot("asserts"), assertions_closed_by_path_condition=tot("asserts_simplified"), assertion_parts_proved_by_solver=tot("asserts_solver"),
                  assertions_unknown=unknown, branches_unknown=tot("unknown_branch"), paths_unsupported=tot("unsupported_n"), paths_beyond_bound=tot("bounded_n"),
                  work_items_unexplored=r["unexplored"], infeasible_paths=tot("infeasible"),
                  library_operations=tot("lib_ops"), library_operations_not_exact_in_f64=tot("inexact_ops"),
                  paths_bit_exact_in_f64=tot("exact_paths"),
                  bit_exact_for_integer_inputs_up_to_2_pow=min([h["exact_bits"] for h in hs if h["exact_bits"] is not None], default=None),
                  native_replays=tot("native_runs"), native_replays_differing=tot("native_disagree_n"),
                  native_differing_samples=[s for h in hs for s in h["native_disagree"]][:6],
                  unsupported_samples=[s for h in hs for s in h["unsupported"]][:6],
                  bounded_samples=[s for h in hs for s in h["bounded"]][:6],
                  unknown_samples=[s for h in hs for s in h["unknown_sample"]][:6],
                  solver_errors=[s for h in hs for s in h["smt_errors"]][:6],
                  unconfirmed=[v for v in viol if not v["confirmed"]][:3],
                  assertion_hits={h["name"]: h["per_assert"] for h in hs}, witnesses={h["name"]: h["witnessed"] for h in hs if h["witnessed"]},
                  per_harness={h["name"]: dict(paths=h["paths"], decisions=h["decisions"], queries=h["queries"], solver_time=h["solver_time"]) for h in hs},
                  known_findings=kn, fixed=fixed, recorded_inputs_replayed=recorded, **extra.get("coverage", {})),
              assumptions=[
                  "library values are exact real numbers (f64 rounding is outside the encoding, except where paths_bit_exact_in_f64 applies)",
                  "the library's tolerance eps is an infinitesimal: |x| < eps means x = 0; results for inputs within 1e-10 of a degenerate configuration are outside the claim",
                  "rustc compiles the generic code at T = Sym as it does at T = f64; trigonometric functions are the exact mathematical ones; -0.0 is 0",
              ])
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: paths={tot('paths')} decisions={tot('decisions')} asserts={tot('asserts')} queries={tot('queries')} solver={tot('solver_time'):.1f}s "
          f"unknown={unknown}+{tot('unknown_branch')} unsupported={tot('unsupported_n')} bounded={tot('bounded_n')} unexplored={r['unexplored']} "
          f"native={tot('native_agree')}/{tot('native_runs')} violations={len(lines)} wall={time.time()-t0:.1f}s rc={rc}")
    sys.exit(rc)


def replay(path):
    v = json.load(open(path))
    if "kani" in v:
        sys.path.insert(0, os.path.join(V, "tools"))
        import kanirun
        o = kanirun.replay(v["kani"], v["bits"])
        print(o)
        sys.exit(1 if o.startswith("VIOLATES") else 0)
    if "harness" not in v:
        print(json.dumps(v, indent=1))
        sys.exit(1)
    if v["harness"].startswith("wasm_"):
        use_wasm()
    build()
    inp = ",".join(f"{k}=0x{x.split(':')[0]}" for k, x in v["inputs"].items())
    o = native(v["harness"], inp, ",".join(map(str, v["choices"])), v.get("what", ""))
    print(json.dumps(o, indent=1))
    sys.exit(1 if o["violates"] else 0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        die("usage: check.py build | PROPERTY | replay FILE")
    if a[0] == "build":
        build()
        use_wasm()
        build()
    elif a[0] == "replay":
        replay(a[1])
    else:
        t = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            t = a[a.index("--tier") + 1]
        check(a[0], t if t in ("quick", "thorough") else "quick")
