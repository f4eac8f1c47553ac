"""Runs the Kani (CBMC) proofs of kani/ and replays their counterexamples natively."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TGT = os.path.join(V, ".build", "kani")


def tree_hash(d):
    h = hashlib.sha256()
    for root, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode() + open(p, "rb").read())
    return h.hexdigest()


def env(tc=None):
    e = dict(os.environ, CARGO_TARGET_DIR=TGT, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    if tc:
        e["RUSTUP_TOOLCHAIN"] = tc
    return e


def kani(args, timeout):
    cmd = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "concrete-playback", "-Z", "unstable-options", "--no-default-checks"] + args
    try:
        r = subprocess.run(cmd, cwd=os.path.join(V, "kani"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.stdout
    except subprocess.TimeoutExpired as x:
        return (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"


def run(names, quick):
    t0 = time.time()
    os.makedirs(TGT, exist_ok=True)
    out = dict(violations=[], error=None, coverage={})
    with open(os.path.join(V, ".build", "kanilock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash("/repo/src") + tree_hash(os.path.join(V, "kani", "src"))
        st = os.path.join(TGT, "repo.hash")
        if (open(st).read() if os.path.exists(st) else "") != want:
            shutil.rmtree(TGT)
            os.makedirs(TGT)
            open(st, "w").write(want)
        args = ["--exact", "--harness-timeout", "250s" if quick else "1500s"]
        for n in names:
            args += ["--harness", "proofs::" + n]
        o = kani(args + ["--output-format", "terse", "-j", "8"], 330 if quick else 3500)
        # results per harness: the thread that started it reports it
        cur, res, secs, obl = {}, {}, {}, {}
        last = None
        for l in o.splitlines():
            m = re.match(r"(?:Thread (\d+): )?(.*)", l)
            th, x = m.group(1), m.group(2)
            if th is not None:
                last = th
            k = re.match(r"Checking harness proofs::(\w+)\.\.\.", x)
            if k:
                cur[th] = k.group(1)
            k = re.match(r" ?\*\* (\d+) of (\d+) failed", x)
            if k:
                obl[cur.get(last)] = int(k.group(2))
            k = re.match(r"VERIFICATION:- (\w+)", x)
            if k:
                res[cur.get(last)] = k.group(1)
            k = re.match(r"Verification Time: ([\d.]+)s", x)
            if k:
                secs[cur.get(last)] = float(k.group(1))
        if not res:
            out["error"] = "Kani did not run: " + o[-1500:]
            return out
        unknown = [n for n in names if n not in res]
        unconf = []
        for n in names:
            if res.get(n) != "FAILED":
                continue
            p = kani(["--exact", "--harness", "proofs::" + n, "--concrete-playback", "print", "--harness-timeout", "250s"], 300)
            bs = []
            m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", p, re.S)
            if not m:
                unknown.append(n)
                continue
            for g in re.findall(r"vec!\[([\d, ]+)\]", m.group(1)):
                bs += [int(b) for b in g.split(",") if b.strip()]
            vals = [int.from_bytes(bytes(bs[i:i + 8]), "little") for i in range(0, len(bs) - 7, 8)]
            vals = (vals + [0] * 4)[:4]
            r = replay(n, vals)
            v = dict(kani=n, bits=vals, what=r)
            (out["violations"] if r.startswith("VIOLATES") else unconf).append(v)
        # the same checks on concrete bit patterns of the compiled code (validates the encoding)
        one = 4607182418800017408
        runs = [(n, v) for n in names if res.get(n) == "SUCCESSFUL"
                for v in ([0, 0, 0, 0], [one, one + 1, one + 2, one], [one * 2 % 2**63, 0, 1 << 63, one], [2**64 - 1] * 4)]
        outs = [replay(n, v) for n, v in runs]
        out["states"], out["transitions"] = len(res), sum(obl.values())
        out["native"] = sum(o == "HOLDS" for o in outs)
        out["samples"] = [f"{n} bits={v}: {o}" for (n, v), o in list(zip(runs, outs))[::9]][:8]
        for (n, v), o in zip(runs, outs):
            if o.startswith("VIOLATES"):
                out["violations"].append(dict(kani=n, bits=v, what=o))
        out["incomplete"] = bool(unknown or unconf)
        for v in unconf:
            print(f"UNCONFIRMED (no violation): Kani counterexample {v} does not reproduce natively")
        out["coverage"] = dict(kani_obligations=obl, kani_solver="CBMC 6.11 (bit-precise IEEE 754, SAT)", kani_proofs={n: res.get(n, "no answer") for n in names},
                               kani_unknown=unknown, kani_unconfirmed=unconf, kani_solver_s=round(sum(secs.values()), 1), kani_wall_s=round(time.time() - t0, 1),
                               kani_bounds="all bit patterns of the inputs; the standard library's sqrt, sin, cos, acos, atan and atan2 are uninterpreted functions")
    return out


built = False


def replay(n, vals):
    global built
    if not built:
        subprocess.run(["cargo", "build", "-q", "--release", "--offline", "--locked"], cwd=os.path.join(V, "kani"), env=env("1.98.0"), check=True)
        built = True
    r = subprocess.run([os.path.join(TGT, "release", "kanichk"), n] + [str(x) for x in vals], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return (r.stdout.strip().splitlines() or ["no answer: " + r.stderr[-300:]])[-1]


def main(names, functions):
    r = run(names, sys.argv[1:] != ["thorough"])
    r["functions"] = [f + " at f32 and f64" for f in functions]
    print(json.dumps(r))
