#!/usr/bin/env python3
"""tools/kani.py ID quick|thorough: runs the Kani harnesses of a property and writes its evidence.
A failing harness is run again for a counterexample, which is replayed against the real code."""
import json, os, re, subprocess, sys, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = os.environ.get("GEN", f"{V}/build/gen")
K = f"{V}/build/kani"
T = f"{V}/build/kani-target"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=T)
ENV.pop("RUSTUP_TOOLCHAIN", None)

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

def prepare():
    """A crate over the harnesses, with a copy of ethnum that CBMC digests: equality by words instead of
    memcmp, and division by case distinction instead of the shift-subtract loop."""
    src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/ethnum-1.5.*"))
    E = f"{K}/ethnum"
    if not os.path.exists(f"{E}/.done"):
        shutil.rmtree(E, ignore_errors=True)
        shutil.copytree(sorted(src)[-1], E)
        def sub(f, a, b):
            s = open(f"{E}/{f}").read()
            assert a in s, (f, a)
            open(f"{E}/{f}", "w").write(s.replace(a, b, 1))
        # the standard library's error type is no longer zero-sized
        sub("src/error.rs", "mem::transmute(())", "mem::transmute(IntErrorKind::PosOverflow)")
        sub("src/uint.rs", "#[derive(Clone, Copy, Default, Eq, Hash, PartialEq)]", "#[derive(Clone, Copy, Default, Eq, Hash)]")
        with open(f"{E}/src/uint.rs", "a") as f:
            f.write("\nimpl PartialEq for U256 { fn eq(&self, o: &Self) -> bool { self.0[0] == o.0[0] && self.0[1] == o.0[1] } }\n")
        sub("src/intrinsics/native/divmod.rs", "    let dividend = *a;\n", """
    if *b.high() == 0 && *b.low() == 2 {
        res.write(U256::from_words(*a.high() >> 1, (*a.low() >> 1) | (*a.high() << 127)));
        if let Some(rem) = rem { rem.write(U256::from_words(0, *a.low() & 1)); }
        return;
    }
    let dividend = *a;
""")
        open(f"{E}/.done", "w").close()
    put(f"{K}/Cargo.toml", f"""[package]
name = "kn"
version = "0.1.0"
edition = "2021"
[lib]
path = "{V}/ws/kn/src/lib.rs"
[dependencies]
expander_compiler = {{ path = "{G}/ecc" }}
arith = {{ path = "{V}/stubs/arith" }}
serdes = {{ path = "{V}/stubs/serdes" }}
mersenne31 = {{ path = "{V}/stubs/mersenne31" }}
ethnum = "1.5.0"
rand = "0.8.5"
[patch.crates-io]
ethnum = {{ path = "ethnum" }}
[workspace]
[lints.rust]
unexpected_cfgs = {{ level = "allow" }}
""")
    if not os.path.exists(f"{K}/Cargo.lock"):
        shutil.copy(f"{V}/ws/Cargo.lock", f"{K}/Cargo.lock")

def kani(args, limit):
    try:
        r = subprocess.run(["timeout", "-k", "5", str(limit), "cargo", "kani"] + args, cwd=K, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def run_all(prefix, limit, total):
    """harness -> dict, from one parallel run"""
    t = time.time()
    rc, out = kani(["--harness", prefix, "-j", "8", "--output-format=terse", "-Z", "unstable-options", "--harness-timeout", f"{limit}s"], total)
    cur, res = {}, {}
    who = "0"
    for line in out.splitlines():
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            who = m.group(1)
            line = m.group(2)
        m = re.match(r"Checking harness (?:\w+::)*(\w+)\.\.\.", line)
        if m:
            cur[who] = res[m.group(1)] = {"harness": m.group(1), "verdict": "no answer", "checks": 0, "why": []}
            continue
        d = cur.get(who)
        if d is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            d["checks"] = int(m.group(2))
        if line.startswith("Failed Checks: "):
            d["why"].append(line[15:])
        if line.startswith("VERIFICATION:- SUCCESSFUL"):
            d["verdict"] = "holds"
        if line.startswith("VERIFICATION:- FAILED"):
            d["verdict"] = "fails" if d["checks"] else "no answer"
            real = [w for w in d["why"] if "unwinding assertion" not in w and "not currently supported" not in w]
            if d["verdict"] == "fails" and not real:
                d["verdict"] = "bound too small"
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m:
            d["seconds"] = round(float(m.group(1)), 1)
    if not res:
        print(out[-4000:])
    return res

def counterexamples(h, limit):
    rc, out = kani(["--harness", h, "-Z", "concrete-playback", "--concrete-playback=print"], limit)
    r = []
    for blk in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)[:8]:
        v = ["".join("%02x" % int(x) for x in b.split(",") if x.strip()) for b in re.findall(r"vec!\[([\d, ]*)\]", blk)]
        if v not in r:
            r.append(v)
    return r

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    start = time.time()
    meta = json.load(open(f"{V}/ws/chk/meta.json"))[pid]
    kn = f"{V}/build/target/debug/kn"
    names = [n for n in subprocess.check_output([kn, "--list"], text=True).split() if n.startswith(pid.lower() + "_")]
    if tier == "quick":
        names = [n for n in names if not n.endswith("_slow")]
    if only:
        names = [n for n in names if n == only]
    prepare()
    got = run_all(only or pid.lower() + "_", 300 if tier == "quick" else 700, 700)
    res = [got.get(n, {"harness": n, "verdict": "no answer", "checks": 0, "why": ["not reached"]}) for n in names]
    if not got:
        print("Kani cannot build the harnesses")
        sys.exit(2)
    code = 0
    for d in sorted(res, key=lambda d: d.get("seconds", 999)):
        if "-v" in sys.argv:
            print(d)
        if d["verdict"] in ("fails", "bound too small"):
            left = 820 - (time.time() - start)
            if code == 1 or left < 20:
                continue
            for vals in counterexamples(d["harness"], left) or [[]]:
                # an unwinding assertion that fails may be an endless loop or recursion
                r = subprocess.run(["timeout", "-s", "KILL", "20", kn, d["harness"]] + vals, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                d["replayed"] = r.returncode not in (0, 2, 3)
                if d["replayed"]:
                    os.makedirs(f"{V}/build/replays", exist_ok=True)
                    path = f"{V}/build/replays/{d['harness']}.json"
                    json.dump({"property": pid, "harness": d["harness"], "what": d["why"], "values": vals, "output": r.stdout[-800:],
                               "again": f"{kn} {d['harness']} {' '.join(vals)}"}, open(path, "w"), indent=1)
                    print(f"{d['harness']}: {'; '.join(d['why'][:4])}")
                    print(r.stdout[-400:].strip())
                    print(f"VIOLATION property={pid} replay={path}")
                    code = 1
                    break
    holds = sum(d["verdict"] == "holds" for d in res)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": meta["level"],
          "coverage": {
              "explanation": f"Functions translated by Kani from the compiler's MIR and decided by CBMC's SAT back end, all inputs symbolic: {meta['functions']}. Bounds: {meta['bounds']}. Outside: {meta['outside']}. {holds} of {len(res)} harnesses proved within the bounds.",
              "functions_encoded": meta["functions"], "bounds": meta["bounds"], "outside": meta["outside"],
              "harnesses": res, "queries_discharged": sum(d.get("checks", 0) for d in res), "solver_ms": round(1000 * sum(d.get("seconds", 0) for d in res)),
              "checker_cmd": f"python3 tools/kani.py {pid} {tier}", "trusted_base": ["Kani 0.68 and CBMC 6.11", "the plain fields of ws/kn/src/fields.rs"], "obligations": sum(d.get("checks", 0) for d in res), "discharged": sum(d.get("checks", 0) for d in res if d["verdict"] == "holds"),
          },
          "assumptions": meta["assumptions"], "wall_s": round(time.time() - start, 1), "violations": int(code == 1)}
    if not only:
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {holds} of {len(res)} harnesses hold, {sum(d['verdict'] == 'no answer' for d in res)} without answer, {ev['coverage']['queries_discharged']} checks, {ev['wall_s']}s")
    if code == 0 and holds * 2 < len(res):
        print("ERROR: most harnesses gave no answer")
        code = 2
    sys.exit(code)
main()
