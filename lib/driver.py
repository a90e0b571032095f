import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(VERIF, "build", "target")
# The program as it ships, without instrumentation.
TARGET_CLI = os.path.join(VERIF, "build", "target-cli")
BRANCHES = ["-C", "passes=sancov-module", "-C", "llvm-args=-sanitizer-coverage-level=3",
            "-C", "llvm-args=-sanitizer-coverage-trace-pc-guard"]
REPO = "/repo"
NCURATED = 3
HOLLOW = 2
GENERAL = 0

DECODE = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09"]
SPEC_PROPS = DECODE + ["C10"]
# Decided without compiling what the generator emits.
TEXT_PROPS = ["C11", "C15"]

# property -> tier -> (random specifications, runs, seconds the search may take)
# Specifications (modulo 4) whose modules are instrumented.
BRANCHING = (0, 2)

SIZES = {
    "quick": {p: (96, 16000, 150) for p in DECODE} | {"C10": (0, 16000, 150), "C11": (0, 16000, 150), "C15": (0, 16000, 150)},
    "thorough": {p: (240, 60000, 480) for p in DECODE} | {"C10": (0, 60000, 480), "C11": (0, 200000, 600), "C15": (0, 200000, 600)},
}


# (bit reported by the simulator, key, properties it breaks, its scenario)
FINDINGS = [
    (1, "K1", ["C02"], "run bare spec=1 seed={seed}\n"),
    (2, "K1A", ["C01", "C03", "C05"], "run bare spec=1 seed={seed}\n"),
    (4, "K2", ["C01", "C04"], "run deep spec=0 links=200000\n"),
]


class Trouble(Exception):
    """The check cannot give an answer."""


def jobs():
    return min(8, os.cpu_count() or 1)


def env(target=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "RUSTC_WRAPPER", "CARGO_BUILD", "CARGO_PROFILE", "RUSTC_WORKSPACE")):
            del e[k]
    e["CARGO_TARGET_DIR"] = target or TARGET
    if not target:
        e["RUSTC_WRAPPER"] = os.path.join(SIM, "branches.sh")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sh(cmd, target=None, **kw):
    return subprocess.run(cmd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def cargo(args, target=None):
    """Builds and returns {crate name: path of its rlib or binary}."""
    # Whatever the time stamps say, the code under test is rebuilt.
    fp = os.path.join(target or TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("fastxdr-"):
                shutil.rmtree(os.path.join(fp, n))
    for attempt in (0, 1):
        r = sh(["cargo", "build", "--offline", "--locked", "--message-format=json", "-j", str(jobs())] + args, target=target, cwd=SIM)
        if r.returncode == 0:
            break
    else:
        errs = []
        for l in r.stdout.decode(errors="replace").splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
                errs.append(m["message"].get("rendered", ""))
        raise Trouble("cargo build failed:\n" + "\n".join(errs)[:6000] + r.stderr.decode(errors="replace")[-3000:])
    out = {}
    for l in r.stdout.decode(errors="replace").splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        t = m["target"]
        if m.get("executable"):
            out["bin:" + t["name"]] = m["executable"]
            continue
        for f in m["filenames"]:
            if f.endswith((".rlib", ".so")):
                out[t["name"].replace("-", "_")] = f
    return out


def rustc(art, src, out, kind, name, extra, externs, opt="0"):
    deps = os.path.join(TARGET, "debug", "deps")
    cmd = ["rustc", "--edition", "2021", "--crate-type", kind, "--crate-name", name,
           "-C", "opt-level=" + opt, "-C", "debuginfo=0", "--cap-lints", "allow",
           "-L", "dependency=" + deps, "-o", out]
    if opt == "0":
        cmd += ["-C", "debug-assertions=on", "-C", "overflow-checks=on"]
    for e in externs:
        cmd += ["--extern", f"{e}={art[e]}"]
    cmd += extra + [src]
    r = None
    for _ in (0, 1):
        try:
            r = sh(cmd, timeout=200)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 0:
            return None
    return "rustc did not finish" if r is None else r.stderr.decode(errors="replace")


class Built:
    def __init__(self):
        self.bin = None
        self.specs = []
        self.rejected = {}
        self.uncompiled = {}
        self.wall = 0.0


def build_sim(seed, wanted, work, only_general_needed=False):
    """Runs the generator on the wanted specifications, compiles what it emits
    and links the simulator."""
    t0 = time.time()
    art = cargo(["-p", "simrt"])
    b = Built()
    ranges = []
    for k in sorted(set(wanted)):
        if ranges and ranges[-1][1] == k:
            ranges[-1][1] = k + 1
        else:
            ranges.append([k, k + 1])
    for lo, hi in ranges:
        r = sh([art["bin:xgen"], str(seed), str(lo), str(hi), work], timeout=300)
        for l in r.stdout.decode(errors="replace").splitlines():
            p = l.split(" ", 2)
            if p[1] == "ok":
                b.specs.append(int(p[0]))
            else:
                b.rejected[int(p[0])] = " ".join(p[1:])
        seen = set(b.specs) | set(b.rejected)
        for k in range(lo, hi):
            if k not in seen:
                # The generator ended the process on the first missing one.
                b.rejected[k] = f"generator process ended with status {r.returncode}"
                r2 = [x for x in range(k + 1, hi)]
                ranges_left = [[x, x + 1] for x in r2]
                for lo2, hi2 in ranges_left:
                    r3 = sh([art["bin:xgen"], str(seed), str(lo2), str(hi2), work], timeout=300)
                    o = r3.stdout.decode(errors="replace").split(" ", 2)
                    if len(o) >= 2 and o[1].strip() == "ok":
                        b.specs.append(lo2)
                    else:
                        b.rejected[lo2] = f"generator process ended with status {r3.returncode}"
                break

    def one(k):
        # Every fourth specification runs as a release build would, and every
        # fourth reports its branches.
        return k, rustc(art, f"{work}/spec_{k}.rs", f"{work}/libspec_{k}.rlib", "rlib", f"spec_{k}",
                        BRANCHES if k % 4 in BRANCHING else [], ["simrt", "fastxdr", "thiserror"],
                        opt="1" if k % 4 == 3 else "0")

    good = []
    with concurrent.futures.ThreadPoolExecutor(jobs()) as ex:
        for k, err in ex.map(one, b.specs):
            if err is None:
                good.append(k)
            else:
                b.uncompiled[k] = err
    b.specs = sorted(good)
    if b.specs:
        src = os.path.join(work, "main.rs")
        readers = "Some(spec_%d::READERS)" % GENERAL if GENERAL in b.specs else "None"
        with open(src, "w") as f:
            f.write("fn main() { simrt::harness::main(vec![%s], %s); }\n" % (
                ", ".join(f"({k}, spec_{k}::table as fn() -> Vec<simrt::glue::TypeOps>)" for k in b.specs), readers))
        a = dict(art)
        ext = ["simrt"]
        for k in b.specs:
            a[f"spec_{k}"] = f"{work}/libspec_{k}.rlib"
            ext.append(f"spec_{k}")
        out = os.path.join(work, "sim")
        err = rustc(a, src, out, "bin", "sim", ["-L", "dependency=" + work], ext)
        if err:
            raise Trouble("the simulator does not link:\n" + err[-3000:])
        b.bin = out
    b.wall = time.time() - t0
    return b


def build_text(prop, work):
    """Builds the simulator of the worlds that run no generated code. Returns
    its path and the arguments naming the program under test."""
    if prop == "C11":
        return cargo(["-p", "simrt"])["bin:xsim"], []
    art = cargo(["-p", "simrt"])
    art["bin:fastxdr"] = cargo(["-p", "fastxdr"], TARGET_CLI)["bin:fastxdr"]
    shim = os.path.join(work, "shim.so")
    r = sh(["cc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(SIM, "shim", "shim.c"), "-ldl", "-lpthread"])
    if r.returncode:
        raise Trouble("the shim does not build:\n" + r.stderr.decode(errors="replace"))
    # A copy: another check may build the program again meanwhile.
    prog = os.path.join(work, "fastxdr")
    shutil.copy(art["bin:fastxdr"], prog)
    return art["bin:xsim"], ["--program", prog, "--shim", shim]


def scratch(name):
    w = os.path.join(VERIF, "build", "work", name)
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(w)
    return w


def load_known(prop):
    """{key: description} of the listed findings of this property."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\w+) key=(\w+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def write_replay(prop, seed, tier, head, plan, text):
    d = os.path.join(VERIF, "build", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-seed{seed}.replay")
    with open(path, "w") as f:
        f.write(f"# property {prop}\n# seed {seed}\n# tier {tier}\n")
        for k, v in head.items():
            f.write(f"# {k} {str(v)}\n".replace("\n", " ").rstrip() + "\n")
        f.write("# replay: python3 /verif/check.py %s --replay %s\n" % (prop, path))
        f.write(plan if plan.endswith("\n") or not plan else plan + "\n")
        if text:
            f.write("#| the specification:\n")
            for l in text.splitlines():
                f.write("#| " + l + "\n")
    return path


def write_evidence(prop, tier, seed, coverage, assumptions, wall, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": coverage, "assumptions": assumptions,
            "wall_s": round(wall, 2), "violations": violations,
        }, f, indent=1)
        f.write("\n")


def verdict_violation(prop, path, message):
    print(f"VIOLATION property={prop} replay={path}")
    print("  " + message.strip().replace("\n", "\n  ")[:3000])


# ---- the decode and reader worlds ---------------------------------------------

REAL = [
    "fastxdr::Generator (parser, AST, indexes, emitters)",
    "the generated module: types, both TryFrom families, WireSize, DeserialiserExt runtime, compiled by rustc",
    "the bytes crate (Bytes, BytesMut: reference counting, slicing)",
]
STUB = [
    "transport, stream, log file: simulated in memory",
    "the peer that encodes: reference RFC 4506 encoder",
    "task scheduler: real threads, one at a time, switched by the plan",
    "clock: virtual",
    "allocator: system allocator behind a metering seam that also yields to the scheduler and refuses single requests above 512 MiB",
    "futex, getrandom, clock_gettime, getpid: answered by the simulator while code under test runs",
]
RULES = {
    "readers": "A case is one simulated run: up to five tasks drive the runtime readers or size helpers over shared buffers "
               "(every (length, remaining, maximum) triple of the sweep, sampled operation sequences, all 2^32 boolean words in slices). "
               "Non-trivial when at least one reader call succeeded and at least one was refused, or a whole slice of boolean words was read. "
               "Distinct by the hash of the run's complete event history.",
    "C11": "A case is one simulated run: up to 7 texts of one seeded specification (other layouts, comments, declaration orders, broken "
           "variants), each generated by forked processes of its own under different hash seeds, clocks, process ids, environments and heap "
           "layouts, sometimes by a newly started program, and by up to 5 preemptible tasks on shared and separate Generator values. "
           "Non-trivial when at least one text was byte-compared with a fresh process and at least one layout or order was compared as a "
           "set of items. Distinct by the hash of the run's complete event history.",
    "C15": "A case is one simulated run: up to 4 invocations of the real program, some at once, on seeded files and argument lists of 0 to 5 "
           "names, under injected faults. Non-trivial when at least one invocation printed exactly the reference text or failed for a cause. "
           "Distinct by the hash of the run's complete event history.",
    "decode": "A case is one simulated run: a seeded specification, records encoded by the reference model, a transport, stream or log "
              "with its faults, decoders on 1 to 5 preemptible tasks. Non-trivial when at least one record was decoded and at least one "
              "refused, or records were reordered, duplicated or followed by other bytes. Distinct by the hash of the run's complete event history.",
}


REAL_BY = {
    "C11": ["fastxdr::Generator (parser, AST, indexes, emitters), in this process, in forked and in newly started ones",
            "the bytes and pest crates, the standard library's collections"],
    "C15": ["the fastxdr program (main.rs with the library), as a separate process", "the kernel's files, pipes and descriptors",
            "fastxdr::Generator in the simulator, as the reference for what is to be printed"],
}
STUB_BY = {
    "C11": ["task scheduler: real threads, one at a time, switched by the plan at allocations and futex calls",
            "getrandom (hash seeds), clock_gettime, getpid, environment variables: seeded",
            "allocator: system allocator behind a seam that skews addresses and yields to the scheduler"],
    "C15": ["open, read, write, stat, lseek, rename, unlink, mkdir, access, readlink of the program: each stops at the simulator, "
            "which lets it proceed, fails it, cuts it short or changes the reported size, and orders concurrent programs",
            "getrandom, clock_gettime, getpid of the program: seeded"],
}


def spec_text(work, k):
    try:
        return open(f"{work}/spec_{k}.x").read()
    except OSError:
        return ""


def run_bin(binary, args, secs):
    try:
        return sh([binary] + args, timeout=secs)
    except subprocess.TimeoutExpired:
        raise Trouble("the simulator did not finish")


def check_sim(prop, seed, tier):
    t0 = time.time()
    nspec, runs, secs = SIZES[tier][prop]
    runs = int(os.environ.get("SIM_RUNS", runs))
    nspec = int(os.environ.get("SIM_SPECS", nspec))
    wanted = [GENERAL] if prop == "C10" else list(range(NCURATED + nspec))
    if prop not in ("C04", "C10"):
        wanted.remove(HOLLOW)
    work = scratch(prop)
    tools = []
    if prop in TEXT_PROPS:
        wanted, b = [], Built()
        b.bin, tools = build_text(prop, work)
    else:
        b = build_sim(seed, wanted, work)
    unusable = {**b.rejected, **{k: "does not compile: " + v for k, v in b.uncompiled.items()}}
    if unusable and prop == "C01":
        k = min(unusable)
        why = unusable[k]
        path = write_replay(prop, seed, tier, {"class": "unbuildable", "spec": k, "message": why[:300]},
                            f"unbuildable - spec={k}\n", spec_text(work, k))
        write_evidence(prop, tier, seed, {
            "evaluations": len(wanted), "distinct_nontrivial": len(wanted) - len(unusable),
            "rule": "specifications generated and compiled; the search did not start", "samples": [spec_text(work, k)[:2000]],
        }, [], time.time() - t0, 1)
        verdict_violation(prop, path, f"no decoder exists for specification {k}: {why}")
        return 1
    if not b.bin or len(unusable) * 2 > len(wanted):
        raise Trouble(f"{len(unusable)} of {len(wanted)} specifications are unusable: " + next(iter(unusable.values()))[:2000])

    args = ["--prop", prop, "--seed", str(seed), "--tier", tier, "--out", work,
            "--runs", str(runs), "--workers", str(jobs()), "--secs", str(secs), "--shrink", "60"] + tools
    r = run_bin(b.bin, args, secs + 260)
    try:
        res = json.load(open(f"{work}/result.json"))
    except (OSError, ValueError):
        raise Trouble(f"the simulator ended with status {r.returncode}: " + r.stderr.decode(errors="replace")[-2000:])

    # Same seeds again, spread over another number of processes.
    again = None
    if not res["violation"]:
        n2 = min(200, res["runs"])
        os.makedirs(f"{work}/again", exist_ok=True)
        a2 = ["--prop", prop, "--seed", str(seed), "--tier", tier, "--out", f"{work}/again",
              "--runs", str(n2), "--workers", "5", "--secs", str(secs)] + tools
        run_bin(b.bin, a2, secs + 60)
        res2 = json.load(open(f"{work}/again/result.json"))
        h1 = dict(map(tuple, res["run_hashes"]))
        diff = [i for i, h in map(tuple, res2["run_hashes"]) if h1.get(i) != h]
        again = {"runs_repeated": len(res2["run_hashes"]), "histories_that_differed": len(diff)}
        if diff:
            print(f"note: runs {diff[:5]} were not repeated exactly")

    wall = time.time() - t0
    ctr = {k: v for k, v in res["counters"].items() if v}
    # Coverage and verdict
    cov = {
        "evaluations": res["runs"],
        "distinct_nontrivial": res["nontrivial"],
        "rule": RULES.get(prop) or RULES["readers" if prop == "C10" else "decode"],
        "samples": res["samples"],
        "operations": ctr.get("attempts", 0) + ctr.get("reader_ops", 0) + ctr.get("gen_calls", 0) + ctr.get("cli_runs", 0),
        "specifications": {"curated": sum(k < NCURATED for k in b.specs), "random": sum(k >= NCURATED for k in b.specs),
                           "unusable": len(unusable)},
        "simulated_seconds": round(res["sim_ns"] / 1e9, 3),
        "events": res["events"],
        "search_wall_s": res["wall"],
        "runs_per_hour": int(res["runs"] / max(res["wall"], 0.001) * 3600),
        "seeds_per_hour": int(res["runs"] / max(res["wall"], 0.001) * 3600),
        "distinct_histories": res["distinct_histories"],
        "distinct_interleavings": res["distinct_traces"],
        "interleaving_measure": "hash of the sequence of (step, task) switches of a run",
        "faults_injected": {k: v for k, v in ctr.items() if k.startswith(("fault_", "probe_", "io_", "env_", "cli_edits"))} |
                           {"preemptions": ctr.get("preemptions", 0),
                            "preemptions_inside_code_under_test": ctr.get("preemptions_in_code_under_test", 0),
                            "preemptions_at_branches": ctr.get("preemptions_at_branch", 0)},
        "branches_of_code_under_test": {"instrumented": res["branches"], "reached": res["branches_reached"]},
        "reached": {k: v for k, v in ctr.items() if k.startswith(("reach_", "ref_", "decoded_", "attempts_", "known_", "records_",
                                                                  "reader_", "bool_", "checks", "peak", "log_", "stream_", "segments", "datagrams", "gen_", "cli_"))},
        "determinism": again,
        "strays": len(res["strays"]),
        "components_real": REAL_BY.get(prop, REAL),
        "components_stub": STUB_BY.get(prop, STUB),
    }
    if prop == "C15":
        # The program itself is not instrumented.
        del cov["branches_of_code_under_test"]
    bad = res["violation"]
    write_evidence(prop, tier, seed, cov, [
        "the reference XDR model in /verif/sim/model is right" if prop not in TEXT_PROPS else
        "the generator run in a fresh process is the reference; what it gives for one text is compared, not judged",
        "rustc and the bytes crate behave as documented",
        "search is seeded sampling: absence of a violation is not proof",
    ], wall, 1 if bad else 0)
    for s in res["strays"][:3]:
        print("note: " + s[:300])
    if bad:
        ks = re.findall(r"\bspec=(\d+)", bad["plan"])
        k = int(ks[0]) if ks else GENERAL
        path = write_replay(prop, seed, tier, {
            "class": bad["class"], "spec": k, "history": bad["history"], "message": bad["message"][:600],
            "minimised": f"{bad['lines_before']} to {bad['lines_after']} lines in {bad['shrink_runs']} runs",
        }, bad["plan"], spec_text(work, k))
        verdict_violation(prop, path, bad["message"])
        return 1
    known = load_known(prop)
    for bit, key, props, plan in FINDINGS:
        if res["known"] & bit and prop in props:
            if key in known:
                print(f"KNOWN-FINDING: property={prop} {known[key]}")
            else:
                plan = plan.format(seed=seed)
                k = int(re.search(r"spec=(\d+)", plan).group(1))
                path = write_replay(prop, seed, tier, {"class": "unlisted-" + key, "spec": k}, plan, spec_text(work, k))
                verdict_violation(prop, path, f"behaviour {key}, which known-findings.txt does not list for this property")
                return 1
    if res["strays"] and len(res["strays"]) * 2 > res["runs"]:
        raise Trouble("most runs could not be completed: " + res["strays"][0])
    n = ctr.get("attempts", 0) + ctr.get("reader_ops", 0) + ctr.get("gen_calls", 0) + ctr.get("cli_runs", 0)
    print(f"{prop}: held in {res['runs']} runs ({n} operations) of seed {seed}, {wall:.0f} s")
    if not os.environ.get("SIM_KEEP"):
        shutil.rmtree(work)
    return 0


def replay_sim(prop, path):
    head, plan, unb = {}, [], None
    for l in open(path):
        m = re.match(r"# (\w+) (.*)", l)
        if m:
            head[m.group(1)] = m.group(2)
        elif not l.startswith("#"):
            plan.append(l)
    seed = int(head["seed"])
    k = int(head.get("spec", GENERAL))
    work = scratch("replay-" + prop)
    tools = []
    if prop in TEXT_PROPS:
        b = Built()
        b.bin, tools = build_text(prop, work)
    else:
        b = build_sim(seed, [GENERAL, k], work)
    if head["class"] == "unbuildable":
        why = b.rejected.get(k) or b.uncompiled.get(k)
        if why:
            verdict_violation(prop, path, why)
            return 1
        print("not reproduced: the specification builds")
        return 0
    f = os.path.join(work, "plan")
    open(f, "w").writelines(plan)
    r = run_bin(b.bin, ["--prop", prop, "--seed", str(seed), "--out", work, "--replay", f] + tools, 200)
    out = r.stdout.decode(errors="replace")
    sys.stderr.write(r.stderr.decode(errors="replace"))
    print(out.strip())
    if "\nREPRODUCED" in out:
        same = f"history {head.get('history')}" in out
        print("history identical to the recorded one" if same else "history differs from the recorded one (other code?)")
        verdict_violation(prop, path, out.split("REPRODUCED ", 1)[1])
        return 1
    return 0


def main(argv):
    if argv[0] == "--setup":
        cargo(["--workspace"])
        cargo(["-p", "fastxdr"], TARGET_CLI)
        return 0
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    rp = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    try:
        if prop in SPEC_PROPS + TEXT_PROPS:
            return replay_sim(prop, rp) if rp else check_sim(prop, seed, tier)
        raise Trouble("no check for " + prop)
    except Trouble as e:
        print(f"check of {prop} gave no answer: {e}")
        return 2
