#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: compiles the property's harnesses together with /repo's
current source to LLVM IR, executes that IR symbolically (engine/), replays
counterexamples and sample paths natively, and writes evidence/PROPERTY.json.
Exit 0: held; 1: VIOLATION line printed; 2: the check could not decide.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_ENCODED_RUSTFLAGS", None)
KF_BASE = 1000
# properties about text, which std's precompiled code puts together
STD_PROPS = {"P25", "P26"}
# quick: harnesses that take more steps than this are run with debug assertions only
RELEASE_STEPS = 60_000_000
# wall-clock budget of the symbolic execution, per tier
DEADLINE = {"quick": 600, "thorough": 7200}
MAX_STEPS = {"quick": 64_000_000, "thorough": 2_000_000_000}


def run(cmd, cwd=None, env=None, timeout=None, check=True):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=timeout)
    if check and r.returncode != 0:
        print("command failed: " + " ".join(cmd))
        print(r.stdout[-4000:])
        print(r.stderr[-8000:])
        sys.exit(2)
    return r


def build_engine():
    run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(VERIF, "engine"))
    return os.path.join(VERIF, "engine/target/release/llsym")


def build_harness(feat, profile, kind):
    """kind 'ir': returns the .ll files; kind 'so': the shared library."""
    tgt = os.path.join(BUILD, "harness")
    env = dict(ENV)
    # cargo judges freshness by mtime: always rebuild both crates from source
    tag = "%s-%s-%s" % (feat, profile, kind)
    tdir = os.path.join(tgt, tag)
    shutil.rmtree(tdir, ignore_errors=True)
    cmd = ["cargo", "rustc", "--offline", "--quiet", "--lib", "--profile", profile, "--features", feat, "--target-dir", tdir]
    if kind == "ir":
        env["RUSTFLAGS"] = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp --cap-lints allow"
        cmd += ["--crate-type", "rlib"]
    else:
        env["RUSTFLAGS"] = "--cap-lints allow"
        cmd += ["--crate-type", "cdylib"]
    run(cmd, cwd=os.path.join(VERIF, "harness"), env=env)
    deps = os.path.join(tdir, profile, "deps")
    if kind == "ir":
        lls = sorted(glob.glob(os.path.join(deps, "sqharness-*.ll"))) + sorted(glob.glob(os.path.join(deps, "sqrid-*.ll")))
        if len(lls) != 2:
            print("unexpected IR files", lls)
            sys.exit(2)
        for l in lls:
            model_std(l)
        return lls
    return os.path.join(tdir, profile, "libsqharness.so")


# instances that std ships only as machine code -> their model in harness/src/v.rs
STD = [(re.compile(r"@_R\w*?7raw_vecINt\w*?RawVechE8grow_one\w*"), "@vmodel_grow_1"),
       (re.compile(r"@_R\w*?7raw_vecINt\w*?RawVecINt\w*?3vec3VechEE8grow_one\w*"), "@vmodel_grow_24"),
       (re.compile(r"@_R\w*?7raw_vecINt\w*?RawVecNt\w*?6string6StringE8grow_one\w*"), "@vmodel_grow_24")]


def model_std(ll):
    with open(ll) as f:
        s = f.read()
    names = {}
    for m in re.finditer(r"^declare .*?(@_R\w+grow_one\w*)\(", s, re.M):
        for pat, to in STD:
            if pat.fullmatch(m.group(1)):
                names[m.group(1)] = to
    if names:
        s = "\n".join(l for l in s.split("\n") if not (l.startswith("declare") and any(n + "(" in l for n in names)))
        for n, to in names.items():
            s = s.replace(n + "(", to + "(")
        with open(ll, "w") as f:
            f.write(s)


def crate_ids(text):
    """crate -> its id in mangled names"""
    return {m.group(2): m.group(1) for m in re.finditer(r"Cs([0-9A-Za-z]+)_[45](core|alloc)", text)}


def build_std():
    """core and alloc from the toolchain's source as IR, for the functions that std ships only as machine code"""
    d = os.path.join(BUILD, "std")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = os.path.join(run(["rustc", "--print", "sysroot"]).stdout.strip(), "lib/rustlib/src/rust/library")

    def one(c):
        run(["rustc", "--crate-name", c, "--edition", "2024", "--crate-type", "rlib", "-C", "opt-level=2", "-C", "panic=abort",
             "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "codegen-units=1", "--cap-lints", "allow",
             "-C", "symbol-mangling-version=v0", "-Zforce-unstable-if-unmarked", "--emit=llvm-ir", "--out-dir", d,
             os.path.join(lib, c, "src/lib.rs")], env=dict(ENV, RUSTC_BOOTSTRAP="1"))
        return os.path.join(d, c + ".ll")

    with cf.ThreadPoolExecutor(2) as ex:
        return list(ex.map(one, ["core", "alloc"]))


def link_std(std, lls):
    """std's IR with the crate ids of the installed std"""
    want = {}
    for l in lls:
        with open(l) as f:
            want.update(crate_ids(f.read()))
    for l in std:
        with open(l) as f:
            s = f.read()
        for c, i in crate_ids(s).items():
            if c in want and i != want[c]:
                # of the same length, or references back into a name would go wrong
                if len(i) != len(want[c]):
                    print("crate ids of different lengths", i, want[c])
                    sys.exit(2)
                s = s.replace("Cs%s_" % i, "Cs%s_" % want[c])
        with open(l, "w") as f:
            f.write(s)
    return [x for l in std for x in ("--std", l)]


def build_replay():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "replay")
    tmp = exe + ".%d" % os.getpid()
    run(["gcc", "-O1", "-rdynamic", "-o", tmp, os.path.join(VERIF, "native/replay.c"), "-ldl"])
    os.replace(tmp, exe)
    return exe


def harnesses(ll, prop, tier):
    names = set()
    pat = re.compile(r"^define .*@(h|t|q)_(%s_\w+)\(" % prop.lower())
    with open(ll) as f:
        for line in f:
            if line.startswith("define"):
                m = pat.match(line)
                if m and (m.group(1) == "h" or (m.group(1) == "t") == (tier == "thorough")):
                    names.add(m.group(1) + "_" + m.group(2))
    return sorted(names)


def replay(exe, lib, h, inputs, timeout=20):
    """(outcome, detail, covers, observations)"""
    try:
        r = subprocess.run([exe, lib, h] + [str(x) for x in inputs], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return ("TIMEOUT", "no answer within %d s" % timeout, [], [])
    cov = [int(x) for x in re.findall(r"^COVER (\d+)$", r.stdout, re.M)]
    obs = [int(x) for x in re.findall(r"^OBS (\d+)$", r.stdout, re.M)]
    last = [l for l in r.stdout.splitlines() if not l.startswith(("COVER", "OBS"))]
    out = last[-1] if last else "EXIT %d" % r.returncode
    m = re.findall(r"panicked at .*\n.*", r.stderr)
    return (out, (m[-1] if m else r.stderr[-300:]).strip(), cov, obs)


def known(prop):
    """ids of listed findings of this property -> text"""
    d = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) id=(\d+) (.*)", line.strip())
            if m and m.group(1) == prop:
                d[int(m.group(2))] = m.group(3)
    return d


def source_line(prop, n):
    p = os.path.join(VERIF, "harness/src/%s.rs" % prop.lower())
    try:
        with open(p) as f:
            return "%s.rs:%d: %s" % (prop.lower(), n, f.readlines()[n - 1].strip())
    except Exception:
        return "assertion %d" % n


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = r.stdout.split("\n") if r.returncode == 0 else names
    return [re.sub(r"::h[0-9a-f]{16}$", "", x) for x in out]


def symbolic(engine, lls, hs, tier, tag, deadline, extra=()):
    out = os.path.join(BUILD, "out-%s.jsonl" % tag)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [engine]
    for l in lls:
        cmd += ["--ll", l]
    for h in hs:
        cmd += ["--harness", h]
    cmd += ["--jobs", str(os.cpu_count() or 8), "--out", out, "--deadline", str(int(deadline)), "--max-steps",
            str(MAX_STEPS[tier])] + list(extra)
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=deadline + 60)
        rc, so, se = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = 4, "", "engine timed out"
    res = {}
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    j = json.loads(line)
                except ValueError:
                    rc = rc or 5
                    continue
                res.setdefault(j["h"], []).append(j)
    return rc, so, se, res


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]  # for development: restrict to these harnesses
    t0 = time.time()
    feat = prop.lower()
    profiles = ["ir", "irrel"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fr = ex.submit(build_replay)
        fi = {p: ex.submit(build_harness, feat, p, "ir") for p in profiles}
        fs = {p: ex.submit(build_harness, feat, p, "so") for p in ["ir", "irrel"]}
        fstd = ex.submit(build_std) if prop in STD_PROPS else None
        engine, exe = fe.result(), fr.result()
        lls = {p: f.result() for p, f in fi.items()}
        sos = {p: f.result() for p, f in fs.items()}
        std = link_std(fstd.result(), [l for x in lls.values() for l in x]) if fstd else []
    t_build = time.time() - t0
    kf = known(prop)
    problems, violations, kf_seen = [], [], {}
    agg = dict(paths=0, forks=0, assumed_away=0, expected_panics=0, steps=0, asserts=0, asserts_solver=0, branches=0,
               unknown=0, mem_checks=0, queries=0, sat=0, unsat=0, solver_s=0.0, nodes=0)
    mx = dict(max_pc=0, max_inputs=0, input_bits=0, solver_max_s=0.0)
    funcs, samples, per_h = set(), [], {}
    validated = 0
    z3v = ""
    dumps = []
    dear = set()
    for prof in profiles:
        hs = harnesses(lls[prof][0], prop, tier)
        if tier == "quick" and prof != "ir":
            if violations or problems:
                break
            hs = [h for h in hs if h not in dear]
            if not hs:
                continue
        if only:
            hs = [h for h in hs if any(o in h for o in only)]
        if not hs:
            problems.append("no harness found for %s" % prop)
            continue
        extra = list(std)
        if tier == "thorough" and prof == "ir":
            dd = os.path.join(BUILD, "smt-" + feat)
            shutil.rmtree(dd, ignore_errors=True)
            os.makedirs(dd)
            extra += ["--dump", dd, "--dump-every", "97"]
            dumps.append(dd)
        budget = DEADLINE[tier] if tier == "thorough" or prof == "ir" else max(60, DEADLINE[tier] + 150 - (time.time() - t0))
        rc, so, se, res = symbolic(engine, lls[prof], hs, tier, "%s-%s" % (feat, prof), budget, extra)
        m = re.search(r'"z3":"([^"]*)"', so)
        z3v = m.group(1) if m else z3v
        # functions of std that are not in the IR: take them from its source
        lost = [h for h in hs if any("unknown external _R" in e for r in res.get(h, []) for e in r["errors"])]
        if lost and not std:
            std = link_std(build_std(), [l for x in lls.values() for l in x])
            rc, so, se, res2 = symbolic(engine, lls[prof], lost, tier, "%s-%s-std" % (feat, prof), DEADLINE[tier] // 2, extra + std)
            res.update(res2)
        if rc != 0:
            problems.append("engine exit %d: %s" % (rc, se[-500:]))
        for h in hs:
            rows = res.get(h, [])
            if not rows:
                problems.append("%s: no result" % h)
                continue
            ncov = max(r["ncovers"] for r in rows)
            cov, errs, vio = set(), {}, []
            hs_ = dict(paths=0, branches=0, queries=0, solver_s=0.0, wall=0.0, bits=0)
            for r in rows:
                for k in agg:
                    agg[k] += r[k]
                for k in mx:
                    mx[k] = max(mx[k], r[k])
                for k in ("paths", "branches", "queries"):
                    hs_[k] += r[k]
                hs_["solver_s"] = round(hs_["solver_s"] + r["solver_s"], 3)
                hs_["wall"] = round(max(hs_["wall"], r["wall"]), 2)
                hs_["bits"] = max(hs_["bits"], r["input_bits"])
                cov.update(r["covers"])
                funcs.update(r["funcs"])
                vio += r["violations"]
                for k, v in r["errors"].items():
                    errs[k] = errs.get(k, 0) + v
                for s in r["samples"]:
                    samples.append((prof, h, s))
            if sum(r["steps"] for r in rows) > RELEASE_STEPS:
                dear.add(h)
            per_h[h + ("" if prof == "ir" else "@" + prof)] = hs_
            for k, v in list(errs.items())[:3]:
                problems.append("%s: %s (%d paths)" % (h, k, v))
            # every counterexample is replayed against the real code
            confirmed = False
            for v in vio:
                outs = {}
                for lp in [prof] + [p for p in sos if p != prof]:
                    outs[lp] = replay(exe, sos[lp], h, v["in"])
                o = outs[prof][0]
                bad = o.startswith(("ASSERT", "PANIC", "SIGNAL")) or (o == "TIMEOUT" and v["kind"] == "steps")
                lp = prof
                if not bad:
                    for q in outs:
                        if outs[q][0].startswith(("ASSERT", "PANIC", "SIGNAL")):
                            bad, lp = True, q
                what = source_line(prop, v["id"]) if v["kind"] == "assert" else v["msg"]
                d = dict(property=prop, harness=h, kind=v["kind"], what=what, inputs=v["in"], profile=prof,
                         trace=demangle(v["trace"]), native={q: list(x[:2]) for q, x in outs.items()},
                         replay_cmd=[exe, sos[lp], h] + [str(x) for x in v["in"]])
                if bad:
                    confirmed = True
                    violations.append(d)
                else:
                    problems.append("%s: counterexample not reproduced natively: %s %s inputs=%s native=%s" %
                                    (h, v["kind"], what, v["in"], outs))
            if confirmed:
                continue
            if not all(r["complete"] for r in rows) and not vio:
                problems.append("%s: exploration not completed" % h)
            missing = [c for c in range(ncov) if c not in cov]
            if missing and not vio:
                problems.append("%s: declared cases never reached: %s" % (h, missing))
            if not vio and hs_["paths"] == 0:
                problems.append("%s: no path completed" % h)
            for c in cov:
                if c >= KF_BASE:
                    kf_seen.setdefault(c - KF_BASE, []).append(h)
    # sampled paths: the engine's account against the real code
    bypick = {}
    for prof, h, s in samples:
        l = bypick.setdefault((prof, h), [])
        if len(l) < (4 if tier == "quick" else 12) or any(c >= KF_BASE and not any(c in t["covers"] for t in l) for c in s["covers"]):
            l.append(s)
    jobs = [(prof, h, s) for (prof, h), l in bypick.items() for s in l]
    shown, kf_native = [], set()
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: replay(exe, sos[j[0]], j[1], j[2]["in"]), jobs))
    for (prof, h, s), (o, det, cov, obs) in zip(jobs, rs):
        want = "EXPECTED_PANIC" if s["panic"] else "OK"
        if o != want or obs != s["obs"] or sorted(set(cov)) != sorted(s["covers"]):
            # a native failure on a path the engine called fine is a violation
            # only if it fails by itself; otherwise the engine is wrong
            problems.append("%s: path replay differs: inputs=%s engine=%s native=%s" %
                            (h, s["in"], (want, s["obs"], sorted(s["covers"])), (o, det, obs, sorted(set(cov)))))
        else:
            validated += 1
            kf_native.update(c - KF_BASE for c in cov if c >= KF_BASE)
            if len(shown) < 8 and s["in"]:
                shown.append(dict(harness=h, inputs=s["in"], observed=s["obs"], outcome=o))
    if not shown:
        for prof, h, s in samples[:3]:
            shown.append(dict(harness=h, inputs=s["in"], observed=s["obs"]))
    for c in sorted(kf_seen):
        if c in kf and c in kf_native:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[c]))
        elif c in kf:
            problems.append("known finding %d was not reproduced natively" % c)
        else:
            h = kf_seen[c][0]
            ins = next((s["in"] for p, hh, s in samples if hh == h and KF_BASE + c in s["covers"]), [])
            violations.append(dict(property=prop, harness=h, kind="finding", what="finding %d is not listed" % c, inputs=ins,
                                   replay_cmd=[exe, sos["ir"], h] + [str(x) for x in ins]))
    # a second solver on a sample of the discharged queries
    cross = dict(queries=0, agreed=0, undecided=0)
    for dd in dumps:
        fs = sorted(glob.glob(os.path.join(dd, "*.smt2")))[:400]

        def one(f):
            with open(f) as fh:
                want = re.search(r"expected (\w+)", fh.read(4096))
            try:
                r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=60000", f], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, timeout=90)
                got = r.stdout.strip().split("\n")[-1]
            except subprocess.TimeoutExpired:
                got = "timeout"
            return f, want.group(1) if want else "?", got

        with cf.ThreadPoolExecutor(8) as ex:
            for f, want, got in ex.map(one, fs):
                cross["queries"] += 1
                if got == want:
                    cross["agreed"] += 1
                elif got in ("sat", "unsat"):
                    problems.append("cvc5 disagrees on %s: z3 %s, cvc5 %s" % (f, want, got))
                else:
                    cross["undecided"] += 1
        if not problems:
            shutil.rmtree(dd, ignore_errors=True)
    rp = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rp, exist_ok=True)
    for d in violations:
        p = os.path.join(rp, "%s-%s.json" % (prop, d["harness"]))
        with open(p, "w") as f:
            json.dump(d, f, indent=1)
        print("%s: %s %s inputs=%s" % (d["harness"], d["kind"], d["what"], d["inputs"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for p in problems[:20]:
        print("PROBLEM " + p)
    fn = sorted(x for x in set(demangle(sorted(funcs))) if "sqrid" in x)
    other = len(funcs) - len(fn)
    bounds = {}
    bp = os.path.join(VERIF, "harness/src/%s.rs" % feat)
    doc = [l[3:].strip() for l in open(bp) if l.startswith("//!")]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=agg["paths"], transitions=agg["branches"] + agg["forks"],
                            traces_validated_against_impl=validated, samples=shown,
                            rule="states: symbolic paths run to their end (each stands for every input that satisfies its "
                                 "path condition); transitions: symbolic branch decisions; traces_validated: sampled paths "
                                 "replayed natively with identical observations",
                            harnesses=len(per_h), exhaustive=not problems and not violations,
                            bounds=" ".join(doc), functions_encoded=fn, functions_encoded_count=len(fn),
                            std_and_harness_functions_encoded=other,
                            ir_instructions_executed=agg["steps"], assertions_reached=agg["asserts"],
                            assertions_decided_by_solver=agg["asserts_solver"], memory_checks_by_solver=agg["mem_checks"],
                            queries=dict(total=agg["queries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"]),
                            solver="z3 " + z3v, solver_s=round(agg["solver_s"], 3), solver_max_query_s=round(mx["solver_max_s"], 3),
                            inputs_excluded_by_assumptions_paths=agg["assumed_away"], expected_panics=agg["expected_panics"],
                            max_symbolic_input_bits=mx["input_bits"], max_path_condition=mx["max_pc"],
                            cross_check=cross, per_harness=per_h, build_s=round(t_build, 1),
                            known_findings_reported=sorted(c for c in kf_seen if c in kf), problems=problems[:20]),
              assumptions=["LLVM IR emitted by the installed rustc for the harness crate and /repo's current source is the code "
                           "that is decided; profile(s): " + ", ".join(profiles),
                           "allocation succeeds; undefined/poison values read as zero"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d harnesses, %d paths, %d queries (%.1f s solver), %d assertions, %d replays agree, %.1f s%s" %
          (prop, tier, len(per_h), agg["paths"], agg["queries"], agg["solver_s"], agg["asserts"], validated,
           time.time() - t0, "" if not only else " (restricted)"))
    if violations:
        sys.exit(1)
    sys.exit(2 if problems else 0)


main()
