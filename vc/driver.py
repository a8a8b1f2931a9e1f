"""Build, run the proof roots of a property, search concrete inputs, report."""
import glob, json, os, random, subprocess, sys, time, traceback, shutil
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.environ.get("VC_BUILD", os.path.join(HERE, ".build"))
EVID = os.environ.get("VC_EVIDENCE", os.path.join(HERE, "evidence"))

def env(**k):
    e = dict(os.environ); e.update(CARGO_NET_OFFLINE="true"); e.pop("RUSTFLAGS", None); e.pop("CARGO_TARGET_DIR", None); e.update(k); return e

IRFLAGS = ["--emit=llvm-ir", "-C", "opt-level=0", "-C", "debuginfo=2", "-C", "panic=abort", "-C", "overflow-checks=on", "-C", "debug-assertions=off",
           "-Z", "share-generics=no", "-Z", "inline-mir=no", "-C", "codegen-units=1", "-C", "symbol-mangling-version=v0"]
def build_ir():
    """LLVM IR of the crate from the working tree; (path, error)"""
    d = os.path.join(BUILD, "ir")
    for f in glob.glob(d + "/debug/deps/libgoldilocks-*.ll"): os.unlink(f)
    for f in glob.glob(d + "/debug/.fingerprint/libgoldilocks-*"): shutil.rmtree(f, ignore_errors=True)
    r = subprocess.run(["cargo", "rustc", "--offline", "--lib", "--target-dir", d, "--"] + IRFLAGS, cwd=REPO, env=env(RUSTC_BOOTSTRAP="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    fs = glob.glob(d + "/debug/deps/libgoldilocks-*.ll")
    if r.returncode or not fs: return None, r.stdout.decode()[-3000:]
    return max(fs, key=os.path.getmtime), None

def crate_dir(name):
    """source of a crate of /verif, with its dependency on the repository redirected when VC_REPO is set"""
    hd = os.path.join(HERE, name)
    if REPO != "/repo":
        h2 = os.path.join(BUILD, name + "-src"); shutil.rmtree(h2, ignore_errors=True); shutil.copytree(hd, h2)
        t = open(h2 + "/Cargo.toml").read().replace('path = "../../repo"', 'path = "%s"' % REPO); open(h2 + "/Cargo.toml", "w").write(t); hd = h2
    return hd
def build_mono():
    """LLVM IR of the crate and of its monomorphic entry points; (paths, error)"""
    d = os.path.join(BUILD, "mono"); T = "x86_64-unknown-linux-gnu"; deps = os.path.join(d, T, "debug", "deps")
    for c in ("libgoldilocks", "vmono"):
        for f in glob.glob(deps + "/%s-*.ll" % c): os.unlink(f)
        for f in glob.glob(os.path.join(d, T, "debug/.fingerprint/%s-*" % c)): shutil.rmtree(f, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--target", T, "--target-dir", d], cwd=crate_dir("mono"), env=env(RUSTC_BOOTSTRAP="1", RUSTFLAGS=" ".join(IRFLAGS)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = []
    for c in ("libgoldilocks", "vmono", "hex", "serde_core"):
        fs = glob.glob(deps + "/%s-*.ll" % c)
        if not fs: return None, r.stdout.decode()[-3000:]
        out.append(max(fs, key=os.path.getmtime))
    if r.returncode: return None, r.stdout.decode()[-3000:]
    return out, None

def build_harness(profile="dev"):
    """(executable, hooks available, error)"""
    d = os.path.join(BUILD, "h"); hd = crate_dir("harness")
    err = ""
    for flags, hooks in (("--cfg verif_hooks", True), ("", False)):
        dd = d if hooks else d + "0"
        r = subprocess.run(["cargo", "build", "--offline", "--target-dir", dd] + (["--release"] if profile == "release" else []), cwd=hd, env=env(RUSTFLAGS=flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0: return os.path.join(dd, "release" if profile == "release" else "debug", "vharness"), hooks, err
        err = r.stdout.decode()[-3000:]
    return None, False, err

def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    t0 = time.time()
    import roots, probe, api, cex
    log = (lambda *a: print(*a, file=sys.stderr, flush=True)) if verbose else None
    os.makedirs(BUILD, exist_ok=True)
    res = {}
    def bh(): res["h"] = build_harness()
    def bh2(): res["h2"] = build_harness("release")
    th = threading.Thread(target=bh); th.start()
    irp, irerr = build_mono() if prop in roots.MONO else build_ir()
    if irp is not None and not isinstance(irp, list): irp = [irp]
    rep = Report(prop, tier, seed, t0)
    ctx = None
    if irp is None:
        rep.undecided.append(("build", "IR build failed: " + irerr[-500:]))
    else:
        t1 = time.time()
        import interp
        interp.DEADLINE[0] = t0 + (520 if tier == "quick" else 3000)
        import signal
        def late(*a): raise interp.Unsupported("time limit")
        signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, max(1, interp.DEADLINE[0] - time.time() + 5), 20)
        try: roots.run(prop, irp, rep, tier, log)
        except Exception as e: rep.undecided.append(("engine", traceback.format_exc()[-1500:]))
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        rep.proof_s = time.time() - t1
    th.join()
    exe, hooks, herr = res["h"]
    if exe is None:
        # the crate does not build: nothing can be decided
        print("build failed:\n" + herr); rep.write(); return 2
    h = probe.Harness(exe); rep.hooks = hooks
    # concrete cases of this property (replay of the contract layer against the compiled crate)
    n = {"quick": 60, "thorough": 1500}[tier]
    rng = random.Random("%s-%d" % (prop, seed))
    bad = []
    t1 = time.time()
    rounds = 1 if tier == "quick" else 6
    for k in range(rounds):
        cs = api.CASES[prop](rng, n if k else max(n // rounds, 60))
        rep.cases(cs)
        bad = probe.sweep(h, cs)
        if bad or time.time() - t0 > 500: break
    if not bad and prop == "C14":
        e2 = build_harness("release")[0]
        if e2:
            cs = api.CASES[prop](rng, n); rep.cases(cs); bad = probe.sweep(probe.Harness(e2), cs)
    # functions left undecided: bounded stand-in
    und = rep.und_functions() + [(d, (), ()) for d in rep.assumed]
    for dem, bs, ks in und:
        if bad: break
        cs = roots.fn_cases(dem, bs, ks, rng, 400 if tier == "quick" else 4000)
        rep.standin.append((dem, len(cs))); bad = probe.sweep(h, cs)
    if rep.fails and not bad:
        # failed obligations: search a failing input for the function, then for the property
        seen = {}
        for key, cx in sorted(rep.failctx, key=lambda x: 0 if len(x[0]) > 1 and isinstance(x[0][-1], str) else 1):
            if cx is None or bad or seen.get(key, 0) >= 4 or time.time() - t0 > 640: continue
            seen[key] = seen.get(key, 0) + 1
            try: cs = cex.search(prop, key, cx, rng, 12, min(time.time() + 30, t0 + 650))
            except Exception as e:
                if verbose: traceback.print_exc()
                cs = []
            if verbose: print("cex", key, len(cs), [c.cmd[:80] for c in cs[:2]], file=sys.stderr)
            rep.cases(cs); bad = probe.sweep(h, cs)
        for key, ob, det in rep.fails:
            if bad or time.time() - t0 > 700: break
            cs = roots.fn_cases(key[0], key[1] if len(key) > 1 else (), key[2] if len(key) > 2 else (), rng, 3000)
            rep.cases(cs)
            bad = probe.sweep(h, cs)
            if bad: break
        if not bad and prop in api.ROUND and time.time() - t0 < 600:
            # many signatures made and checked by the crate itself (rare byte patterns)
            e2 = build_harness("release")[0]
            if e2:
                from concurrent.futures import ThreadPoolExecutor
                cs = [probe.eqc("rt %d 5000" % rng.randrange(1 << 60), "ok") for _ in range(8)]; rep.cases(cs); hr = probe.Harness(e2)
                with ThreadPoolExecutor(8) as ex:
                    for r in ex.map(lambda c: probe.sweep(hr, [c]), cs): bad = bad or r
        k = 0
        while not bad and time.time() - t0 < 240 and k < 2:
            cs = api.CASES[prop](rng, 300); rep.cases(cs); bad = probe.sweep(h, cs); k += 1
    rep.probe_s = time.time() - t1
    rep.ncmd = h.n
    rc = 0
    rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, prop + ".json")
    if os.path.exists(rp): os.unlink(rp)
    if rep.fails or bad:
        rc = 1
        json.dump({"property": prop, "failed_obligations": [{"instance": str(k), "obligation": o, "verifier_output": d} for k, o, d in rep.fails],
                   "failing_input": [{"harness_command": c, "expected": e, "got": a} for c, e, a in bad],
                   "how_to_replay": "feed the harness_command line to the harness built by check.py (.build/h/debug/vharness)"}, open(rp, "w"), indent=1)
        for k, o, d in rep.fails[:10]: print("failed obligation: %s :: %s :: %s" % (k[0], o, d[:300]))
        for c, e, a in bad[:3]: print("failing input: %s\n  expected: %s\n  got: %s" % (c[:600], e[:300], a[:300]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if bad else " no-failing-input-found"))
    for k, m in rep.undecided[:10]: print("undecided: %s :: %s" % (str(k)[:160], str(m)[:300]))
    rep.violations = 1 if rc else 0
    rep.write()
    print("%s: %d obligations, %d discharged, %d failed, %d functions under contract, %d undecided, %d concrete cases, %.1fs" % (
        prop, rep.nobl, rep.nok, len(rep.fails), len(rep.functions), len(rep.undecided), rep.ncases, time.time() - t0))
    return rc

class Report:
    def __init__(s, prop, tier, seed, t0):
        s.prop = prop; s.tier = tier; s.seed = seed; s.t0 = t0
        s.fails = []; s.undecided = []; s.nobl = s.nok = 0; s.functions = {}; s.standin = []; s.ncases = 0; s.distinct = set(); s.violations = 0
        s.proof_s = s.probe_s = 0; s.ncmd = 0; s.hooks = None; s.assumptions = []; s.trusted = []; s.solver_s = 0; s.insts = []; s.bounded = []; s.level = None; s.samples = []; s.backends = {}
        s.instrs = 0; s.paths = 0; s.assumed = []; s.failctx = []; s.inlined = []
    def cases(s, cs):
        s.ncases += len(cs)
        if cs and len(s.samples) < 3: s.samples.append({"command": cs[len(cs) // 2].cmd[:400], "expect": cs[len(cs) // 2].exp[:300]})
    def und_functions(s):
        out = []
        for k, m in s.undecided:
            if isinstance(k, tuple): out.append((k[0], k[1] if len(k) > 1 else (), k[2] if len(k) > 2 else ()))
        return out[:20]
    def write(s):
        d = EVID; os.makedirs(d, exist_ok=True)
        import roots
        cov = {"obligations": s.nobl, "discharged": s.nok, "checker_cmd": "python3 /verif/check.py %s" % s.prop, "trusted_base": roots.TRUSTED + s.trusted,
               "functions_under_contract": sorted(s.functions), "contract_instances": len(s.insts), "paths": s.paths, "ir_instructions_interpreted": s.instrs,
               "back_ends": s.backends, "proof_seconds": round(s.proof_s, 2), "solver_seconds": round(s.solver_s, 3),
               "undecided": [{"what": str(k)[:200], "why": str(m)[:300]} for k, m in s.undecided],
               "bounded_stand_ins": [{"function": f, "concrete_inputs": n} for f, n in s.standin] + s.bounded,
               "failed": [{"instance": str(k)[:200], "obligation": o, "detail": d_[:300]} for k, o, d_ in s.fails],
               "evaluations": s.ncases, "rule": "concrete cases on the compiled crate against the integer reference (directed boundary values plus random); they replay the contracts, they do not decide them",
               "samples": s.samples}
        json.dump({"property": s.prop, "tier": s.tier, "seed": s.seed, "level": s.level or "proof", "coverage": cov, "assumptions": roots.ASSUME + s.assumptions,
                   "wall_s": round(time.time() - s.t0, 2), "violations": s.violations}, open(os.path.join(d, s.prop + ".json"), "w"), indent=1)
