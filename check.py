#!/usr/bin/env python3
"""Driver: builds bitcode from the current /repo sources, runs the symbolic executor on the harnesses of one property,
replays counterexamples natively, validates sampled paths natively and writes evidence/<id>.json.

  check.py C01 [--tier quick|thorough]     run the check of one property
  check.py --replay FILE                   replay a counterexample natively
  check.py --setup                         build the engine and warm the caches
  check.py --self-test                     engine self tests
"""
import sys, os, json, subprocess, hashlib, time, threading, argparse, concurrent.futures as cf, re, shutil, random, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
B = os.path.join(V, "build")
SYMX = os.path.join(B, "symx")
CXX = "clang++-18"
NCPU = min(8, os.cpu_count() or 4)
SYM_FLAGS = ("-std=c++20 -O1 -gline-tables-only -emit-llvm -c -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-unroll-loops "
             "-D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_CHRONO_IO_H=1 -Wno-everything -DSYMX=1 -fno-access-control -fno-pic -fno-pie "
             "-U_FORTIFY_SOURCE -fsanitize=shift-exponent,array-bounds,return -fsanitize-trap=all").split()
NAT_FLAGS = ("-std=c++20 -O1 -g1 -c -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,alignment "
             "-Wno-everything -DSYMX_NATIVE=1 -fno-access-control").split()
VG_FLAGS = "-std=c++20 -O1 -g1 -c -DNDEBUG -Wno-everything -DSYMX_NATIVE=1 -fno-access-control".split()
INC = ["-I" + os.path.join(V, "harness"), "-I" + os.path.join(V, "stubs"), "-I" + os.path.join(REPO, "src"),
       "-I" + os.path.join(REPO, "src/port"), "-I" + os.path.join(REPO, "src/rpc"), "-I" + os.path.join(REPO, "src/devices"),
       "-I" + os.path.join(REPO, "src/devices/curtains")]
SYM_INC = ["-I" + os.path.join(V, "sym/include")]

sys.path.insert(0, V)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", os.path.join(V, "engine")])
        if r.returncode or not os.path.exists(SYMX):
            raise BuildError("engine build failed:\n" + r.stderr[-3000:])


_hdr_hash = {}


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, dd, files in os.walk(d):
            dd.sort()
            for f in sorted(files):
                if exts is None or os.path.splitext(f)[1] in exts:
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def headers_hash():
    if "h" not in _hdr_hash:
        _hdr_hash["h"] = tree_hash([os.path.join(REPO, "src")], {".h", ".hpp"}) + \
            tree_hash([os.path.join(V, "stubs")], {".h"}) + \
            tree_hash([os.path.join(V, "sym/include")], None) + tree_hash([os.path.join(V, "harness")], {".h"})
    return _hdr_hash["h"]


def compile_one(src, mode):
    """mode: sym | nat | vg ; returns object path (content-addressed cache)"""
    flags = {"sym": SYM_FLAGS, "nat": NAT_FLAGS, "vg": VG_FLAGS}[mode]
    cxx = CXX
    if src.endswith("/rt.cpp"):
        flags = flags + ["-fno-builtin"]
    if src.endswith(".c"):
        flags = [f for f in flags if not f.startswith("-std")] + ["-fno-builtin"]
        cxx = "clang-18"
    inc = (SYM_INC if mode == "sym" else []) + INC
    with open(src, "rb") as fh:
        data = fh.read()
    key = hashlib.sha256((src + " ".join(flags + inc) + headers_hash()).encode() + data).hexdigest()[:32]
    out = os.path.join(B, "cache", mode + "-" + os.path.basename(src).split(".")[0] + "-" + key + (".bc" if mode == "sym" else ".o"))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = sh([cxx] + flags + inc + [src, "-o", tmp])
    if r.returncode:
        raise BuildError("cannot compile %s (%s):\n%s" % (src, mode, "\n".join([l for l in r.stderr.splitlines() if "error:" in l] or [r.stderr])[:3000]))
    os.rename(tmp, out)
    return out


def repo_src(s):
    return s if s.startswith("/") else os.path.join(REPO, "src", s)


def module_sources(mod):
    return [os.path.join(V, "harness", h) for h in mod["harness"]] + [repo_src(s) for s in mod["src"]] + \
           [os.path.join(V, "stubs", s) for s in mod.get("stubs", [])]


def build_module(pool, name, mod, mode):
    srcs = module_sources(mod)
    if mode == "sym":
        srcs += [os.path.join(V, "sym/rt.cpp"), os.path.join(V, "sym/rt_c.c")]
    else:
        srcs += [os.path.join(V, "native/native_rt.cpp")]
    missing = [s for s in srcs if not os.path.exists(s)]
    srcs = [s for s in srcs if os.path.exists(s) or not s.startswith(REPO)]
    objs = list(pool.map(lambda s: compile_one(s, mode), srcs))
    key = hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:24]
    out = os.path.join(B, "cache", "mod-%s-%s-%s%s" % (name, mode, key, ".bc" if mode == "sym" else ""))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    if mode == "sym":
        r = sh(["llvm-link-18"] + objs + ["-o", tmp])
    else:
        # a dummy main symbol table for dlsym: -rdynamic; unresolved functions of code that is never executed are allowed
        fl = ["-fsanitize=address,undefined"] if mode == "nat" else []
        r = sh([CXX] + fl + ["-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"] + ["-Wl,--wrap=" + w for w in mod.get("wrap", [])] + objs + ["-lpthread", "-ldl", "-o", tmp])
    if r.returncode:
        raise BuildError("cannot link %s (%s):\n%s" % (name, mode, "\n".join([l for l in r.stderr.splitlines() if "error:" in l] or [r.stderr])[:3000]))
    os.rename(tmp, out)
    return out


def write_inputs(path, inputs, params):
    with open(path, "w") as f:
        for i in inputs:
            f.write("V %s %d\n" % (i[0], i[-1]))
        for k, v in params.items():
            f.write("P %s %d\n" % (k, v & 0xffffffffffffffff))


NAT_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67")


def run_native(exe, entry, inputs, params, valgrind=False, timeout=60):
    os.makedirs(os.path.join(B, "run"), exist_ok=True)
    p = os.path.join(B, "run", "in-%d-%d-%d" % (os.getpid(), threading.get_ident(), random.randrange(1 << 30)))
    write_inputs(p, inputs, params)
    cmd = [exe, entry, p]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=68", "--track-origins=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=NAT_ENV)
        rc, out, err = r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out, err = 124, "", "timeout"
    finally:
        os.unlink(p)
    return rc, out, err


class Check:
    def __init__(self, prop, tier, seed):
        import props
        self.props = props
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = props.PROPS[prop]
        self.t0 = time.time()
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.lines = []

    def entries(self):
        out = []
        for e in self.spec["entries"]:
            cfgs = e.get(self.tier) or e.get("quick") or {}
            if isinstance(cfgs, dict):
                cfgs = [cfgs]
            for c in cfgs:
                x = dict(e)
                x.update(c)
                out.append(x)
        return out

    def run(self):
        build_engine()
        ents = self.entries()
        mods = sorted(set(e["mod"] for e in ents))
        syms, nats = {}, {}
        for m in mods:
            syms[m] = build_module(self.pool, m, self.props.MODULES[m], "sym")
        # the native build proceeds while the solver runs
        natpool = cf.ThreadPoolExecutor(2)
        natfut = {m: natpool.submit(build_module, natpool, m, self.props.MODULES[m], "nat") for m in []}
        tcomp = time.time() - self.t0
        sem = threading.Semaphore(NCPU)
        slot = threading.Lock()

        def run_entry(e):
            jobs = min(NCPU, e.get("jobs", 1))
            with slot:
                for _ in range(jobs):
                    sem.acquire()
            try:
                out = os.path.join(B, "run", "res-%d-%s-%d.json" % (os.getpid(), e["fn"], random.randrange(1 << 30)))
                os.makedirs(os.path.dirname(out), exist_ok=True)
                cmd = [SYMX, syms[e["mod"]], "--entry", e["fn"], "--out", out, "--time", str(e.get("time", 40)), "--jobs", str(jobs),
                       "--seed", str(self.seed), "--samples", str(e.get("samples", 6)), "--max-errors", str(e.get("max_errors", 4)),
                       "--solver-timeout", str(e.get("solver_ms", 10000 if self.tier == "quick" else 60000))]
                for k, v in e.get("params", {}).items():
                    cmd += ["--param", "%s=%d" % (k, v)]
                cmd += e.get("flags", [])
                t = time.time()
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=e.get("time", 40) * 2 + 60)
                    rc, err = r.returncode, r.stderr
                except subprocess.TimeoutExpired:
                    rc, err = 124, "hard timeout"
                parts = []
                if os.path.exists(out):
                    try:
                        parts = json.load(open(out))
                    except Exception as ex:
                        err += " bad json: %s" % ex
                    os.unlink(out)
                return e, rc, err, parts, time.time() - t
            finally:
                for _ in range(jobs):
                    sem.release()

        order = sorted(ents, key=lambda e: -e.get("jobs", 1) * 1000 - e.get("time", 40))
        tp = cf.ThreadPoolExecutor(len(order) or 1)
        futs = [tp.submit(run_entry, e) for e in order]
        results = [f.result() for f in futs]
        # native build for replay and validation
        natErr = None
        for m in mods:
            try:
                nats[m] = build_module(self.pool, m, self.props.MODULES[m], "nat")
            except BuildError as ex:
                natErr = str(ex)
        return self.conclude(results, nats, natErr, tcomp)

    def load_known(self):
        p = os.path.join(V, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if isinstance(k, dict) and k.get("property") == self.prop]

    def conclude(self, results, nats, natErr, tcomp):
        known = self.load_known()
        tot = dict(paths=0, forks=0, instructions=0, asserts=0, assert_queries=0, mem_queries=0, queries=0, z3_calls=0,
                   fd_calls=0, gf_calls=0, lia_calls=0, z3_sat=0, z3_unsat=0, z3_unknown=0)
        z3t = 0.0
        functions, incomplete, vacuous, unconfirmed = set(), [], [], []
        samples, violations, knownHit, bounds, mismatches = [], [], [], [], []
        validated = 0
        perEntry = []
        for e, rc, err, parts, wall in results:
            label = e["fn"] + ("" if not e.get("params") else str(sorted(e["params"].items())))
            bounds.append(label + ": " + e.get("bounds", ""))
            if rc != 0 or not parts:
                incomplete.append({"entry": label, "why": "executor exit %s: %s" % (rc, err[-400:])})
            reach = {}
            errs, smp = [], []
            st = dict.fromkeys(tot, 0)
            for p in parts:
                for k in tot:
                    tot[k] += p.get(k, 0)
                    st[k] += p.get(k, 0)
                z3t += p.get("z3_time", 0)
                for k, v in p.get("reach", {}).items():
                    reach[k] = reach.get(k, 0) + v
                for k, v in p.get("incomplete", {}).items():
                    incomplete.append({"entry": label, "why": k, "count": v})
                functions.update(f for f in p.get("functions", []) if "/verif/" not in f or "harness" in f)
                errs += p.get("errors", [])
                smp += p.get("samples", [])
            perEntry.append(dict(entry=label, wall=round(wall, 2), paths=st["paths"], forks=st["forks"], queries=st["queries"],
                                 z3=st["z3_calls"], reach=reach, complete=not any(i["entry"] == label for i in incomplete)))
            for w in e.get("reach", []):
                if not reach.get(w) and not errs:
                    vacuous.append({"entry": label, "label": w})
            exe = nats.get(e["mod"])
            # ---- counterexamples
            seen = set()
            for x in errs:
                k = (x["kind"], x["msg"], x["where"].split("<-")[0])
                if k in seen:
                    continue
                seen.add(k)
                conf, how, out = self.confirm(e, x, exe, natErr)
                rec = dict(property=self.prop, entry=e["fn"], module=e["mod"], params=e.get("params", {}), kind=x["kind"], msg=x["msg"],
                           where=x["where"], inputs=x["inputs"], confirmed=conf, how=how, native_output=out[-3000:])
                kf = self.match_known(known, rec)
                if kf is not None:
                    knownHit.append((kf, rec))
                elif conf:
                    violations.append(rec)
                else:
                    unconfirmed.append(rec)
            # ---- validation of sampled paths against the real code
            if exe and not e.get("no_validate"):
                rng = random.Random(self.seed)
                rng.shuffle(smp)

                def val(s):
                    return s, run_native(exe, e["fn"], s["inputs"], e.get("params", {}))
                for s, (rc2, o, er) in self.pool.map(val, smp[:e.get("validate", 12)]):
                    obs = [l.split()[1:] for l in o.splitlines() if l.startswith("OBS ")]
                    exp = [[str(a).replace(" ", "_"), str(b)] for a, b in s["observed"]]
                    obs = [["_".join(t[:-1]), t[-1]] for t in obs]
                    if rc2 == 0 and obs == exp:
                        validated += 1
                    elif rc2 in (66, 67, 76, 77) or rc2 < 0:
                        rec = dict(property=self.prop, entry=e["fn"], module=e["mod"], params=e.get("params", {}), kind="native",
                                   msg="native run of a sampled path fails", where=(o + er)[:600], inputs=s["inputs"], confirmed=True,
                                   how="native exit %d" % rc2, native_output=(o + er)[-3000:])
                        kf = self.match_known(known, rec)
                        if kf is not None:
                            knownHit.append((kf, rec))
                        else:
                            violations.append(rec)
                    else:
                        mismatches.append(dict(entry=label, rc=rc2, expected=exp[:40], got=obs[:40], inputs=s["inputs"][:60], err=er[-500:]))
            for s in smp[:2]:
                samples.append({"entry": label, "inputs": s["inputs"][:40], "observed": s["observed"][:40]})
        # ---- report
        rc = 0
        for kf, rec in knownHit:
            line = "KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"])
            if line not in self.lines:
                self.lines.append(line)
                print(line)
        os.makedirs(os.path.join(B, "replay"), exist_ok=True)
        for i, v in enumerate(violations):
            path = os.path.join(B, "replay", "%s-%s-%d.json" % (self.prop, v["entry"], i))
            json.dump(v, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s in %s: %s [%s]" % (v["kind"], v["entry"], v["msg"], v["where"][:300]))
            print("  inputs: " + " ".join("%s=%d" % (a[0], a[-1]) for a in v["inputs"][:60]))
            rc = 1
        for i in incomplete:
            print("INCOMPLETE %s: %s (%s)" % (i["entry"], i["why"], i.get("count", 1)))
        for u in unconfirmed:
            print("UNCONFIRMED (not reported as a violation) %s %s: %s [%s] %s" % (u["entry"], u["kind"], u["msg"], u["where"][:200], u["how"]))
        for m in mismatches:
            print("MISMATCH between executor and native run: %s" % json.dumps(m)[:1500])
        for v in vacuous:
            print("NOT-REACHED %s: %s" % (v["entry"], v["label"]))
        if natErr:
            print("NATIVE-BUILD-FAILED " + natErr[:1500])
        allInc = bool(perEntry) and all(p["paths"] == 0 for p in perEntry)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.spec.get("level", "model_checking"),
                  coverage=dict(
                      states=tot["paths"], transitions=tot["forks"] + tot["paths"], traces_validated_against_impl=validated,
                      samples=samples[:12],
                      explanation="symbolic execution of the current sources; every value of the symbolic inputs within the bounds is "
                                  "covered by the explored paths unless an entry is listed under incomplete",
                      instructions_executed=tot["instructions"], assertions=tot["asserts"], assertion_queries=tot["assert_queries"],
                      memory_queries=tot["mem_queries"], solver_queries=tot["queries"], solver_calls=tot["z3_calls"], finite_domain_decisions=tot["fd_calls"], gf2_decisions=tot["gf_calls"], integer_decisions=tot["lia_calls"], solver_sat=tot["z3_sat"],
                      solver_unsat=tot["z3_unsat"], solver_unknown=tot["z3_unknown"], solver_time_s=round(z3t, 3),
                      functions_encoded=sorted(f.replace(REPO + "/", "") for f in functions if REPO in f)[:400],
                      bounds=bounds, entries=perEntry, incomplete=incomplete, not_reached=vacuous, unconfirmed=len(unconfirmed),
                      validation_mismatches=len(mismatches), exhaustive_within_bounds=not incomplete, compile_s=round(tcomp, 1)),
                  assumptions=self.spec.get("assumptions", []) + self.props.COMMON_ASSUMPTIONS,
                  wall_s=round(time.time() - self.t0, 2), violations=len(violations))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s %s: %d paths, %d queries (%d z3 calls, %.1fs), %d validated natively, %d violations, %d known, %s, %.1fs" % (
            self.prop, self.tier, tot["paths"], tot["queries"], tot["z3_calls"], z3t, validated, len(violations), len(knownHit),
            "incomplete" if incomplete else "complete", time.time() - self.t0))
        if os.environ.get("SYMX_STRICT") and (unconfirmed or mismatches or vacuous or natErr or incomplete):
            return rc or 3
        if rc == 0 and allInc:
            print("NO-ANSWER: nothing could be explored")
            return 2
        return rc

    def match_known(self, known, rec):
        for k in known:
            if k.get("entry") and not re.fullmatch(k["entry"], rec["entry"]):
                continue
            if rec["kind"] != k.get("kind", "assert"):
                continue
            if k.get("msg") and not re.fullmatch(k["msg"], rec["msg"]):
                continue
            if k.get("where") and not re.search(k["where"], rec["where"]):
                continue
            return k
        return None

    def confirm(self, e, x, exe, natErr):
        if not exe:
            return False, "native build failed", natErr or ""
        rc, out, err = run_native(exe, e["fn"], x["inputs"], e.get("params", {}))
        full = out + err
        if rc == 77:
            m = [l[7:] for l in out.splitlines() if l.startswith("ASSERT ")]
            return True, "native assertion failed: %s" % (m[:1] or [""])[0], full
        if rc in (66, 67):
            return True, "sanitizer report (exit %d)" % rc, full
        if rc == 76:
            return True, "uncaught exception", full
        if rc == 124:
            return x["kind"] in ("loop", "steps"), "native timeout", full
        if rc < 0:
            return True, "killed by signal %d" % -rc, full
        if x["kind"] in ("uninit", "memory") and rc == 0:
            try:
                vg = build_module(self.pool, e["mod"], self.props.MODULES[e["mod"]], "vg")
            except BuildError as ex:
                return False, "valgrind build failed", str(ex)
            rc, out, err = run_native(vg, e["fn"], x["inputs"], e.get("params", {}), valgrind=True, timeout=120)
            if rc == 68 or rc == 77 or rc < 0:
                return True, "valgrind report (exit %d)" % rc, out + err
            return False, "not reproduced under valgrind (exit %d)" % rc, out + err
        return False, "not reproduced natively (exit %d)" % rc, full


def replay(path):
    import props
    v = json.load(open(path))
    pool = cf.ThreadPoolExecutor(NCPU)
    mode = "vg" if v["kind"] == "uninit" else "nat"
    exe = build_module(pool, v["module"], props.MODULES[v["module"]], mode)
    rc, out, err = run_native(exe, v["entry"], v["inputs"], v["params"], valgrind=mode == "vg", timeout=120)
    print(out + err)
    print("exit", rc, "(0 = no failure)")
    return 0 if rc == 0 else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            build_engine()
            import props
            pool = cf.ThreadPoolExecutor(NCPU)
            srcs = {os.path.join(V, "sym/rt.cpp"): {"sym"}, os.path.join(V, "sym/rt_c.c"): {"sym"}, os.path.join(V, "native/native_rt.cpp"): {"nat"}}
            used = set(e["mod"] for p in props.PROPS.values() for e in p["entries"])
            for m in sorted(used):
                for s in module_sources(props.MODULES[m]):
                    srcs.setdefault(s, set()).update({"sym", "nat"})
            jobs = [(s, m) for s, ms in srcs.items() for m in ms if os.path.exists(s)]
            bad = 0

            def one(j):
                try:
                    compile_one(*j)
                    return None
                except BuildError as ex:
                    return str(ex)
            for r in pool.map(one, jobs):
                if r:
                    bad += 1
                    print("warning:", r[:500])
            print("setup done: %d objects, %d failed" % (len(jobs), bad))
            return 0
        if a.replay:
            return replay(a.replay)
        return Check(a.prop, a.tier, a.seed).run()
    except BuildError as ex:
        print("NO-ANSWER:", ex)
        return 2


if __name__ == "__main__":
    sys.exit(main())
