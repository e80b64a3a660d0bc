#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough : decide one property of /repo by symbolic execution of its code.

Compiles the property's harness and /repo's current sources to LLVM IR, runs engine/ksym on every
entry point, replays each counterexample natively (ASan/UBSan) on the real code, validates sampled
paths against native runs, and writes evidence/<PROPERTY>.json.
Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 machinery failure."""
import concurrent.futures as cf
import hashlib, itertools, json, os, random, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = VERIF + "/harness"
sys.path.insert(0, VERIF)
import checks as CK

CXX = "clang++-18"
COMMON = ["-std=gnu++20", "-I" + REPO, "-I" + H, "-fsized-deallocation", "-Wno-everything"]
BCF = ["-DKSYM", "-include", H + "/prelude.h", "-O1", "-fno-pic", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize",
       "-fno-unroll-loops", "-c", "-emit-llvm"]
SAN = "-fsanitize=address,alignment,null,integer-divide-by-zero,unreachable,return,bool"
NATF = ["-O1", "-gline-tables-only", SAN, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
WRAPS = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm",
         "_ZNSt6chrono3_V212steady_clock3nowEv", "pthread_self"]
VARIANTS = {
    # asserts on, as the repository's own test build
    "debug": dict(flags=[], ksym=[], nat=[]),
    # release build: asserts compiled out, word-sized over-reads inside malloc's granularity tolerated
    "ndebug": dict(flags=["-DNDEBUG"], ksym=["--word-slack"], nat=["-DWORD_SLACK"]),
}

class Fail(Exception):
    pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def engine():
    src = b""
    for f in ["ksym.cc", "handlers.inc", "expr.h", "mem.h", "solver.h", "build.sh"]:
        src += open(f"{VERIF}/engine/{f}", "rb").read()
    out = f"{VERIF}/build/ksym-{hashlib.sha256(src).hexdigest()[:16]}"
    if not os.path.exists(out):
        os.makedirs(VERIF + "/build", exist_ok=True)
        tmp = out + f".{os.getpid()}"
        r = sh(["bash", VERIF + "/engine/build.sh", tmp])
        if r.returncode:
            raise Fail("engine build failed: " + r.stderr.decode()[-2000:])
        os.replace(tmp, out)
    return out

class Builder:
    """Compiles each (source, flags) once."""
    def __init__(self, tmp, pool):
        self.tmp, self.pool, self.f, self.lock = tmp, pool, {}, threading.Lock()

    def obj(self, src, flags, kind):
        key = (src, tuple(flags), kind)
        with self.lock:
            if key not in self.f:
                out = f"{self.tmp}/o{len(self.f)}.{'bc' if kind == 'bc' else 'o'}"
                extra = BCF if kind == "bc" else NATF + ["-c"]
                if src.endswith("runtime.cc"):
                    extra = extra + ["-fno-builtin"]
                cmd = [CXX] + COMMON + extra + list(flags) + [src, "-o", out]
                self.f[key] = self.pool.submit(self._cc, cmd, out)
            return self.f[key]

    def _cc(self, cmd, out):
        r = sh(cmd)
        if r.returncode:
            raise Fail("compile failed: " + " ".join(cmd) + "\n" + r.stderr.decode()[-3000:])
        return out

def resolve_src(s):
    return s if s.startswith("/") else (f"{H}/{s[8:]}" if s.startswith("harness:") else f"{REPO}/{s}")

def mkey(e, v):
    return (e["src"], v, "".join(e.get("flags", [])).replace("/", "_"))

def main():
    if sys.argv[1] == "--setup":
        print("engine", engine())
        return
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = CK.CHECKS[prop]
    os.makedirs(VERIF + "/build", exist_ok=True)
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"w-{prop}-", dir=VERIF + "/build")
    try:
        rc = run(prop, tier, c, tmp, seed, t0, only)
    except Fail as e:
        print(f"ERROR property={prop} {e}")
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, c, tmp, seed, t0, only):
    cc_pool = cf.ThreadPoolExecutor(8)
    run_pool = cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
    B = Builder(tmp, cc_pool)
    eng = cc_pool.submit(engine)
    jobs = []
    for e in c["entries"]:
        if only and only != e["name"]:
            continue
        if tier not in e.get("tiers", ("quick", "thorough")):
            continue
        for v in e.get("variants", ["debug", "ndebug"]):
            if isinstance(v, tuple):
                if v[1] != tier:
                    continue
                v = v[0]
            p = dict(e.get("params", {}))
            p.update(e.get(tier, {}))
            split = p.pop("_split", None)
            dims = [split] if split and isinstance(split[0], str) else (split or [])
            for combo in itertools.product(*[range(d[1], d[2] + 1) for d in dims]):
                jobs.append((e, v, {**p, **{d[0]: x for d, x in zip(dims, combo)}}))
    # compile
    mods, nats = {}, {}
    for e, v, _ in jobs:
        key = mkey(e, v)
        if key in mods:
            continue
        fl = VARIANTS[v]["flags"] + e.get("flags", []) + c.get("flags", [])
        srcs = [f"{H}/{e['src']}"] + [resolve_src(x) for x in e.get("repo", c.get("repo", []))]
        mods[key] = [B.obj(s, fl, "bc") for s in srcs] + [B.obj(f"{H}/runtime.cc", ["-DFMT_SHARED"], "bc")]
    for e, v, _ in jobs:
        key = mkey(e, v)
        if key in nats:
            continue
        fl = VARIANTS[v]["flags"] + e.get("flags", []) + c.get("flags", [])
        srcs = [f"{H}/{e['src']}"] + [resolve_src(x) for x in e.get("repo", c.get("repo", []))]
        nats[key] = [B.obj(s, fl, "o") for s in srcs] + [B.obj(f"{H}/native.cc", VARIANTS[v]["nat"], "o")]
    linked, links, lock = {}, {}, threading.Lock()

    def link_bc(key):
        with lock:
            if key not in linked:
                linked[key] = threading.Lock()
        with linked[key]:
            out = f"{tmp}/m-{key[0].replace('/', '_')}-{key[1]}{key[2]}.bc"
            if not os.path.exists(out):
                objs = [f.result() for f in mods[key]]
                r = sh(["llvm-link-18"] + objs + ["-o", out + ".t"])
                if r.returncode:
                    raise Fail("llvm-link: " + r.stderr.decode()[-2000:])
                os.replace(out + ".t", out)
            return out

    def link_nat(key):
        with lock:
            k2 = ("n",) + key
            if k2 not in linked:
                linked[k2] = threading.Lock()
        with linked[k2]:
            out = f"{tmp}/n-{key[0].replace('/', '_')}-{key[1]}{key[2]}"
            if not os.path.exists(out):
                objs = [f.result() for f in nats[key]]
                r = sh([CXX, SAN, "-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAPS] + objs + ["-o", out + ".t", "-lfmt", "-lxxhash", "-ldl"])
                if r.returncode:
                    raise Fail("native link: " + r.stderr.decode()[-2000:])
                os.replace(out + ".t", out)
            return out

    budget = c.get("time", {}).get(tier, 240 if tier == "quick" else 3000)
    total = c.get("total", {}).get(tier, 480 if tier == "quick" else 7200)

    def one(i, e, v, p):
        bc = link_bc(mkey(e, v))
        out = f"{tmp}/r{i}.json"
        cmd = [eng.result(), bc, "--entry", e["name"], "--out", out, "--time", str(round(min(e.get("time", {}).get(tier, budget), max(5, t0 + total - time.time())), 1)), "--seed", str(seed),
               "--repo", REPO + "/", "--samples", str(c.get("samples", 8 if tier == "quick" else 24))] + VARIANTS[v]["ksym"]
        for k, x in p.items():
            cmd += ["--param", f"{k}={x}"]
        if tier == "thorough":
            d = f"{tmp}/d{i}"
            os.makedirs(d)
            cmd += ["--dump", d]
        r = sh(cmd, timeout=budget * 3 + 120)
        if not os.path.exists(out):
            raise Fail(f"ksym {e['name']} rc={r.returncode}: {r.stderr.decode()[-1500:]}")
        j = json.load(open(out))
        j["variant"], j["params"], j["rc"] = v, p, r.returncode
        if tier == "thorough":
            j["crosscheck"] = crosscheck(f"{tmp}/d{i}")
        return j

    futs = [run_pool.submit(one, i, *j) for i, j in enumerate(jobs)]
    results, errs = [], []
    for f, j in zip(futs, jobs):
        try:
            results.append((j[0], f.result()))
        except Fail as x:
            errs.append(str(x))
        except subprocess.TimeoutExpired:
            errs.append(f"timeout in {j[0]['name']}")
    if errs:
        raise Fail("; ".join(errs[:3]))

    def native(e, v, inputs, obsfile=None, fill=None):
        exe = link_nat(mkey(e, v))
        f = tempfile.NamedTemporaryFile("w", dir=tmp, suffix=".in", delete=False)
        for n, w, val in inputs:
            f.write(f"{n.replace(' ', '_')} {w} {val}\n")
        f.close()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:handle_abort=1"
                   + (f":max_malloc_fill_size=100000:malloc_fill_byte={fill}" if fill is not None else ""), UBSAN_OPTIONS="print_stacktrace=1:exitcode=78")
        try:
            r = sh([exe, e["name"], f.name] + ([obsfile] if obsfile else []), timeout=60, env=env)
            return r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return 124, "native run did not finish in 60 s"

    known = json.load(open(VERIF + "/known_findings.json")) if os.path.exists(VERIF + "/known_findings.json") else []
    known = [k for k in known if k.get("property") == prop and k.get("status") == "open"]
    rc, nrep, seen_known, problems = 0, 0, set(), []
    for e, j in results:
        for vi in j["violations"][:3]:
            kf = next((k for k in known if k["entry"] == e["name"] and k["match"] in vi["msg"] + "\n" + vi["stack"]), None)
            if kf:
                if kf["id"] not in seen_known:
                    seen_known.add(kf["id"])
                    print(f"KNOWN-FINDING: property={prop} {kf['what']}")
                continue
            ok, log = False, ""
            for fill in (190, 0, 255):
                code, log = native(e, j["variant"], vi["inputs"], fill=fill)
                ok = code not in (0, 43, 45, 99)
                if ok:
                    break
            nrep += 1
            path = f"{VERIF}/evidence/replay/{prop}-{e['name']}-{j['variant']}-{nrep}.json"
            json.dump(dict(property=prop, entry=e["name"], src=e["src"], variant=j["variant"], params=j["params"], kind=vi["kind"], msg=vi["msg"],
                           stack=vi["stack"], inputs=vi["inputs"], native_exit=code, native_log=log[-4000:], confirmed=ok), open(path, "w"), indent=1)
            print(f"{'counterexample' if ok else 'UNCONFIRMED counterexample'} {e['name']} [{j['variant']}]: {vi['kind']}: {vi['msg']}")
            print("  at " + vi["stack"].strip().split("\n")[0][:300])
            print("  inputs " + " ".join(f"{n}={v}" for n, w, v in vi["inputs"])[:700])
            print(f"  native replay: exit {code} {log.strip().splitlines()[0][:200] if log.strip() else ''}")
            if ok:
                print(f"VIOLATION property={prop} replay={path}")
                rc = 1
            else:
                problems.append(f"unconfirmed counterexample in {e['name']} ({vi['msg']})")
    # validation of sampled paths
    validated, samples = 0, []
    for e, j in results:
        for s in j["samples"]:
            if rc == 1:
                break
            of = f"{tmp}/obs"
            code, log = native(e, j["variant"], s["inputs"], of)
            got = open(of).read().split() if os.path.exists(of) else []
            if os.path.exists(of):
                os.unlink(of)
            if code != 0 or got != s["obs"]:
                problems.append(f"path of {e['name']} [{j['variant']}] behaves differently natively: exit {code}, {log.strip()[:300]} obs {got[:20]} expected {s['obs'][:20]} inputs {s['inputs'][:40]}")
            else:
                validated += 1
            if len(samples) < 12:
                samples.append(dict(entry=e["name"], variant=j["variant"], inputs={f"{k}.{n}": v for k, (n, w, v) in enumerate(s["inputs"])}, observed=s["obs"][:20]))
    incomplete = {}
    covers = {}
    for e, j in results:
        for k, n in j["incomplete"].items():
            incomplete[f"{e['name']}[{j['variant']}]: {k}"] = n
        for k, n in j["covers"].items():
            covers.setdefault((e["name"], j["variant"]), {})[k] = covers.get((e["name"], j["variant"]), {}).get(k, 0) + n
        if j["paths"]:
            covers.setdefault((e["name"], j["variant"]), {}).setdefault("", 0)
    for e, j in results:
        if any(j["violations"]):
            continue
        cv = covers.get((e["name"], j["variant"]))
        if cv is None:
            problems.append(f"{e['name']} [{j['variant']}]: no path completed")
            continue
        if any(k.startswith(f"{e['name']}[{j['variant']}]") for k in incomplete):
            continue
        for w in e.get("covers", []):
            if not cv.get(w) and not any(r[1]["violations"] for r in results if r[0] is e):
                problems.append(f"{e['name']} [{j['variant']}]: situation '{w}' never reached")
    problems = list(dict.fromkeys(problems))
    S = lambda k: sum(j[k] for _, j in results)
    fns = {}
    for _, j in results:
        for n, s, t, calls in j["functions"]:
            o = fns.get(n, [0, t, 0])
            fns[n] = [max(o[0], s), t, o[2] + calls]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), coverage=dict(
        states=S("paths") + S("killed") + S("forks"), transitions=S("instructions"), traces_validated_against_impl=validated,
        paths_completed=S("paths"), paths_infeasible=S("killed"), forks=S("forks"),
        assertions_evaluated=S("asserts"), assertions_decided_by_solver=S("asserts_symbolic"), memory_accesses_checked=S("memory_checks"),
        solver=dict(name="z3 4.8.12 QF_BV", queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), answered_from_cache=S("cache_hits"),
                    answered_by_known_model=S("model_hits"), seconds=round(S("solver_s"), 2), longest_query_s=max((j["max_query_s"] for _, j in results), default=0)),
        bounds=c["bounds"], outside=c.get("outside", ""), complete_within_bounds=not incomplete, incomplete=incomplete,
        entries=[dict(entry=e["name"], variant=j["variant"], params=j["params"], paths=j["paths"], queries=j["queries"], wall_s=round(j["wall_s"], 2),
                      covers=j["covers"], violations=len(j["violations"])) for e, j in results],
        functions_encoded=[dict(function=n, ir_instructions_executed=v[0], ir_instructions=v[1], calls=v[2]) for n, v in sorted(fns.items(), key=lambda x: -x[1][2])][:150],
        n_functions_encoded=len(fns), externals_modelled=sorted({x for _, j in results for x in j["externals"]}),
        samples=samples, counterexamples=nrep, known_findings_seen=sorted(seen_known), problems=problems[:10],
        crosschecked_queries=sum(j.get("crosscheck", [0, 0])[0] for _, j in results)))
    for _, j in results:
        if j.get("crosscheck", [0, 0])[1]:
            problems.append("cvc5 disagrees with z3 on a dumped query")
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {S('paths')} paths, {S('asserts')} assertions ({S('asserts_symbolic')} symbolic), {S('queries')} queries {S('solver_s'):.1f}s solver, "
          f"{validated} paths validated natively, {len(fns)} functions, {time.time() - t0:.1f}s wall" + ("" if not incomplete else f"; INCOMPLETE: {dict(list(incomplete.items())[:4])}"))
    if rc == 0 and problems:
        for p in problems[:6]:
            print(f"ERROR property={prop} {p}")
        rc = 2
    return rc

def crosscheck(d):
    """Re-decide a sample of the queries with cvc5."""
    n = bad = 0
    for f in sorted(os.listdir(d))[:20]:
        want = "unsat" if ".unsat" in f else "sat"
        try:
            r = sh(["cvc5", "--tlimit=20000", f"{d}/{f}"], timeout=40)
        except subprocess.TimeoutExpired:
            continue
        got = r.stdout.decode().strip().split("\n")[0]
        if got in ("sat", "unsat"):
            n += 1
            if got != want:
                bad += 1
                print(f"cvc5 says {got}, z3 said {want}: {f}")
    return [n, bad]

if __name__ == "__main__":
    main()
