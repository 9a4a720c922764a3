"""check.py PROP [--tier quick|thorough] [--only H_x] [-v]: proves the contracts of one property on /repo's current tree."""
import sys, os, json, time, subprocess, shutil, tempfile, re, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "contracts"))
CLANG = "clang++-18"
NCPU = min(8, os.cpu_count() or 1)
KNOWN = os.path.join(ROOT, "known_findings.txt")
INC = ["-std=gnu++11", "-fno-access-control", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "contracts")]

class Pool:
    """runs commands in parallel with time limits"""
    def __init__(self, n): self.n = n; self.q = []; self.run = []
    def add(self, cmd, limit, done, env=None, out=None):
        self.q.append((cmd, limit, done, env, out))
    def wait(self, deadline=None, stop=lambda: False):
        while self.q or self.run:
            if stop():
                for p, t, d, o in self.run: kill(p)
                self.q = []; self.run = []; return
            while self.q and len(self.run) < self.n:
                cmd, limit, done, env, out = self.q.pop(0)
                o = open(out, "wb") if out else subprocess.DEVNULL
                p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT if out else subprocess.DEVNULL, env=env, start_new_session=True)
                lim = time.time() + limit
                if deadline: lim = min(lim, deadline)
                self.run.append((p, lim, done, out))
            time.sleep(0.05)
            rest = []
            for p, t, d, o in self.run:
                rc = p.poll()
                if rc is None and time.time() > t:
                    kill(p); rc = -9
                if rc is None: rest.append((p, t, d, o))
                else: d(rc)
            self.run = rest

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    try: p.wait(5)
    except Exception: pass

def sh(cmd, timeout=300):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--record", action="store_true"); ap.add_argument("-v", action="count", default=0); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--budget", type=float, default=0); ap.add_argument("--nofuzz", action="store_true")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % a.prop)
    try:
        rc = check(a, tmp)
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def config(prop):
    import config as C
    return C.CONFIG.get(prop, {})

def check(a, tmp):
    t0 = time.time()
    prop = a.prop
    cfg = config(prop)
    thorough = a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = a.budget or (3000 if thorough else 780)
    deadline = t0 + total
    srcs = cfg.get("src", [prop + ".cpp"])
    log = lambda *x: print(*x, flush=True)
    results = []; problems = []; hashes = {}
    # 1. extract: compile the contracts with the real code to IR
    mods = {}
    harnesses = []
    for s in srcs:
        src = os.path.join(ROOT, "contracts", s)
        bc = os.path.join(tmp, s + ".bc"); js = os.path.join(tmp, s + ".json")
        r = sh([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-emit-llvm", "-c", src, "-o", bc] + INC + cfg.get("cflags", []))
        if r.returncode:
            problems.append("extraction: %s does not compile against the current tree: %s" % (s, first_error(r.stderr)))
            continue
        r = sh([os.path.join(ROOT, "build", "irdump"), bc, "H_,vcinv::,vcspec::,vcrep::"])
        if r.returncode:
            problems.append("extraction: irdump failed: " + r.stderr[:200]); continue
        open(js, "w").write(r.stdout)
        j = json.loads(r.stdout)
        mods[s] = js
        names = sorted(set(f["d"].split("(")[0] for f in j["fns"].values() if re.match(r"H_\w+$", f["d"])))
        skip = cfg.get("thorough_only", []) if not thorough else []
        for n in names:
            if a.only and not re.search(a.only, n): continue
            if n in skip: continue
            harnesses.append((s, n)); hashes[n] = ir_hash(js, n)
        want = set(cfg.get("harnesses", []))
        if not a.only and want - set(names): problems.append("harness missing: %s" % sorted(want - set(names)))
    # 2. prove
    pool = Pool(NCPU)
    base_limit = cfg.get("limit_s", 400) * (3 if thorough else 1)
    limit = min(base_limit, total * 0.62)
    def mkdone(s, n, outp):
        def d(rc):
            try: r = json.load(open(outp))
            except Exception: r = dict(harness=n, status="killed", error="rc=%s" % rc, obls=[], reached=[], functions=[], trusted=[], loops={}, replaced=[], notes=[], queries=0, solver_s=0, insts=0, wall=0)
            r["src"] = s
            results.append(r)
            if a.v: log("  %-40s %-11s %6.1fs obls=%d/%d q=%d %s %s" % (n, r["status"], r["wall"], sum(o["n"] for o in r["obls"] if o["status"] == "proved"), sum(o["n"] for o in r["obls"]), r["queries"], r["error"], r.get("at", "") if r["status"] != "ok" else ""))
            if a.v:
                for o in r["obls"]:
                    if o["status"] != "proved": log("      %s %s %s cuts=%s %s" % (o["status"], o["name"], o["where"], o["cuts"], o["cex"] if a.v > 1 else ""))
            if a.v > 1 and r.get("trace"): log(r["trace"])
        return d
    order = cfg.get("order", [])
    harnesses.sort(key=lambda x: order.index(x[1]) if x[1] in order else 99)
    for s, n in harnesses:
        o = dict(cfg.get("opts", {})); o.update(cfg.get("harness", {}).get(n, {}))
        o.setdefault("limit_s", limit); o["limit_s"] = min(o["limit_s"] * (3 if thorough else 1), limit); o["verbose"] = max(0, a.v - 1)
        op = os.path.join(tmp, n + ".opts"); json.dump(o, open(op, "w"))
        outp = os.path.join(tmp, n + ".out")
        pool.add([sys.executable if "pyvenv" in sys.executable else "/opt/veriftools/pyvenv/bin/python3", os.path.join(HERE, "worker.py"), mods[s], n, op, outp], o["limit_s"] + 20,
                 mkdone(s, n, outp), out=os.path.join(tmp, n + ".log") if a.v < 2 else os.path.join(tmp, n + ".log"))
    pool.wait()
    if a.v > 1:
        for s, n in harnesses: log(open(os.path.join(tmp, n + ".log"), errors="replace").read()[-6000:])
    # 3. classify
    if cfg.get("bounded_all"): cfg = dict(cfg, bounded={r["harness"]: cfg["bounded_all"] for r in results})  # a labelled stand-in, never counted as proved
    bounded = set(cfg.get("bounded", {}))
    failed = []; undecided = []; nob = ndis = nb_ob = nb_dis = 0
    for r in results:
        isb = r["harness"] in bounded
        for o in r["obls"]:
            if isb: nb_ob += o["n"]; nb_dis += o["n"] if o["status"] == "proved" else 0
            else: nob += o["n"]; ndis += o["n"] if o["status"] == "proved" else 0
            if o["status"] == "failed": failed.append((r, o))
            elif o["status"] == "unknown": undecided.append((r["harness"], "%s: solver %s" % (o["name"], o["reason"])))
        if r["status"] != "ok": undecided.append((r["harness"], r["error"] + " " + str(r.get("at", ""))[:200]))
        elif not any(o["kind"] == "check" for o in r["obls"]): undecided.append((r["harness"], "vacuous: no postcondition was reached"))
        elif r.get("returns", 0) == 0: undecided.append((r["harness"], "vacuous: no path returns"))
        want = reach_names(mods.get(r["src"]), r["harness"])
        miss = want - set(r["reached"])
        if r["status"] == "ok" and miss: undecided.append((r["harness"], "vacuous: not reachable: %s" % sorted(miss)))
    for p in problems: undecided.append(("*", p))
    # 4. replay counterexamples / look for failing inputs of undischarged obligations
    violations = []
    native = {}
    rdir = os.path.join(ROOT, "build", "replay"); os.makedirs(rdir, exist_ok=True)
    def stubs(s, h):
        """assembly stubs: strong symbols that send calls of contract-replaced functions to their contracts, as in the proof"""
        rep = dict(cfg.get("opts", {}), **cfg.get("harness", {}).get(h, {})).get("replace", {}); out = []
        fns = json.load(open(mods[s]))["fns"]
        for name, f in fns.items():
            d = f.get("d", "")
            for pat, to in rep.items():
                if pat.startswith("__errno"): continue  # the native run has its own errno
                if d == pat[:-1] if pat.endswith("$") else d.startswith(pat):
                    t = [n for n, g in fns.items() if g.get("d", "").startswith(to)]
                    if t: out.append((name, t[0]))
                    break
        return out
    def native_bin(s, h=None):
        st = tuple(sorted(stubs(s, h))) if cfg.get("native_replace") and h and mods.get(s) else ()
        key = (s, st)
        if key in native: return native[key]
        b = os.path.join(tmp, "%s.%d.native" % (s, len(native))); extra = []
        if st:
            asm = b + ".s"
            open(asm, "w").write(".text\n" + "".join(".globl %s\n%s: jmp %s\n" % (n, n, t) for n, t in st) + '.section .note.GNU-stack,"",@progbits\n')
            extra = [asm, "-O0"]
        r = sh([CLANG, "-O1", "-g1", "-DVC_NATIVE", os.path.join(ROOT, "contracts", s), os.path.join(ROOT, "contracts", "vc_native.cpp"), "-o", b,
                "-fsanitize=fuzzer,address", "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,alignment,bounds,null",
                "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-pthread"] + extra + INC + cfg.get("cflags", []) + cfg.get("native_flags", []), timeout=600)
        native[key] = b if r.returncode == 0 else None
        if r.returncode: problems.append("native build of %s: %s" % (s, first_error(r.stderr)))
        return native[key]
    env0 = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")
    def replay(s, path, h):
        b = native_bin(s, h)
        if not b: return None
        try: r = subprocess.run([b], env=dict(env0, VC_REPLAY=path, VC_HARNESS=h), capture_output=True, text=True, timeout=30, errors="replace")
        except subprocess.TimeoutExpired: return "timeout"
        m = re.search(r"VC-FAIL (\S+) (\S+)", r.stderr)
        if m: return m.group(2)
        if "VC-PASS" in r.stderr: return None
        return None
    noinput = []
    seen_h = set()
    for r, o in failed:
        h = r["harness"]
        path = os.path.join(rdir, "%s-%s-%s.txt" % (prop, h, re.sub(r"\W+", "_", o["name"])[:60]))
        write_replay(path, h, o["cex"] or [], o)
        got = replay(r["src"], path, h) if o["cex"] is not None else None
        if got:
            violations.append((h, o["name"], path, "")); seen_h.add(h)
        else: noinput.append((r, o, path))
    need = sorted(set([r["harness"] for r, o, p in noinput] + [h for h, _ in undecided if h != "*"]) - seen_h)
    missing_all = any(h == "*" for h, _ in undecided)
    fuzzed = {}
    if (need or missing_all) and not violations and not a.nofuzz and not cfg.get("nofuzz"):
        for s in srcs:
            hs = [h for h in need if (s, h) in harnesses] if not missing_all else [h for ss, h in harnesses if ss == s]
            if missing_all and not hs: hs = None
            if hs == []: continue
            if cfg.get("native_replace") and hs: hs = [h for h in hs if stubs(s, h) == stubs(s, hs[0])]
            b = native_bin(s, hs[0] if hs else None)
            if not b: continue
            budget = max(30, min(deadline - time.time() - 20, cfg.get("fuzz_s", 150)))
            found = fuzz(b, tmp, hs, env0, budget, seed, cfg.get("fuzz_len", 512))
            fuzzed[s] = dict(harnesses=hs or "all", seconds=round(budget), found=bool(found), execs=FUZZ_EXECS[0])
            if found:
                h, nm, txt = found
                path = os.path.join(rdir, "%s-%s-%s.txt" % (prop, h, re.sub(r"\W+", "_", nm)[:60]))
                open(path, "w").write(txt)
                violations.append((h, nm, path, "")); break
    base = load_proved().get(prop, {})
    if not violations:
        for r, o, path in noinput:
            # a counterexample of an obligation reached without any abstraction stands on its own
            if not (o["cuts"] or r["replaced"] or o.get("abstract")): violations.append((r["harness"], o["name"], path, NOINPUT))
            else: undecided.append((r["harness"], "%s: not provable (%s), no failing input found" % (o["name"], ",".join(o["cuts"]))))
        # an obligation that was discharged when the contracts were written and no longer is: the code it is made from
        # changed (else only the resources of this run differ), so the verifier no longer accepts it
        for h, why in undecided:
            if h == "*" and base:
                path = os.path.join(rdir, "%s-extraction.txt" % prop); open(path, "w").write("obligation extraction\n" + why + "\n")
                violations.append(("*", "extraction", path, NOINPUT))
            elif h in base and base[h] != hashes.get(h):
                fo = [(o, p) for r, o, p in noinput if r["harness"] == h]
                path = fo[0][1] if fo else os.path.join(rdir, "%s-%s-undischarged.txt" % (prop, h))
                if not fo: open(path, "w").write("harness %s\nobligation %s\n" % (h, why))
                else: open(path, "a").write("verifier output: %s\n" % why)
                violations.append((h, fo[0][0]["name"] if fo else why[:80], path, NOINPUT))
    # 5. evidence
    fns = sorted(set(f for r in results for f in r["functions"] if "crab::" in f))
    trusted = sorted(set(f for r in results for f in r["trusted"]))
    loops = {}
    for r in results:
        for k, v in r["loops"].items(): loops["%s/%s" % (r["harness"], k)] = v
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd="python3 engine/check.py %s --tier %s  (clang-18 IR of /repo -> VCs -> z3 5.x, fallback cvc5 1.4)" % (prop, a.tier),
        trusted_base=["clang 18 front end and the mem2reg-level passes in engine/irdump.cpp", "VC generator engine/*.py", "z3 / cvc5", "contract files contracts/%s" % ",".join(srcs)] + ["trusted contract: " + t for t in trusted],
        functions_under_contract=len(fns), functions=fns, harnesses=[dict(name=r["harness"], status=r["status"], wall_s=r["wall"], paths=r.get("paths", 0), obligations=sum(o["n"] for o in r["obls"]), queries=r["queries"], solver_s=r["solver_s"], bounded=cfg.get("bounded", {}).get(r["harness"], None)) for r in sorted(results, key=lambda r: r["harness"])],
        obligations_by_name=[dict(h=r["harness"], name=o["name"], kind=o["kind"], n=o["n"], status=o["status"], backends=o["backend"], s=o["time"]) for r in results for o in r["obls"]],
        loops=loops, replaced_by_contract=sorted(set(x for r in results for x in r["replaced"])),
        bounded_obligations=nb_ob, bounded_discharged=nb_dis, bounded_note=cfg.get("bounded", {}),
        solver_s=round(sum(r["solver_s"] for r in results), 2), solver_queries=sum(r["queries"] for r in results),
        undecided=["%s: %s" % x for x in undecided], falsifier=fuzzed)
    if cfg.get("bounded_all"): cov["explanation"] = "bounded: %s; %d of %d bounded obligations discharged" % (cfg["bounded_all"], nb_dis, nb_ob)
    if undecided: cov["undecided_note"] = "these obligations were not decided on this tree; a bounded random search for a failing input of the same contracts stood in and is not counted as proof"
    known = load_known(prop)
    kf = [v for v in violations if any(k in "%s %s" % (v[0], v[1]) for k in known)]
    violations = [v for v in violations if v not in kf]
    for k in known: log("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level=cfg.get("level", "proof"), coverage=cov, assumptions=cfg.get("assumptions", []) + GLOBAL_ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only and not os.environ.get("VC_NOEV"): json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %d/%d obligations discharged%s over %d functions, %d harnesses, %d loops; undecided %d; %.1fs" % (prop, ndis + nb_dis, nob + nb_ob, " (%d of them bounded)" % nb_ob if nb_ob else "", len(fns), len(results), len(loops), len(undecided), time.time() - t0))
    for u in undecided: log("  undecided: %s: %s" % u)
    if a.record:
        P = load_proved(); bad = set(h for h, _ in undecided) | set(v[0] for v in violations)
        P[prop] = {r["harness"]: hashes[r["harness"]] for r in results if r["harness"] not in bad} if not a.only else dict(P.get(prop, {}), **{r["harness"]: hashes[r["harness"]] for r in results if r["harness"] not in bad})
        json.dump(P, open(PROVED, "w"), indent=1, sort_keys=True)
    if violations:
        for v in violations: log("  failed obligation: %s in %s" % (v[1], v[0]))
        v = violations[0]
        log("VIOLATION property=%s replay=%s%s" % (prop, v[2], v[3]))
        return 1
    return 0

GLOBAL_ASSUMPTIONS = [
    "memory allocation succeeds; objects are smaller than 2^40..2^46 bytes",
    "trusted contracts listed in coverage.trusted_base (C/C++ standard library) hold",
    "x86-64 little-endian, gnu++11 as in the repository's build; optimised object code behaves as the IR",
    "termination is not proved",
]
FUZZ_EXECS = [0]
NOINPUT = " no-failing-input-found"

def first_error(s):
    for l in s.splitlines():
        if "error" in l: return l[:300]
    return s[:200]

_mods = {}
def reach_names(path, h):
    """vc_reach names called directly in the harness"""
    if not path: return set()
    if path not in _mods: _mods[path] = json.load(open(path))
    j = _mods[path]
    out = set()
    for f in j["fns"].values():
        if f["d"].split("(")[0] != h: continue
        for b in f["blocks"]:
            for ins in b:
                if ins.get("fn") == "vc_reach":
                    op = ins["ops"][0]
                    g = op.get("g") if isinstance(op, dict) else None
                    c = j["globals"].get(g, {}).get("init", {}) if g else {}
                    if "agg" in c: out.add("".join(chr(int(x["i"])) for x in c["agg"] if int(x.get("i", 0))))
    return out

def write_replay(path, h, cex, o):
    with open(path, "w") as f:
        f.write("harness %s\nobligation %s\nwhere %s\nreason %s\ncuts %s\n" % (h, o["name"], o["where"], o["reason"], ",".join(o["cuts"])))
        for nm, kind, v, data in cex:
            f.write("value %s %s %d" % (nm, "buf" if kind == "buf" else kind, v))
            if kind == "buf": f.write(" " + "".join("%02x" % x for x in (data or [])))
            f.write("\n")

def fuzz(b, tmp, hs, env0, budget, seed, maxlen):
    """libFuzzer on the contract harnesses; returns (harness, check, replay text) or None"""
    jobs = []
    FUZZ_EXECS[0] = 0
    t_end = time.time() + budget
    for k in range(NCPU):
        d = os.path.join(tmp, "fz%d" % k); os.makedirs(d, exist_ok=True)
        sel = hs if not hs or len(hs) < NCPU else [h for i, h in enumerate(hs) if i % NCPU == k] or hs
        if hs and 1 < len(hs) < NCPU: sel = [hs[k % len(hs)]]
        env = dict(env0, VC_OUT=os.path.join(d, "out.txt"))
        if sel: env["VC_HARNESS"] = ",".join(sel)
        lf = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen([b, "-max_total_time=%d" % budget, "-seed=%d" % (seed * 100 + k), "-max_len=%d" % maxlen, "-len_control=20", "-use_value_profile=%d" % (k & 1), "-rss_limit_mb=3000", "-timeout=20", "-artifact_prefix=%s/" % d, "-print_final_stats=1", d],
                             env=env, stdout=lf, stderr=lf, cwd=d, start_new_session=True)
        jobs.append((p, d))
    found = None
    while time.time() < t_end + 15 and not found:
        alive = False
        for p, d in jobs:
            if p.poll() is None: alive = True
            else:
                t = open(os.path.join(d, "log"), errors="replace").read()
                m = re.search(r"VC-FAIL (\S+) (\S+)", t)
                if m and os.path.exists(os.path.join(d, "out.txt")):
                    found = (m.group(1), m.group(2), "obligation %s\n" % m.group(2) + open(os.path.join(d, "out.txt")).read()); break
                m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        if not alive: break
        time.sleep(0.3)
    for p, d in jobs:
        if p.poll() is None: kill(p)
        t = open(os.path.join(d, "log"), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)|^#(\d+)", t, re.M)
        if m: FUZZ_EXECS[0] += int(m[-1][0] or m[-1][1])
    return found

PROVED = os.path.join(ROOT, "contracts", "proved.json")
_hash = {}
def ir_hash(path, h):
    """hash of everything the proof of harness h is made from (IR of the reachable code, invariant candidates), without line numbers"""
    if path not in _mods: _mods[path] = json.load(open(path))
    j = _mods[path]
    if path not in _hash:
        def refs(x, out):
            if isinstance(x, dict):
                for k, v in x.items(): refs(v, out)
            elif isinstance(x, list):
                for v in x: refs(v, out)
            elif isinstance(x, str) and (x in j["fns"] or x in j["globals"]): out.add(x)
        def strip(x):
            if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("l", "file", "line")}
            if isinstance(x, list): return [strip(v) for v in x]
            return x
        R = {}; T = {}
        for kind in ("fns", "globals"):
            for n, v in j[kind].items():
                o = set(); refs(v, o); o.discard(n); R[n] = o
                T[n] = hashlib.sha256(json.dumps(strip(v), sort_keys=True).encode()).hexdigest()
        _hash[path] = (R, T)
    R, T = _hash[path]
    todo = [n for n, f in j["fns"].items() if f["d"].split("(")[0] == h or f["d"].startswith("vcinv::") or " vcinv::" in f["d"]]
    seen = set(todo)
    while todo:
        for m in R.get(todo.pop(), ()):
            if m not in seen: seen.add(m); todo.append(m)
    return hashlib.sha256("".join(n + T[n] for n in sorted(seen)).encode()).hexdigest()[:24]

def load_proved():
    try: return json.load(open(PROVED))
    except FileNotFoundError: return {}

def load_known(prop):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=%s (.*)" % prop, l.strip())
            if m: out.append(m.group(1))
    except FileNotFoundError: pass
    return out

if __name__ == "__main__": main()
