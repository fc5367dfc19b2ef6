#!/usr/bin/env python3
"""check.py ID  -- decide one property by symbolic execution of /repo's current sources (see DESIGN.md)."""
import sys, os, re, json, time, subprocess, shutil, hashlib, concurrent.futures as cf, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS
CLANG = "clang++-18"
IRFLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-pic", "-fno-pie", "-emit-llvm", "-c", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID"]
NATFLAGS = ["-std=c++14", "-O2", "-g1", "-w", "-rdynamic", "-ftrivial-auto-var-init=pattern"]
LIBS = ["fem/quadrature_formulas.cpp", "fem/tetdofmap.cpp", "fem/fem_space.cpp"]

SRC = REPO   # the tree compiled to IR: /repo's sources with lambda captures written as clang needs them (see encode_copy)
def encode_copy(work):
    """g++ accepts a constexpr local used in a lambda that does not capture it, clang does not: capture defaults are added ([&f, n] -> [&, n]); nothing else changes"""
    global SRC
    dst = os.path.join(work, "src"); 
    def fix(m):
        caps = [c.strip() for c in m.group(1).split(",")]
        if not any(re.fullmatch(r"&\s*\w+", c) for c in caps) or not all(re.fullmatch(r"&?\s*\w+", c) for c in caps): return m.group(0)
        return "[" + ", ".join(["&"] + [c for c in caps if not c.startswith("&")]) + "]" + m.group(2)
    for root, dirs, files in os.walk(os.path.join(REPO, "anifem++")):
        d = os.path.join(dst, os.path.relpath(root, REPO)); os.makedirs(d, exist_ok=True)
        for fn in files:
            if not fn.endswith((".h", ".inl", ".cpp", ".hpp", ".in")): continue
            t = open(os.path.join(root, fn), errors="replace").read()
            open(os.path.join(d, fn), "w").write(re.sub(r"\[([^\[\]]*)\](\s*\()", fix, t))
    SRC = dst

def cfgflags(cfg, base=None):
    base = base or REPO
    f = ["-I" + base, "-I" + os.path.join(base, "anifem++"), "-I" + os.path.join(HERE, "harness")]
    if cfg == "eigen": f += ["-DWITH_EIGEN", "-I/usr/include/eigen3"]
    return f

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def libs_for(job, base=None):
    return [os.path.join(base or REPO, "anifem++", l) for l in job.get("libs", LIBS)]

def compile_ir(src, cfg, out, extra=()):
    r = sh([CLANG] + IRFLAGS + cfgflags(cfg, SRC) + list(extra) + [src, "-o", out])
    return (src, r.returncode, r.stderr[-3000:])

def build_native(job, work, asan):
    out = os.path.join(work, "replay_%s_%s_%d" % (job["harness"], job["cfg"], asan) + hashlib.md5(repr(job.get("defs",())).encode()).hexdigest()[:6])
    if os.path.exists(out): return out
    cmd = ["g++"] + NATFLAGS + (["-fsanitize=" + ("thread" if asan == 2 else "address")] if asan else []) + cfgflags(job["cfg"]) + list(job.get("defs", ())) + \
          [os.path.join(HERE, "harness", job["harness"] + ".cpp"), os.path.join(HERE, "harness", "vf_native.cpp")] + libs_for(job) + ["-o", out, "-ldl", "-lpthread"]
    r = sh(cmd)
    if r.returncode: print("replay build failed:", r.stderr[-2000:]); return None
    return out

def replay(job, v, work, path):
    """run the recorded assignment on the real (gcc) build; returns description of the reproduced failure or None"""
    outs = []
    modes = [0, 1] if v["kind"] != "memory" else [1, 0]
    if job.get("threads"): modes = [2, 2] + modes    # schedules are repeated by real threads under the data race detector
    if job.get("threads"): modes += [(0, n) for n in range(24)]    # and by letting the second thread in at each entry to and exit from the lock
    for asan in modes:
        switch = None
        if isinstance(asan, tuple): asan, switch = asan
        exe = build_native(job, work, asan)
        if not exe: continue
        env = dict(os.environ, MALLOC_PERTURB_="181", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=55:max_malloc_fill_size=1048576:malloc_fill_byte=254")
        if switch is not None: env["VF_SWITCH"] = str(switch)
        try: r = sh([exe, v["case"], str(v["k"]), path], env=env, timeout=120 if switch is None else 10, cwd=work)
        except subprocess.TimeoutExpired: outs.append("timeout"); continue
        fails = [l for l in r.stdout.splitlines() if l.startswith("VF-FAIL")]
        if fails:
            base = re.sub(r" \[.*", "", v["msg"])
            for l in fails:
                if base in l: return l
            if v["kind"] != "check" or True: return fails[0]
        if r.returncode < 0: return "killed by signal %d: %s" % (-r.returncode, (r.stderr.strip().splitlines() or [""])[-1][:200])
        if "AddressSanitizer" in r.stderr:
            m = re.search(r"ERROR: AddressSanitizer: (.*)", r.stderr); return "AddressSanitizer: " + (m.group(1)[:160] if m else "")
        m = re.search(r"WARNING: (ThreadSanitizer: data race).*?#0 (\S.*?)\n", r.stderr, re.S)
        if m: return "%s in %s" % (m.group(1), m.group(2)[:160])
        if "VF-EXCEPTION" in r.stdout: return r.stdout.strip().splitlines()[-1]
        outs.append(r.stdout[-200:])
    return None

def known(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) case=(\S+) match=\"(.*?)\" :: (.*)", l.strip())
            if m and m.group(1) == pid: res.append(m.groups()[1:])
    return res

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    os.environ["VERIF_TIER"] = tier
    only = None
    for a in sys.argv[2:]:
        if a.startswith("--only="): only = a[7:]
    conf = CHECKS[pid]; t0 = time.time()
    work = os.path.join(HERE, "build", "run_%s_%d" % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try: rc = decide(pid, tier, conf, work, t0, only)
    finally:
        if not os.environ.get("VF_KEEP"): shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, conf, work, t0, only):
    engine = os.path.join(HERE, "build", "engine")
    if not os.path.exists(engine):
        r = sh(["make", "-C", os.path.join(HERE, "engine"), "-j4"])
        if r.returncode: print(r.stderr[-3000:]); return 2
    jobs = [j for j in conf["jobs"] if not (j.get("tier") == "thorough" and tier != "thorough")]
    if only: jobs = [j for j in jobs if re.search(only, j["harness"] + ":" + j["cfg"])]
    encode_copy(work)
    # ---- encode: compile harness and sources to IR
    todo = {}
    for i, j in enumerate(jobs):
        j["_bc"] = []
        key = (os.path.join(HERE, "harness", j["harness"] + ".cpp"), j["cfg"], tuple(j.get("defs", ())))
        for s in [key] + [(l, j["cfg"], ()) for l in libs_for(j, SRC)] + [(os.path.join(HERE, "harness", "vf_rt.cpp"), j["cfg"], ())]:
            if s not in todo: todo[s] = os.path.join(work, "m%d_%s.bc" % (len(todo), os.path.basename(s[0])))
            j["_bc"].append(todo[s])
    comp_fail = []
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(compile_ir, s[0], s[1], o, s[2]) for s, o in todo.items()]:
            src, rc, err = f.result()
            if rc: comp_fail.append((src, err))
    if comp_fail:
        for s, e in comp_fail: print("ENCODE-FAIL", s, e)
        return 2
    tcomp = time.time() - t0
    budget = conf.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    paths, viols, funcs = [], [], set()
    for n, j in enumerate(jobs):
        out = os.path.join(work, "out%d" % n); os.makedirs(out)
        left = budget - (time.time() - t0); share = max(20, left / (len(jobs) - n)) if not j.get("timeout") else min(j["timeout"], max(20, left))
        cmd = [engine] + j["_bc"] + ["--out", out, "--timeout", str(int(share)), "--jobs", str(j.get("jobs", 8)), "--maxforks", str(j.get("maxforks", 60000))]
        cases = j.get("cases" + ("_thorough" if tier == "thorough" else ""), j.get("cases"))
        if cases: cmd += ["--cases", cases]
        if j.get("maxterms"): cmd += ["--maxterms", str(j["maxterms"])]
        try: r = sh(cmd, timeout=share + 180)
        except subprocess.TimeoutExpired: print("engine wall limit on", j["harness"]); sh(["pkill", "-f", out]); r = None
        if r is not None and r.returncode:
            print("engine error", j["harness"], r.stderr[-3000:]); return 2
        for l in open(out + "/paths.jsonl") if os.path.exists(out + "/paths.jsonl") else []:
            try: p = json.loads(l)
            except Exception: continue
            p["harness"] = j["harness"] + ":" + j["cfg"] + "".join(":" + d.replace("-D", "") for d in j.get("defs", ())); paths.append(p)
        for l in open(out + "/viol.jsonl") if os.path.exists(out + "/viol.jsonl") else []:
            try: v = json.loads(l)
            except Exception: continue
            v["harness"] = j["harness"]; v["job"] = n; viols.append(v)
        if os.path.exists(out + "/funcs.txt"):
            for l in open(out + "/funcs.txt", errors="replace"):
                f = l.rstrip("\n").split("\t")
                if len(f) == 3 and "anifem++" in f[0]: funcs.add((os.path.relpath(os.path.normpath(f[0]), SRC), f[2][:200]))
    # ---- counterexamples: replay on the real build
    kn = known(pid); confirmed, unconfirmed, kf = [], [], {}
    groups = {}
    for v in viols: groups.setdefault((v["harness"], v["case"], v["k"], v["kind"], re.sub(r" \[.*", "", v["msg"])), []).append(v)
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "_*")): os.unlink(f)
    nrep = 0; tested = 0
    order = sorted(groups.items(), key=lambda kv: (kv[0][1], kv[0][2]))
    # spread over cases first
    seen_case = {}; ranked = []
    for kk, vs in order:
        c = (kk[0], kk[1]); seen_case[c] = seen_case.get(c, 0) + 1; ranked.append((seen_case[c], kk, vs))
    ranked.sort(key=lambda t: t[0])
    for rank, kk, vs in ranked:
        isk = [x for x in kn if x[0] == kk[0] and re.fullmatch(x[1], kk[1] + ("#%d" % kk[2] if kk[2] >= 0 else "")) and x[2] in vs[0]["msg"]]
        if isk and isk[0] in kf: continue
        if not isk and (len(confirmed) >= 8 or tested > 40): continue
        got = None
        for v in vs[:4]:
            tested += 1
            path = os.path.join(rdir, "%s_%d.txt" % (pid, nrep)); nrep += 1
            with open(path, "w") as f:
                for x in v["vars"]: f.write(("r %s\n" % x["r"]) if "r" in x else ("i %d\n" % x["i"]))
            got = replay(jobs[v["job"]], v, work, path)
            if got: break
            os.unlink(path)
        if got:
            with open(path + ".info", "w") as f: json.dump({"property": pid, "harness": v["harness"], "cfg": jobs[v["job"]]["cfg"], "case": v["case"], "k": v["k"], "message": v["msg"], "kind": v["kind"], "reproduced": got, "stack": v["stack"], "vars": v["vars"],
                "how": "build harness/%s.cpp and harness/vf_native.cpp with the sources of /repo and run: replay %s %d %s" % (v["harness"], v["case"], v["k"], path)}, f, indent=1)
            if isk: kf[isk[0]] = got
            else: confirmed.append((v, got, path))
        else: unconfirmed.append((kk, vs[0]))
    # ---- evidence
    S = lambda k: sum(p.get(k, 0) for p in paths)
    st = {}
    for p in paths: st[p["status"]] = st.get(p["status"], 0) + 1
    bycase = {}
    for p in paths:
        c = bycase.setdefault((p["harness"], p["case"], p["k"]), dict(paths=0, checks=0, sym=0, wit=0, ok=0)); c["paths"] += 1; c["checks"] += p["checks"]; c["sym"] += p["sym_checks"]
        if p["status"] in ("ok", "violation"): c["ok"] += 1
        if p["status"] in ("ok", "violation") and p["witness"] and p["checks"]: c["wit"] += 1
    vac = ["%s:%s#%d" % k for k, c in bycase.items() if not c["wit"]]
    incon = [(p["harness"], p["case"], p["k"], p["status"], p["msg"][:300]) for p in paths if p["status"] not in ("ok", "infeasible", "violation")]
    und = sorted({n for p in paths for n in p["notes"] if n.startswith("undecided")})
    wall = time.time() - t0
    def case_label(k): return "%s/%s%s" % (k[0], k[1], "#%d" % k[2] if k[2] >= 0 else "")
    samples = [{"case": case_label(k), **c} for k, c in sorted(bycase.items())[:400:max(1, len(bycase) // 12)]]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": conf.get("level", "other"),
          "coverage": {"explanation": conf["explanation"], "bounds": conf["bounds"],
                       "functions_encoded": sorted("%s: %s" % f for f in funcs), "functions_encoded_count": len(funcs),
                       "cases": len(bycase), "paths": len(paths), "path_status": st, "instructions_executed_symbolically": S("insts"),
                       "obligations": S("checks"), "obligations_with_symbolic_data": S("sym_checks"), "discharged": S("proved"), "undecided": S("undecided"), "undecided_list": und[:20],
                       "solver_queries": S("queries"), "solver_unsat": S("unsat"), "solver_sat": S("sat"), "solver_unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 3),
                       "concretised_values": S("concretised"), "domain_assumptions_added": S("div_assumed"), "branches_kept_on_unknown": S("unknown_branches"),
                       "reachability_witness": {"cases_with_witness": len(bycase) - len(vac), "cases_without": vac[:20]},
                       "inconclusive_paths": [list(x) for x in incon[:20]],
                       "counterexamples": {"raw": len(viols), "distinct": len(groups), "replayed": tested, "reproduced_on_real_build": len(confirmed) + len(kf), "not_reproduced": [[kk[1], kk[2], v["msg"][:160]] for kk, v in unconfirmed[:20]]},
                       "encode_seconds": round(tcomp, 1), "samples": samples},
          "assumptions": conf["assumptions"], "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: cases=%d paths=%d %s obligations=%d (symbolic %d) proved=%d undecided=%d queries=%d solver=%.1fs concretised=%d wall=%.1fs (encode %.1fs)" %
          (pid, tier, len(bycase), len(paths), st, S("checks"), S("sym_checks"), S("proved"), S("undecided"), S("queries"), S("solver_s"), S("concretised"), wall, tcomp))
    if os.environ.get("VF_PROF"):
        pr = {}
        for p in paths: c = pr.setdefault((p["harness"], p["case"], p["k"]), [0, 0, 0, 0]); c[0] += p.get("solver_s", 0); c[1] += 1; c[2] += p.get("insts", 0); c[3] += p.get("queries", 0)
        for k, c in sorted(pr.items(), key=lambda t: -t[1][0])[:25]: print("  prof", case_label(k), "solver=%.1f paths=%d insts=%d queries=%d" % tuple(c))
    for x in incon[:6]: print("  inconclusive:", x)
    for x in und[:6]: print("  ", x[:300])
    if vac: print("  no witness:", vac[:10])
    for kk, v in unconfirmed[:6]: print("  not reproduced on the real build (ignored):", kk[1], kk[2], v["kind"], v["msg"][:200])
    for x, got in kf.items(): print("KNOWN-FINDING: property=%s %s" % (pid, x[3]))
    for v, got, path in confirmed: print("VIOLATION property=%s replay=%s   # %s/%s#%d %s => %s" % (pid, path, v["harness"], v["case"], v["k"], v["msg"][:200], got[:200]))
    return 1 if confirmed else 0
if __name__ == "__main__": main()
