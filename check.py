#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep] [--trace]
exit 0: held on everything explored; exit 1: VIOLATION line printed; 2: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
CLANG, CLANGXX = "clang-18", "clang++-18"
CF = ["-g", "-I%s/src" % REPO, "-I%s/rt" % HERE, "-I%s/harness" % HERE, "-w"]
CXXDEF = ["-DUSE_STDONLY", "-DUBTC_TEST", "-std=c++17"]
SYM = ["-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-fno-discard-value-names", "-DUSYM"]
SYMXX = ["-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-c++-static-destructors"]
STUBS = {
    "sha256": ["sha256_Transform=stub_sha256_Transform"],
    "sha256u": ["sha256_Transform=stub_sha256u_Transform"],
    "sha512": ["sha512_Transform=stub_sha512_Transform"],
    "rmd160": ["ripemd160_process=stub_ripemd160_process"],
    "ecdsa_sign": ["ecdsa_sign_digest=stub_ecdsa_sign_digest"],
    "ec": ["scalar_multiply=stub_scalar_multiply", "point_multiply=stub_point_multiply", "point_add=stub_point_add", "uncompress_coords=stub_uncompress_coords", "ecdsa_validate_pubkey=stub_ecdsa_validate_pubkey"],
    "scmul": ["bn_multiply=stub_bn_multiply", "bn_inverse=stub_bn_inverse", "bn_mod=stub_bn_mod", "random32=stub_random32"],
    "opq": ["sha256_Transform=opq_sha256_Transform", "scalar_multiply=opq_scalar_multiply", "point_multiply=opq_point_multiply", "point_add=opq_point_add", "uncompress_coords=opq_uncompress_coords", "ecdsa_validate_pubkey=opq_ecdsa_validate_pubkey"],
    "toy": ["bn_multiply=toy_bn_multiply", "bn_fast_mod=toy_bn_fast_mod", "bn_inverse=toy_bn_inverse", "random32=toy_random32"],
    "expo": ["bn_multiply=expo_bn_multiply"],
    "eclog": ["curve_to_jacobian=lg_curve_to_jacobian", "jacobian_to_curve=lg_jacobian_to_curve", "point_jacobian_add=lg_point_jacobian_add", "point_jacobian_double=lg_point_jacobian_double", "point_add=lg_point_add", "point_double=lg_point_double"],
    "scadd": ["bn_mod=stub_bn_mod", "_ZNK8ECScalarplERKS_=stub_scalar_add"],
    "derive": ["_ZNK12HDPrivateKey5childEjb=rec_prv", "_ZNK11HDPublicKey5childEj=rec_pub"],
    "hashref": ["ref_sha256=stub_sha256_Transform", "ref_sha512=stub_sha512_Transform", "ref_rmd160=stub_ripemd160_process"],
    "mnemo": ["mnemonic_from_data=stub_mnemonic_from_data"],
    "textcodec": ["_Z13toBase58CheckPKhmPcm=stub_toBase58Check", "_Z15fromBase58CheckPKcmPhm=stub_fromBase58Check", "segwit_addr_encode=stub_segwit_addr_encode", "segwit_addr_decode=stub_segwit_addr_decode"],
}
CPU = 8

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class CheckError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-3000:]))
    return p.stdout

def build_engine():
    """(Re)build the executor if its sources changed."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(HERE, "engine"))):
        h.update(open(os.path.join(HERE, "engine", f), "rb").read())
    d = h.hexdigest()[:16]
    out = os.path.join(BUILD, "engine-" + d)
    exe = os.path.join(out, "usym")
    if not os.path.exists(exe):
        tmp = tempfile.mkdtemp(prefix="eng-", dir=BUILD) if os.path.isdir(BUILD) else (os.makedirs(BUILD), tempfile.mkdtemp(prefix="eng-", dir=BUILD))[1]
        run(["make", "-j3", "-C", os.path.join(HERE, "engine"), "OUT=" + tmp])
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        for o in os.listdir(BUILD):
            if o.startswith("engine-") and o != "engine-" + d:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    return exe

def repo_sources():
    cpp, c = [], []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cpp"):
                cpp.append(p)
            elif f.endswith(".c"):
                c.append(p)
    return sorted(cpp), sorted(c)

def objname(p):
    return os.path.relpath(p, "/").replace("/", "_")

class Builder:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(CPU)
        self.native = {}
    def par(self, cmds):
        list(self.pool.map(run, cmds))
    def bitcode(self, srcs):
        """compile repo + runtime + the given harness files; returns {harness: linked bitcode}"""
        w = self.work
        cpp, c = repo_sources()
        cmds, objs = [], []
        for f in cpp:
            o = os.path.join(w, objname(f) + ".bc"); objs.append(o)
            cmds.append([CLANGXX] + SYM + SYMXX + CF + CXXDEF + [f, "-o", o])
        for f in c:
            o = os.path.join(w, objname(f) + ".bc"); objs.append(o)
            cmds.append([CLANG] + SYM + CF + [f, "-o", o])
        rt = os.path.join(w, "rt.bc"); objs.append(rt)
        cmds.append([CLANG] + SYM + CF + ["-fno-builtin", os.path.join(HERE, "rt/rt.c"), "-o", rt])
        st = os.path.join(w, "stubs.bc"); objs.append(st)
        cmds.append([CLANGXX] + SYM + SYMXX + CF + CXXDEF + [os.path.join(HERE, "rt/stubs.cpp"), "-o", st])
        hs = {}
        for s in srcs:
            o = os.path.join(w, "h_" + s + ".bc"); hs[s] = o
            cmds.append([CLANGXX] + SYM + SYMXX + CF + CXXDEF + [os.path.join(HERE, "harness", s), "-o", o])
        self.par(cmds)
        lib = os.path.join(w, "lib.bc")
        run(["llvm-link-18"] + objs + ["-o", lib])
        out = {}
        def link(s):
            a = os.path.join(w, "all_" + s + ".bc"); b = os.path.join(w, "opt_" + s + ".bc")
            run(["llvm-link-18", lib, hs[s], "-o", a])
            run(["opt-18", "-passes=function(mem2reg,simplifycfg)", a, "-o", b])
            return s, b
        for s, b in self.pool.map(link, srcs):
            out[s] = b
        return out
    def native_objs(self, kind):
        if kind in self.native:
            return self.native[kind]
        fl = {"plain": ["-O1"], "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,function", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
              "msan": ["-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"]}[kind]
        cpp, c = repo_sources(); cmds, objs = [], []
        for f in cpp:
            o = os.path.join(self.work, kind + objname(f) + ".o"); objs.append(o)
            cmds.append([CLANGXX, "-c"] + fl + CF + CXXDEF + [f, "-o", o])
        for f in c + [os.path.join(HERE, "rt/replay.c")]:
            o = os.path.join(self.work, kind + objname(f) + ".o"); objs.append(o)
            cmds.append([CLANG, "-c"] + fl + CF + [f, "-o", o])
        self.par(cmds)
        self.native[kind] = (fl, objs)
        return self.native[kind]
    def native_exe(self, kind, src, entry):
        key = (kind, src, entry)
        if key in self.native:
            return self.native[key]
        fl, objs = self.native_objs(kind)
        exe = os.path.join(self.work, "nat_%s_%s_%s" % key)
        run([CLANGXX] + fl + CF + CXXDEF + ["-Dusym_entry_=" + entry, "-D%s=harness_entry" % entry, os.path.join(HERE, "harness", src)] + objs + ["-o", exe])
        self.native[key] = exe
        return exe
    def table_exe(self, engine, bc, stubs, entry, tag):
        """real code with the abstracted primitives replaced by the solver's table"""
        e = os.path.join(self.work, "emit_%s.bc" % tag); exe = os.path.join(self.work, "tab_%s" % tag)
        run([engine, bc, "--emit", e] + sum([["--intercept", i] for g in stubs for i in STUBS[g]], []))
        m = os.path.join(self.work, "main_%s.c" % tag)
        open(m, "w").write("void %s(void); void harness_entry(void){ %s(); }\n" % (entry, entry))
        run([CLANGXX, "-O1", "-w", "-fsanitize=address", e, "-x", "c", m, os.path.join(HERE, "rt/replay.c"), "-I" + os.path.join(HERE, "rt"), "-o", exe])
        return exe

def write_case(path, params, inputs, uf=(), table=False):
    with open(path, "w") as f:
        for k, v in params.items():
            f.write("P %s %d\n" % (k, v))
        if table:
            f.write("T\n")
        for n, h in inputs:
            f.write("I %s %s\n" % (n, h))
        for n, a, b in uf:
            f.write("U %s %s %s\n" % (n, a, b))

def exec_case(exe, case, timeout=30):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="exitcode=98:print_stacktrace=1", MSAN_OPTIONS="exitcode=97")
    try:
        p = subprocess.run([exe, case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", "", "timeout"
    out = p.stdout.decode(errors="replace"); err = p.stderr.decode(errors="replace")
    if p.returncode == 101: return "assert", out, err
    if p.returncode in (102, 103, 104): return "skip", out, err
    if p.returncode in (99, 98): return "memory", out, err
    if p.returncode == 97: return "uninit", out, err
    if p.returncode != 0: return "crash", out, err
    return "ok", out, err

def confirm(b, engine, job, res, err, prop, idx, bcs, outdir):
    """replay a counterexample against the native build; returns (how, case path) or None"""
    os.makedirs(outdir, exist_ok=True)
    case = os.path.join(outdir, "%s-%s-%d.case" % (prop, job["id"], idx))
    write_case(case, job["params"], err["inputs"], err["uf"])
    tried = []
    kinds = ["asan"] + (["plain", "msan"] if (err["uninit"] or err["kind"] == "assert") else [])
    for k in kinds:
        exe = b.native_exe(k, job["src"], job["entry"])
        r, out, er = exec_case(exe, case)
        tried.append((k, r))
        if r in (("hang", "memory", "crash") if err["kind"] == "hang" else ("assert", "memory", "crash", "hang", "uninit")):
            return "%s build: %s" % (k, r), case, (out + er)[-1500:]
    if job["stubs"]:
        write_case(case, job["params"], err["inputs"], err["uf"], table=True)
        exe = b.table_exe(engine, bcs[job["src"]], job["stubs"], job["entry"], "%s_%s" % (job["src"].replace(".", "_"), job["entry"]) + "_" + "_".join(job["stubs"]))
        r, out, er = exec_case(exe, case)
        tried.append(("table", r))
        if r in (("hang", "memory", "crash") if err["kind"] == "hang" else ("assert", "memory", "crash", "hang")):
            return "real code with the abstracted primitive(s) %s answering as the solver chose: %s" % (",".join(job["stubs"]), r), case, (out + er)[-1500:]
    log("   not reproduced:", tried)
    return None

def expand(prop, tier):
    import jobs
    out = []
    for j in jobs.JOBS.get(prop, []):
        for i, p in enumerate(j["params"](tier) if callable(j["params"]) else j["params"]):
            if j.get("tier", "quick") == "thorough" and tier == "quick":
                continue
            k = dict(j); k["params"] = p; k["id"] = j["name"] + ("" if not p else "-" + "_".join("%s%s" % kv for kv in sorted(p.items())))
            out.append(k)
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--job"); ap.add_argument("--evidence-dir", default=os.path.join(HERE, "evidence")); ap.add_argument("--keep", action="store_true"); ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(BUILD, exist_ok=True); print(build_engine()); return 0
    t0 = time.time(); tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    import jobs
    prop = a.prop
    os.makedirs(BUILD, exist_ok=True)
    engine = build_engine()
    js = expand(prop, tier)
    if a.job: js = [j for j in js if a.job in j["id"]]
    if not js: raise CheckError("no jobs for " + prop)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return go(a, prop, tier, engine, js, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: log("kept", work)

def go(a, prop, tier, engine, js, work, t0):
    import jobs
    b = Builder(work)
    bcs = b.bitcode(sorted(set(j["src"] for j in js)))
    log("[%s] %d jobs, bitcode built in %.1fs" % (prop, len(js), time.time() - t0))
    deadline = t0 + (820 if tier == "quick" else 3 * 3600)
    def one(j):
        out = os.path.join(work, j["id"] + ".json")
        bud = j.get("budget", 60 if tier == "quick" else 1800)
        bud = max(5, min(bud, deadline - time.time()))
        cmd = [engine, bcs[j["src"]], "--entry", j["entry"], "--out", out, "--budget", "%d" % bud] + j.get("flags", [])
        cmd += sum([["--param", "%s=%d" % kv] for kv in j["params"].items()], [])
        cmd += sum([["--intercept", i] for g in j["stubs"] for i in STUBS[g]], [])
        if a.trace: cmd.append("--trace")
        ts = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=bud + 120)
            err = p.stderr.decode(errors="replace")
            if os.environ.get("USYM_SLOW"): log(j["name"], err)
        except subprocess.TimeoutExpired as e:
            err = "engine did not stop within budget"; p = None
        if not os.path.exists(out):
            return j, None, err
        r = json.load(open(out)); r["wall"] = time.time() - ts
        return j, r, err
    results = []
    with cf.ThreadPoolExecutor(CPU) as ex:
        order = sorted(js, key=lambda j: -j.get("weight", 1))
        for j, r, err in ex.map(one, order):
            if r is None:
                log("  %-40s ENGINE: %s" % (j["id"], err.strip()[-300:]))
            else:
                log("  %-40s paths=%d q=%d solver=%.1fs wall=%.1fs asserts=%d errors=%d%s%s" % (j["id"], r["paths"], r["queries"], r["solver_s"], r["wall"], r["asserts_checked"], len(r["errors"]), "" if r["complete"] else " INCOMPLETE " + str(r["incomplete_why"]), (" trunc=%s" % r["truncated_why"]) if r["truncated"] else ""))
                if a.trace: log(err)
            results.append((j, r, err))
    # --- violations
    known = [l for l in open(os.path.join(HERE, "known-findings.txt")).read().splitlines() if l.startswith("known: ")] if os.path.exists(os.path.join(HERE, "known-findings.txt")) else []
    outdir = os.path.join(a.evidence_dir, "replay"); viol = []; unconf = []; knownhit = []
    for j, r, _ in results:
        if not r: continue
        for i, e in enumerate(r["errors"]):
            log("  ! %s: %s: %s\n      at %s" % (j["id"], e["kind"], e["msg"], e["stack"].replace("\n", "\n         ")))
            log("      inputs: %s" % str(e["inputs"])[:int(os.environ.get("VERIF_LONG", "400"))])
            kf = [k for k in known if "property=%s " % prop in k + " " and ("[%s]" % e["msg"]) in k]
            if kf:
                knownhit.append(kf[0]); continue
            if len(viol) >= 3: continue
            c = confirm(b, engine, j, r, e, prop, i, bcs, outdir)
            if c is None:
                unconf.append((j["id"], e)); continue
            how, case, text = c
            rep = case.replace(".case", ".json")
            json.dump({"property": prop, "job": j["id"], "harness": j["src"], "entry": j["entry"], "params": j["params"], "kind": e["kind"], "message": e["msg"], "where": e["loc"], "stack": e["stack"].splitlines(), "inputs": e["inputs"], "confirmed_by": how, "native_output": text, "case": case}, open(rep, "w"), indent=1)
            viol.append((j["id"], e, rep, how))
    # --- vacuity: every expected label must have been reached
    vac = []
    for j, r, _ in results:
        if r and r["complete"] and not r["errors"]:
            for l in j.get("expect", []):
                if l not in r["reached"]: vac.append((j["id"], l))
    # --- validate the encoding: replay assignments of completed paths natively
    validated = 0; mism = []; samples = []
    if not viol:
        byexe = {}
        for j, r, _ in results:
            if r:
                for n, s in enumerate([s for s in r["samples"] if not s["uninit"] and not (s["uf"] and j["stubs"])][:6]):
                    byexe.setdefault((j["src"], j["entry"]) + ((tuple(j["stubs"]),) if set(j["stubs"]) & {"opq", "toy", "eclog", "expo"} else ()), []).append((j, n, s))
        try:
            exes = {}
            if byexe:
                b.native_objs("plain")
                for k, x in zip(byexe, b.pool.map(lambda k: b.native_exe("plain", *k) if len(k) == 2 else b.table_exe(engine, bcs[k[0]], k[2], k[1], "val_%s_%s" % (k[0].replace(".", "_"), k[1])), list(byexe))): exes[k] = x
            def val(t):
                k, (j, n, s) = t
                case = os.path.join(work, "val_%s_%d.case" % (j["id"], n)); write_case(case, j["params"], s["inputs"], table=len(k) == 3)
                rr, out, er = exec_case(exes[k], case); lab = [l[6:] for l in out.splitlines() if l.startswith("REACH ")]
                return j, s, rr, lab, er
            for j, s, rr, lab, er in b.pool.map(val, [(k, t) for k in byexe for t in byexe[k]]):
                if rr == "ok" and lab == s["labels"]:
                    validated += 1
                    if len(samples) < 5 and s["inputs"]: samples.append({"job": j["id"], "inputs": s["inputs"], "labels": lab})
                else: mism.append((j["id"], rr, s["inputs"], s["labels"], lab, er[-500:]))
        except CheckError as e:
            log("validation build failed: %s" % e)
    for m in mism[:5]: log("  ~ encoding/native mismatch:", m)
    ok = [r for _, r, _ in results if r]
    S = lambda k: sum(r[k] for r in ok)
    complete = all(r and r["complete"] for _, r, _ in results)
    fns = sorted(set(f for r in ok for f in r["functions"]))
    lvl = jobs.META.get(prop, {}).get("level", "model_checking")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl, "wall_s": round(time.time() - t0, 2),
          "coverage": {"states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": validated, "samples": samples[:5] or [{"job": j["id"], "paths": r["paths"]} for j, r, _ in results if r][:3],
                       "technique": "symbolic execution of the LLVM IR of /repo's sources; every branch, memory access and assertion over symbolic inputs decided by Z3 (bit-vectors + uninterpreted functions)",
                       "explanation": "states = feasible symbolic paths (each a set of inputs), transitions = IR instructions interpreted; every path's assertions and memory accesses are decided by the solver for all inputs of the path",
                       "complete_within_bounds": complete, "jobs": [{"id": j["id"], "bounds": j.get("bounds", ""), "entry": j["entry"], "stubs": j["stubs"], **({k: r[k] for k in ("complete", "incomplete_why", "paths", "queries", "sat", "unsat", "unknown", "query_cache_hits", "solver_s", "max_query_s", "asserts_checked", "asserts_by_solver", "asserts_by_simplification", "safety_queries", "assume_killed", "truncated_why", "merges")} if r else {"complete": False, "engine": err[-200:]})} for j, r, err in results],
                       "queries_discharged": S("queries"), "solver_s": round(S("solver_s"), 2), "unknown_queries": S("unknown"), "functions_encoded": [f for f in fns if not f.startswith("std::") and "usym" not in f][:400], "functions_encoded_count": len(fns),
                       "vacuity_missing": vac, "encoding_mismatches": len(mism), "unconfirmed_counterexamples": [{"job": u[0], "msg": u[1]["msg"], "inputs": u[1]["inputs"]} for u in unconf]},
          "assumptions": jobs.META.get(prop, {}).get("assumptions", []) + jobs.COMMON_ASSUMPTIONS,
          "violations": len(viol)}
    ev["coverage"]["violations_found"] = [{"job": v[0], "message": v[1]["msg"], "replay": v[2]} for v in viol]
    os.makedirs(a.evidence_dir, exist_ok=True)
    json.dump(ev, open(os.path.join(a.evidence_dir, prop + ".json"), "w"), indent=1)
    for k in sorted(set(knownhit)): print("KNOWN-FINDING: " + k[len("known: "):])
    log("[%s] %s: jobs=%d paths=%d queries=%d solver=%.1fs validated=%d mismatches=%d unconfirmed=%d vacuity=%s complete=%s wall=%.1fs" % (prop, tier, len(results), S("paths"), S("queries"), S("solver_s"), validated, len(mism), len(unconf), vac, complete, time.time() - t0))
    if viol:
        for v in viol: print("VIOLATION property=%s replay=%s" % (prop, v[2]), "(%s: %s; confirmed: %s)" % (v[0], v[1]["msg"], v[3]))
        return 1
    if not ok: return 2
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("CHECK-ERROR", e); sys.exit(2)
