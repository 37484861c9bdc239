"""Running one check: symbolic execution jobs, replay of counterexamples, evidence."""
import json, os, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build
V = build.V

class Job:
    def __init__(self, h, name=None, params=None, covers=(), time=600, fake=True, extra=(), defs=(), incs=(), path_instr=20000000, solver_ms=120000, enum=300, samples=3, term=60, bounds="", max_errors=6, mem=3500, opts=()):
        self.__dict__.update(locals()); self.params = params or {}; self.name = name or (h + "".join(f"_{k}{v}" for k, v in self.params.items()))

def run_sx(job, td):
    bc = build.harness_ir(job.h, job.extra, job.fake, job.defs, job.incs)
    out = os.path.join(td, job.name + ".json")
    cmd = [build.engine(), bc, "--out", out, "--time", str(job.time), "--path-instr", str(job.path_instr), "--solver-ms", str(job.solver_ms), "--enum", str(job.enum), "--samples", str(job.samples), "--max-errors", str(job.max_errors), "--mem-mb", str(job.mem)] + list(job.opts)
    for k, v in job.params.items(): cmd += ["--param", f"{k}={v}"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=job.time + 120)
    except subprocess.TimeoutExpired:
        return {"fatal": "the executor did not finish within its time"}
    if r.returncode or not os.path.exists(out): return {"fatal": f"executor exit {r.returncode}: " + r.stdout.decode(errors="replace")[-1500:]}
    d = json.load(open(out)); d["job_wall"] = time.time() - t0; d["log"] = r.stdout.decode(errors="replace")[-500:]
    return d

def native(job, inputs, td, tag):
    exe = build.harness_native(job.h, job.extra, job.fake, job.defs, job.incs)
    f = os.path.join(td, f"{job.name}-{tag}.in")
    with open(f, "w") as o:
        for n, h in inputs: o.write(f"{n} {h}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=100000:malloc_fill_byte=165:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=1")
    try:
        r = subprocess.run([exe, f] + [f"{k}={v}" for k, v in job.params.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=job.term, env=env, cwd=td)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), f
    except subprocess.TimeoutExpired: return "timeout", "", "", f

def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={prop} "):
                # known: property=<id> job=<harness> [name=<job>] [loc=<part of the location>] [kind=<kind>] [func=<part of a stack frame>] msg=<exact text> :: description
                head, _, desc = l.partition(" :: ")
                d = dict(x.split("=", 1) for x in head[len("known: "):].split(" ") if "=" in x and not x.startswith("msg="))
                d["msg"] = head.split(" msg=", 1)[1] if " msg=" in head else None
                d["desc"] = desc; out.append(d)
    return out

def check(prop, jobs, tier, statement="", assumptions=(), budget=800, text=""):
    t0 = time.time(); td = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    rc = 0; viol = []; unconf = []; inconc = []; known_hit = []
    rd = os.path.join(V, "replay")
    for old in (os.listdir(rd) if os.path.isdir(rd) else []):
        if old.startswith(prop + "-"): os.unlink(os.path.join(rd, old))
    partial = []
    try:
        build.engine(); build.repo_ir()
        with ThreadPoolExecutor(8) as ex: # compile the harnesses first
            seen = {}
            for j in jobs: seen.setdefault((j.h, tuple(j.extra), j.fake, tuple(j.defs)), j)
            list(ex.map(lambda j: build.harness_ir(j.h, j.extra, j.fake, j.defs, j.incs), seen.values()))
        nat = ThreadPoolExecutor(1).submit(lambda: [build.harness_native(j.h, j.extra, j.fake, j.defs, j.incs) for j in seen.values()])
        with ThreadPoolExecutor(int(os.environ.get("VP_PAR", "8"))) as ex: res = list(ex.map(lambda j: run_sx(j, td), jobs))
        nat.result()
        known = known_findings(prop)
        validated = 0; samples = []; mism = []
        for j, r in zip(jobs, res):
            if "fatal" in r: inconc.append(f"{j.name}: {r['fatal']}"); continue
            conf_any = False
            for i, e in enumerate(r["errors"]):
                term = e["kind"] == "nonterm"
                code, so, se, f = native(j, e["inputs"], td, f"e{i}")
                confirmed = (code == "timeout") if term else (code == 1 and "SX-ASSERT-FAILED" in so) or code == 99 or (isinstance(code, int) and code not in (0, 1, 6, 7, 9)) or (code == 1 and "runtime error" in se)
                e["replay"] = {"code": code, "out": so[-300:], "err": se[-600:]}
                k = next((k for k in known if k.get("job") in (j.h, "*") and (k["msg"] is None or k["msg"] == e["msg"]) and (k.get("loc", "*") == "*" or k["loc"] in e["loc"]) and k.get("kind", "*") in ("*", e["kind"]) and (k.get("func", "") in ";".join(e["stack"])) and k.get("name", "*") in ("*", j.name)), None)
                if confirmed and k: known_hit.append((j, e, k)); conf_any = True
                elif confirmed: viol.append((j, e, f)); conf_any = True
                else: unconf.append((j, e))
            if r["incomplete"] and not conf_any: (partial if r["completed"] and all(c in r["covers"] for c in j.covers) else inconc).append(f"{j.name}: {r['incomplete']}")
            for c in j.covers:
                if c not in r["covers"] and not conf_any: inconc.append(f"{j.name}: the witness '{c}' was not reached (vacuous)")
            if not r["completed"] and not conf_any and not r["errors"]: inconc.append(f"{j.name}: no path was completed (vacuous)")
            for i, s in enumerate(r["samples"]):
                code, so, se, f = native(j, s["inputs"], td, f"s{i}")
                obs = [l.split(" ", 1)[1].rsplit(" ", 1) for l in so.splitlines() if l.startswith("SX-OBSERVE ")]
                good = code == 0 and [list(x) for x in s["observe"]] == [list(x) for x in obs]
                validated += good
                if not good: mism.append(f"{j.name} sample {i}: native exit {code}, observed {obs} expected {s['observe']} {so[-200:]} {se[-300:]}")
                if len(samples) < 6: samples.append({"job": j.name, "params": j.params, "inputs": s["inputs"][:40], "observed": s["observe"][:40]})
        for d in sorted({k["desc"] for j, e, k in known_hit}): print(f"KNOWN-FINDING: property={prop} {d}")
        for j, e, f in viol:
            os.makedirs(rd, exist_ok=True); dst = os.path.join(rd, f"{prop}-{j.name}-{len(os.listdir(rd))}.in"); shutil.copy(f, dst)
            with open(dst + ".txt", "w") as o: json.dump({"job": j.name, "harness": j.h, "params": j.params, "error": e}, o, indent=1)
            print(f"  {e['kind']}: {e['msg']} at {e['loc']} (harness {j.name})"); 
            for s in e["stack"][:6]: print("      " + s)
            print("      native replay: " + " ".join((e["replay"]["out"] + " " + e["replay"]["err"]).split())[:400])
            print(f"VIOLATION property={prop} replay={dst}")
        for j, e in unconf: print(f"note: candidate not confirmed by native replay: {j.name}: {e['kind']}: {e['msg']} at {e['loc']} (replay exit {e['replay']['code']})")
        for m in mism[:5]: print("note: engine/native difference: " + m)
        for m in partial: print("PARTIAL: " + m)
        for m in inconc: print("INCONCLUSIVE: " + m)
        # unconfirmed undefined behaviour is recorded, everything else unconfirmed means the answer is not trustworthy
        if viol: rc = 1
        elif inconc: rc = 2
        ok = [r for r in res if "fatal" not in r]
        tot = lambda k: sum(r.get(k, 0) for r in ok)
        funcs = sorted({f for r in ok for f in r["functions"]})
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": {"states": int(tot("instructions")), "transitions": int(tot("forks") + tot("completed")), "traces_validated_against_impl": validated,
                           "samples": [json.dumps(s) for s in samples] or ["none"],
                           "paths_completed": int(tot("completed")), "solver_queries": int(tot("queries")), "solver_unsat": int(tot("q_unsat")), "solver_sat": int(tot("q_sat")), "queries_answered_from_cache_or_model": int(tot("q_cache") + tot("q_model")), "solver_s": round(tot("solver_s"), 3), "solver_max_s": max([r["solver_max_s"] for r in ok] or [0]), "assertions_checked": int(tot("asserts")), "assertions_decided_by_solver": int(tot("assert_queries")),
                           "functions_encoded": funcs,
                           "jobs": [{"name": j.name, "params": j.params, "bounds": j.bounds, "paths": r.get("completed"), "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": round(r.get("job_wall", 0), 2), "covers": r.get("covers"), "incomplete": r.get("incomplete", r.get("fatal"))} for j, r in zip(jobs, res)],
                           "partial": partial, "unconfirmed_candidates": [f"{j.name}: {e['kind']}: {e['msg']} at {e['loc']}" for j, e in unconf], "native_mismatches": mism,
                           "explanation": "states = LLVM instructions executed symbolically; transitions = path forks and completed paths; samples are models of completed paths replayed natively against the sanitized build of the same sources"},
              "assumptions": list(assumptions) or ["bounds of the jobs listed under coverage.jobs"], "wall_s": round(time.time() - t0, 2),
              "violations": len(viol)}
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
        print(f"{prop}: {len(jobs)} jobs, {int(tot('completed'))} paths, {int(tot('queries'))} queries ({tot('solver_s'):.1f}s solver), {validated} traces validated natively, {time.time()-t0:.1f}s -> exit {rc}")
        return rc
    except build.BuildError as e:
        print("BUILD FAILED: " + str(e)); return 2
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(td, ignore_errors=True)
        else: print("kept " + td)
