#!/usr/bin/env python3
"""
check.py ID [--tier quick|thorough] [--job NAME] [--keep] [-v]

Decides one property of libglibutil by bounded symbolic execution of the real
sources in /repo (CBMC: goto-cc front end, SAT back end).

For every job (harness function + compile-time parameters) of the property:
  1. the current sources of /repo are compiled with goto-cc together with the
     harness (harness/*.c) and the environment models (models/*.c);
  2. cbmc decides every assertion of the harness, memory safety of every
     access and complete unwinding of every loop for all inputs in the bound;
     "reach" markers must be reachable (vacuity guard);
  3. for a failed assertion the solver's assignment is turned into an input
     list and run against the natively compiled real code (ASan build and a
     heap balance build, real GLib). Only what reproduces is reported.

Exit 0: held. Exit 1: VIOLATION line. Exit 2: could not be decided.
"""
import sys, os, json, subprocess, time, tempfile, shutil, re, hashlib, shlex
from concurrent.futures import ThreadPoolExecutor
import threading, resource

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
import config

NPROC = os.cpu_count() or 4
MEM_MB = 7000
CFLAGS_VER = ["-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32",
              "-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED"]
# Calls instead of what the headers of GLib expand to (string functions)
HEADER_FLAGS = ["-D__GTK_DOC_IGNORE__"]
CBMC_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
              "--div-by-zero-check", "--unwinding-assertions",
              "--no-malloc-may-fail", "--drop-unused-functions",
              "--object-bits", "12", "--json-ui", "--verbosity", "8"]

def pkg(*a):
    return subprocess.run(["pkg-config", *a], capture_output=True, text=True, check=True).stdout.split()

GCFLAGS = pkg("--cflags", "glib-2.0", "gobject-2.0")
GLIBS = pkg("--libs", "glib-2.0", "gobject-2.0")

verbose = False
def log(*a):
    if verbose: print(*a, file=sys.stderr, flush=True)

class Undecided(Exception): pass

import ctypes
LIBC = ctypes.CDLL(None)
def limit():
    LIBC.prctl(1, 9)    # Don't outlive the check
    resource.setrlimit(resource.RLIMIT_AS, (MEM_MB << 20, MEM_MB << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

running, running_lock, stopping = set(), threading.Lock(), threading.Event()
def stop_all():
    """One violation is enough"""
    stopping.set()
    with running_lock:
        for p in running: p.kill()

def run(cmd, timeout=None, lim=False, cwd=None, env=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=limit if lim else None, start_new_session=True)
    if lim:
        with running_lock: running.add(p)
        if stopping.is_set(): p.kill()
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        out, err, rc = b"", b"", "timeout"
    finally:
        with running_lock: running.discard(p)
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t

class Builder:
    """Compiles objects once per run."""
    def __init__(self, tmp):
        self.tmp, self.lock, self.done = tmp, threading.Lock(), {}
    def get(self, key, fn):
        with self.lock:
            if key not in self.done:
                self.done[key] = [threading.Lock(), None, None]
            ent = self.done[key]
        with ent[0]:
            if ent[1] is None and ent[2] is None:
                try: ent[1] = fn()
                except Exception as e: ent[2] = e
        if ent[2] is not None: raise ent[2]
        return ent[1]
    def goto_obj(self, src, defs):
        defs = tuple(defs)
        def fn():
            h = hashlib.sha1((src + " ".join(defs)).encode()).hexdigest()[:12]
            out = f"{self.tmp}/{os.path.basename(src)}.{h}.gb"
            cmd = ["goto-cc", "-c", "-DVF_CBMC", f"-I{VERIF}/models", f"-I{REPO}/include", f"-I{REPO}/src",
                   *(CFLAGS_VER + HEADER_FLAGS if src.startswith(REPO) else []), *GCFLAGS, *defs, src, "-o", out]
            rc, o, e, t = run(cmd, timeout=120)
            if rc != 0: raise Undecided(f"goto-cc {src}: {e[-2000:]}{o[-500:]}")
            return out
        return self.get(("g", src, defs), fn)
    def native_obj(self, src, defs, flags):
        defs, flags = tuple(defs), tuple(flags)
        def fn():
            h = hashlib.sha1((src + " ".join(defs + flags)).encode()).hexdigest()[:12]
            out = f"{self.tmp}/{os.path.basename(src)}.{h}.o"
            cmd = ["gcc", "-c", "-g", "-O1", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE", f"-I{VERIF}/models", f"-I{REPO}/include", f"-I{REPO}/src",
                   *(CFLAGS_VER if src.startswith(REPO) else []), *GCFLAGS, *flags, *defs, src, "-o", out]
            rc, o, e, t = run(cmd, timeout=120)
            if rc != 0: raise Undecided(f"gcc {src}: {e[-2000:]}")
            return out
        return self.get(("n", src, defs, flags), fn)

def job_sources(job):
    mods = job.get("srcs", [])
    srcs = [f"{REPO}/src/gutil_{m}.c" for m in mods]
    return srcs

def lib_defs(job):
    d = ["-DDEBUG"] if job.get("debug") else []
    if job.get("libinclude"): d += ["-include", f"{VERIF}/models/{job['libinclude']}"]
    return d

def harness_defs(job):
    d = [f"-D{k}={v}" for k, v in sorted(job.get("defs", {}).items())]
    if job.get("debug"): d.append("-DDEBUG")
    return d

ALL_MODELS = None
def models():
    return sorted(os.path.join(VERIF, "models", f) for f in os.listdir(f"{VERIF}/models") if f.endswith(".c"))

def goto_parts(job):
    """(source, defines) of everything that goes into the encoding of a job"""
    parts = [(s, tuple(lib_defs(job))) for s in job_sources(job)]
    mdefs = []
    if "log" in job.get("srcs", []): mdefs.append("-DVF_REAL_LOG")
    if "misc" in job.get("srcs", []): mdefs.append("-DVF_REAL_MISC")
    mdefs += [f"-D{k}={v}" for k, v in sorted(job.get("mdefs", {}).items())]
    parts += [(m, tuple(mdefs)) for m in models()]
    return parts + [(f"{VERIF}/harness/{job['file']}.c", tuple(harness_defs(job)))]

def build_goto(b, job):
    objs = [b.goto_obj(s, d) for s, d in goto_parts(job)]
    def fn():
        out = f"{b.tmp}/{job['name']}.gb"
        rc, o, e, t = run(["goto-cc", "-o", out, "--function", job["func"], *objs], timeout=120)
        if rc != 0: raise Undecided(f"goto-cc link {job['name']}: {e[-2000:]}{o[-1000:]}")
        return out
    return b.get(("link", job["name"]), fn)

def cbmc(gb, job, unwind, extra=(), timeout=None):
    flags = list(CBMC_FLAGS)
    if job.get("object_bits"):
        flags[flags.index("--object-bits") + 1] = str(job["object_bits"])
    cmd = ["cbmc", gb, *flags, "--unwind", str(unwind), *job.get("flags", []), *extra]
    for k in job.get("unwindset", []): cmd += ["--unwindset", k]
    rc, out, err, t = run(cmd, timeout=timeout, lim=True)
    if rc == "timeout": raise Undecided(f"{job['name']}: cbmc exceeded {timeout} s")
    try:
        data = json.loads(out)
    except ValueError:
        raise Undecided(f"{job['name']}: cbmc output unreadable (exit {rc}, out of memory?): {err[-500:]}{out[-300:]}")
    return rc, data, t

def cut(gb, names):
    """The same program with these functions doing nothing"""
    out = gb + ".cut"
    cmd = ["goto-instrument"]
    for n in names: cmd += ["--remove-function-body", n]
    rc, o, e, t = run([*cmd, gb, out + "1"], timeout=120)
    if not rc: rc, o, e, t = run(["goto-instrument", "--generate-function-body", "|".join(names), "--generate-function-body-options", "nondet-return", out + "1", out], timeout=120)
    if rc: raise Undecided(f"goto-instrument: {e[-1000:]}{o[-500:]}")
    return out

def parse(data):
    res = {"props": {}, "solver_s": 0.0, "nobody": set(), "steps": 0, "vccs": 0, "remaining": 0, "queries": 0, "vars": 0, "clauses": 0, "errors": []}
    for m in data:
        if "result" in m:
            for r in m["result"]:
                res["props"][r["property"]] = r
        t = m.get("messageText", "")
        if not t: continue
        x = re.match(r"Runtime Solver: ([\d.e+-]+)s", t)
        if x: res["solver_s"] += float(x[1]); res["queries"] += 1
        x = re.match(r"size of program expression: (\d+) steps", t)
        if x: res["steps"] = int(x[1])
        x = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if x: res["vccs"], res["remaining"] = int(x[1]), int(x[2])
        x = re.match(r"(\d+) variables, (\d+) clauses", t)
        if x: res["vars"], res["clauses"] = max(res["vars"], int(x[1])), max(res["clauses"], int(x[2]))
        x = re.match(r"\*\*\*\* WARNING: no body for function (\S+)", t)
        if x: res["nobody"].add(x[1])
        if m.get("messageType") == "ERROR": res["errors"].append(t)
    return res

def is_reach(r): return r.get("description", "").startswith("reach: ")
def is_unwind(r): return ".unwind." in r["property"] or "unwinding assertion" in r.get("description", "") or ".recursion" in r["property"]

def inputs_of(trace):
    vals = []
    for s in trace:
        if s.get("stepType") == "input" and s.get("inputID") == "vf":
            v = s["values"][0]
            if "binary" in v: vals.append(int(v["binary"], 2))
            else: vals.append(int(re.sub(r"[a-zA-Z]+$", "", v.get("data", "0"))) & (2**64 - 1))
    return vals

NATIVE = {"asan": ["-fsanitize=address", "-fsanitize=bounds,null,integer-divide-by-zero", "-fno-sanitize-recover=all"],
          "plain": ["-DVF_COUNT_MALLOC"],
          "rel": [],
          # The library with a hook before each memory access, native/conc_native.c
          "coop": []}

def build_native(b, job, kind):
    flags = NATIVE[kind]
    if kind == "rel": flags = ["-O2", "-DVF_COUNT_MALLOC"]
    def fn():
        objs = [b.native_obj(s, lib_defs(job), flags + (["-fsanitize=thread"] if kind == "coop" else [])) for s in job_sources(job)]
        have = set(job.get("srcs", []))
        nat = [f"{VERIF}/native/{n}.c" for n in job.get("native", [])]
        if "log" not in have: nat.append(f"{VERIF}/native/log_stub.c")
        for n in nat: objs.append(b.native_obj(n, harness_defs(job), flags))
        objs.append(b.native_obj(f"{VERIF}/native/vf_native.c", [f"-DVF_HARNESS={job['func']}"], flags))
        objs.append(b.native_obj(f"{VERIF}/harness/{job['file']}.c", harness_defs(job), flags))
        out = f"{b.tmp}/{job['name']}.{kind}"
        san = [f for f in flags if f.startswith("-fsan")]
        rc, o, e, t = run(["gcc", "-g", "-o", out, *san, *objs, *GLIBS, *job.get("ldflags", []), "-lpthread"], timeout=120)
        if rc != 0: raise Undecided(f"native link {job['name']}: {e[-2000:]}")
        return out
    return b.get(("nlink", job["name"], kind), fn)

def native_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GUTIL_") or k.startswith("G_"): del e[k]
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048",
              "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98", "G_DEBUG": "fatal-criticals", "G_SLICE": "always-malloc", "LC_ALL": "C"})
    return e

def run_native(exe, args, timeout=25):
    d = tempfile.mkdtemp(prefix="vfrun")
    try:
        rc, o, e, t = run([exe, *args], timeout=timeout, env=native_env(), cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc, (o[-2000:] + e[-4000:])

def replay(b, job, vals):
    """(confirmed, description)"""
    path = f"{b.tmp}/{job['name']}.{hashlib.sha1(str(vals).encode()).hexdigest()[:8]}.in"
    with open(path, "w") as f: f.write("\n".join(map(str, vals)) + "\n")
    notes = []
    for kind in job.get("kinds", ["asan", "plain", "rel"]):
        exe = build_native(b, job, kind)
        rc, text = run_native(exe, [path])
        notes.append(f"[{kind}] exit {rc}: {text[-1500:]}")
        if rc == 77: return False, "\n".join(notes)
        if rc not in (0, 78): return True, "\n".join(notes)
    return False, "\n".join(notes)

def do_job(b, job, tier, deadline):
    t0 = time.time()
    res = {"job": job["name"], "func": job["func"], "params": job.get("defs", {}), "debug_build": bool(job.get("debug"))}
    gb = build_goto(b, job)
    res["compile_s"] = round(time.time() - t0, 2)
    unwind = job["unwind"]
    tmo = lambda: max(10, min(job.get("timeout", 600), deadline - time.time()))
    tries = 0
    while True:
        rc, data, t = cbmc(gb, job, unwind, timeout=tmo())
        r = parse(data)
        if not r["props"] and job.get("cut") and not res.get("cut") and any("concurrency is unsound" in e for e in r["errors"]):
            # Pointers are written while the threads run, which cbmc doesn't
            # handle: without what the job says it doesn't depend on
            res["cut"] = job["cut"]
            gb = cut(gb, job["cut"])
            continue
        if not r["props"]:
            raise Undecided(f"{job['name']}: cbmc exit {rc}, no result: {' | '.join(r['errors'])[-800:]}")
        res.update(unwind=unwind, cbmc_s=round(t, 2), solver_s=round(r["solver_s"], 3), queries=r["queries"], vccs=r["vccs"],
                   vccs_solved=r["remaining"], properties=len(r["props"]), program_steps=r["steps"],
                   variables=r["vars"], clauses=r["clauses"], no_body=sorted(r["nobody"]))
        st = {}
        for p in r["props"].values(): st.setdefault(p["status"], []).append(p)
        fails = [p for p in st.get("FAILURE", []) if not is_reach(p)]
        # Findings that are listed: this assertion of this job
        for k in job.get("known", []):
            hit = [p for p in fails if p.get("description") == "vf: " + k["assertion"]]
            if hit:
                fails = [p for p in fails if p not in hit]
                res.setdefault("known", []).append(k["what"])
        reach = [p for p in r["props"].values() if is_reach(p)]
        dead = [p for p in reach if p["status"] != "FAILURE"]
        res["reach"] = {"markers": len(reach), "reached": len(reach) - len(dead)}
        if not fails:
            bad = [s for s in st if s not in ("SUCCESS", "FAILURE")]
            if bad: raise Undecided(f"{job['name']}: {len(st[bad[0]])} properties {bad[0]}")
            if dead or not reach:
                raise Undecided(f"{job['name']}: vacuous, unreached: {[p['description'] for p in dead]}")
            return res
        # Counterexamples: replay against the real code
        log(f"{job['name']}: failing: {[(p['property'], p.get('description')) for p in fails][:8]}")
        def rank(p):
            d = p.get("description", "")
            return 3 if is_unwind(p) else 0 if d.startswith("vf: ") else 1
        fails.sort(key=rank)
        notes = []
        pick = fails[:4] + [p for p in fails[6:] if is_unwind(p)][:2]
        extra = ["--trace"]
        for p in pick: extra += ["--property", p["property"]]
        _, data2, t2 = cbmc(gb, job, unwind, extra, timeout=tmo())
        r2 = parse(data2)
        res["solver_s"] = round(res["solver_s"] + r2["solver_s"], 3)
        for p in pick:
            q = r2["props"].get(p["property"])
            if not q or "trace" not in q: continue
            vals = inputs_of(q["trace"])
            ok, text = replay(b, job, vals)
            notes.append(f"{p['property']} ({p.get('description')}): inputs {vals[:60]}: {'reproduced' if ok else 'not reproduced'}\n{text}")
            if ok:
                loc = p.get("sourceLocation", {})
                res["violation"] = {"job": job["name"], "harness": f"harness/{job['file']}.c:{job['func']}", "assertion": p.get("description"),
                    "at": f"{loc.get('file','?')}:{loc.get('line','?')} {loc.get('function','')}",
                    "inputs": vals, "replay_output": text, "defs": job.get("defs", {}), "debug": bool(job.get("debug"))}
                return res
        if all(is_unwind(p) for p in fails) and tries < 2:
            tries += 1
            unwind = unwind * 2
            log(f"{job['name']}: unwinding bound too small, trying {unwind}")
            continue
        raise Undecided(f"{job['name']}: counterexample(s) not reproduced on the real code:\n" + "\n".join(notes)[-6000:])

def repo_functions(b, job):
    try: gb = build_goto(b, job)
    except Undecided: return set()
    rc, o, e, t = run(["cbmc", gb, "--show-goto-functions", "--json-ui", "--drop-unused-functions", "--verbosity", "2"], timeout=60)
    out = set()
    try:
        for m in json.loads(o):
            for f in m.get("functions", []):
                if not f.get("isBodyAvailable"): continue
                ins = f.get("instructions") or []
                files = {i.get("sourceLocation", {}).get("file", "") for i in ins}
                if any(x.startswith(REPO + "/src/") for x in files): out.add(f["name"].split("$")[0])
    except ValueError: pass
    return out

def main():
    global verbose
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=None)
    ap.add_argument("--job"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--native", type=int, default=0, help="also run N random inputs natively")
    a = ap.parse_args()
    verbose = a.v
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    prop = config.PROPS[a.id]
    jobs = [j for j in prop["jobs"](tier) if not a.job or j["name"] == a.job or j["name"].startswith(a.job + ".")]
    assert jobs, "no such job"
    assert len({j["name"] for j in jobs}) == len(jobs), "duplicate job names"
    tmp = tempfile.mkdtemp(prefix=f"vf{a.id}")
    b = Builder(tmp)
    known = [k for k in config.known(VERIF) if k["property"] == a.id and k.get("status") == "known"]
    for j in jobs: j["known"] = [k for k in known if k["job"] == j["name"]]
    results, undecided, violations = [], [], []
    def one(job):
        if stopping.is_set(): return None
        try:
            r = do_job(b, job, tier, deadline)
            if r.get("violation") and tier == "quick": stop_all()
            log(f"{job['name']}: ok={not r.get('violation')} {r.get('cbmc_s')}s solver {r.get('solver_s')}s props {r.get('properties')} steps {r.get('program_steps')}{' NOBODY ' + str(r['no_body']) if r.get('no_body') else ''}")
            return r
        except Undecided as e:
            if stopping.is_set(): return None
            log(f"UNDECIDED {e}")
            return {"job": job["name"], "undecided": str(e)}
    try:
        def pre(part):
            try: b.goto_obj(*part)
            except Undecided: pass
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(pre, {p: 1 for j in jobs for p in goto_parts(j)}))
        order = sorted(jobs, key=lambda j: -j.get("cost", 1))
        with ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(one, order):
                if r is None: continue
                results.append(r)
                if r.get("violation"): violations.append(r["violation"])
                if r.get("undecided"): undecided.append(r)
        fns = set()
        native = {"runs": 0, "applicable": 0}
        if not violations:
            seen = set()
            uniq = [j for j in jobs if not ((j["file"], j["func"]) in seen or seen.add((j["file"], j["func"])))]
            with ThreadPoolExecutor(NPROC) as ex:
                for s in ex.map(lambda j: repo_functions(b, j), uniq): fns |= s
            nrand = a.native or (prop.get("native_runs", 40) if tier == "thorough" else 0)
            if nrand:
                # Cross-validation of harness and models on the real code
                def nat(job):
                    if job["known"]: return 0, None
                    exe = build_native(b, job, job.get("kinds", ["asan"])[0])
                    app = 0; bad = None
                    for i in range(nrand):
                        rc, text = run_native(exe, ["-", str(seed * 1000 + i)])
                        if rc == 0: app += 1
                        elif rc not in (77, 78):
                            bad = f"{job['name']} random seed {seed*1000+i}: exit {rc} {text}"; break
                    return app, bad
                with ThreadPoolExecutor(NPROC) as ex:
                    for app, bad in ex.map(nat, jobs):
                        native["runs"] += nrand; native["applicable"] += app
                        if bad: undecided.append({"job": "native cross-check", "undecided": bad})
        wall = round(time.time() - t0, 2)
        done = [r for r in results if not r.get("undecided")]
        cov = {
            "explanation": "Bounded symbolic execution (CBMC, SAT) of the current sources under /repo/src; every assertion decided for all inputs within the bounds of each harness. " + prop.get("bounds", ""),
            "bounds": prop.get("bounds", ""),
            "functions_encoded": sorted(fns),
            "harness_jobs": len(jobs), "harness_jobs_decided": len(done),
            "assertions_decided": sum(r.get("properties", 0) - r.get("reach", {}).get("markers", 0) for r in done),
            "vccs": sum(r.get("vccs", 0) for r in done),
            "vccs_sent_to_solver": sum(r.get("vccs_solved", 0) for r in done),
            "solver_queries": sum(r.get("queries", 0) for r in done),
            "solver_seconds": round(sum(r.get("solver_s", 0) for r in done), 3),
            "program_steps": sum(r.get("program_steps", 0) for r in done),
            "vacuity_markers_reached": sum(r.get("reach", {}).get("reached", 0) for r in done),
            "native_cross_check": native,
            "known_findings": [w for r in done for w in r.get("known", [])],
            "jobs": [{k: r[k] for k in ("job", "params", "unwind", "properties", "queries", "solver_s", "cbmc_s", "variables", "clauses", "no_body", "cut", "undecided") if k in r and r[k] not in ([], {})} for r in results][:150],
        }
        ev = {"property": a.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": config.COMMON_ASSUMPTIONS + prop.get("assumptions", []), "wall_s": wall, "violations": len(violations)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            cov["jobs"] = cov["jobs"][:40]; text = json.dumps(ev, indent=1)
        if not a.job:
            with open(f"{VERIF}/evidence/{a.id}.json", "w") as f: f.write(text + "\n")
        if violations:
            os.makedirs(f"{VERIF}/out", exist_ok=True)
            for v in violations[:1]:
                path = f"{VERIF}/out/{a.id}-{v['job']}.json"
                v["how_to_replay"] = f"python3 {VERIF}/tools/replay.py {path}"
                v["property"] = a.id
                with open(path, "w") as f: json.dump(v, f, indent=1)
                print(f"{v['assertion']} at {v['at']}\ninputs: {v['inputs'][:40]}\n{v['replay_output'][-1500:]}")
                print(f"VIOLATION property={a.id} replay={path}")
            return 1
        if undecided:
            for u in undecided: print(f"UNDECIDED {u['job']}: {u['undecided'][:3000]}")
            return 2
        for r in done:
            for w in r.get("known", []): print(f"KNOWN-FINDING: property={a.id} {w}")
        print(f"{a.id} held: {len(done)} jobs, {cov['assertions_decided']} assertions, {cov['solver_queries']} queries, solver {cov['solver_seconds']} s, wall {wall} s")
        return 0
    finally:
        if a.keep: print("kept", tmp, file=sys.stderr)
        else: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
