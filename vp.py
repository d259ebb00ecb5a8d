#!/usr/bin/env python3
"""Solver-based checks of libmbus.

  vp.py check <ID>            decide one property (VERIF_TIER, VERIF_SEED)
  vp.py replay <file.json>    replay a counterexample against /repo's sources
  vp.py list

Every query compiles /repo's current C sources together with a harness into one
goto program, lets CBMC execute it symbolically and asks the SAT/SMT back end
for an assignment of the harness's symbolic input that violates an assertion.
A satisfying assignment is turned into an ordinary native run of the same
harness linked with the same sources (gcc, ASan+UBSan); only what reproduces
there is reported as a violation.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VP_JOBS", "8"))
MEM = 7 << 30

CC_FLAGS = ["-D__NO_CTYPE", "-include", os.path.join(LIB, "vp_env.h"),
            "-I", REPO, "-I", os.path.join(LIB, "inc", "mbus"), "-I", LIB, "-w"]
NATIVE = ["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class Q:
    """One solver query: a harness, its compile-time parameters, its bounds."""
    def __init__(self, name, src, defs=None, unwind=8, unwindset=None, timeout=300, flags=(),
                 stubs=(), checks=True, solver="cadical", bounds="", lib=None, replay_timeout=20,
                 libdefs=None, retry_unwind=None, reach=True, hunwind=None):
        self.name, self.src, self.defs, self.unwind = name, src, dict(defs or {}), unwind
        self.timeout, self.flags, self.stubs, self.checks = timeout, list(flags), tuple(stubs), checks
        self.solver, self.bounds, self.lib = solver, bounds, lib
        self.unwindset = unwindset
        self.replay_timeout = replay_timeout
        self.libdefs = dict(libdefs or {})
        self.retry_unwind = retry_unwind
        self.reach = reach
        # unwinding bound of the harness's and the models' own loops (default: as the library's)
        self.hunwind = hunwind


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


_procs = set()
_plock = threading.Lock()


def run(cmd, timeout, limit=True, env=None, cwd=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits if limit else os.setsid, env=env, cwd=cwd)
    with _plock:
        _procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    finally:
        with _plock:
            _procs.discard(p)
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "mbus", "*.c")))


class Build:
    """Objects of /repo's current sources, per (tool, extra defines, stubs)."""
    def __init__(self, tmp):
        self.tmp, self.lock, self.cache = tmp, threading.Lock(), {}

    def objs(self, native, libdefs, stubs, fill=None, only=None):
        key = (native, tuple(sorted(libdefs.items())), tuple(stubs), fill, tuple(only or ()))
        with self.lock:
            if key in self.cache:
                return self.cache[key]
            d = os.path.join(self.tmp, "lib%d" % len(self.cache))
            os.mkdir(d)
            outs = []
            for s in lib_sources():
                if only and os.path.basename(s)[:-2] not in only:
                    continue
                o = os.path.join(d, os.path.basename(s)[:-2] + (".o" if native else ".gb"))
                defs = ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in libdefs.items()]
                if native:
                    cmd = NATIVE + nfill(fill) + ["-c", s, "-o", o] + CC_FLAGS + defs
                else:
                    cmd = ["goto-cc", "-DVP_ENC", "-c", s, "-o", o] + CC_FLAGS + defs
                rc, out, err, _ = run(cmd, 300, limit=False)
                if rc != 0:
                    raise RuntimeError("cannot compile %s: %s" % (s, (out + err)[-2000:]))
                if stubs:
                    if native:
                        args = sum([["--weaken-symbol=" + f] for f in stubs], [])
                        cmd = ["objcopy"] + args + [o]
                    else:
                        args = sum([["--remove-function-body", f] for f in stubs], [])
                        cmd = ["goto-instrument"] + args + [o, o]
                    rc, out, err, _ = run(cmd, 300, limit=False)
                    if rc != 0:
                        raise RuntimeError("cannot stub in %s: %s" % (s, (out + err)[-2000:]))
                outs.append(o)
            self.cache[key] = outs
            return outs


def nfill(fill):
    return ["-DVP_FILL=0x%02X" % fill, "-ftrivial-auto-var-init=" + ("zero" if fill == 0 else "pattern")] if fill is not None else []


def defflags(q):
    return ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in q.defs.items()]


def compile_query(q, build, d):
    gb = os.path.join(d, "q.gb")
    objs = build.objs(False, q.libdefs, q.stubs, only=q.lib)
    cmd = ["goto-cc", "-DVP_ENC", os.path.join(HARN, q.src), "-o", gb] + CC_FLAGS + defflags(q) + objs
    rc, out, err, _ = run(cmd, 300, limit=False)
    if rc != 0:
        raise RuntimeError("cannot link %s: %s" % (q.name, (out + err)[-3000:]))
    return gb


def harness_loops(gb):
    """Identifiers of the loops that are not in /repo's sources."""
    rc, out, err, _ = run(["goto-instrument", "--show-loops", "--json-ui", gb], 120)
    ids = []
    try:
        for m in json.loads(out):
            for l in m.get("loops", []):
                if not l.get("sourceLocation", {}).get("file", "").startswith(REPO):
                    ids.append(l["name"])
    except Exception:
        pass
    return ids


def cbmc_cmd(q, gb, unwind):
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--unwinding-assertions", "--drop-unused-functions",
           "--no-malloc-may-fail", "--slice-formula", "--object-bits", "12", "--verbosity", "8", "--unwind", str(unwind)]
    us = ["%s:%d" % (l, max(q.hunwind, unwind)) for l in harness_loops(gb)] if q.hunwind else []
    if q.unwindset:
        us.append(q.unwindset)
    if us:
        cmd += ["--unwindset", ",".join(us)]
    if not q.checks:
        cmd += ["--no-standard-checks", "--unwinding-assertions"]
    if q.solver in ("z3", "cvc5"):
        cmd += ["--" + q.solver]
    elif q.solver and q.solver != "minisat":
        cmd += ["--sat-solver", q.solver]
    return cmd + q.flags


def leaves(path, v, out):
    """Flatten a CBMC JSON value into assignments to scalar members."""
    if not isinstance(v, dict):
        return
    if "members" in v:
        for m in v["members"]:
            if not m["name"].startswith("$"):
                leaves(path + "." + m["name"], m["value"], out)
    elif "elements" in v:
        for e in v["elements"]:
            leaves("%s[%d]" % (path, e["index"]), e["value"], out)
    elif "binary" in v:
        out[path] = "%dULL" % int(v["binary"], 2)
    elif str(v.get("data", "")).upper() in ("TRUE", "FALSE"):
        out[path] = "1" if v["data"].upper() == "TRUE" else "0"


def input_of(trace):
    """The value the solver gave to the harness's input struct, as C statements."""
    out = {}
    for s in trace:
        if s.get("stepType") != "assignment":
            continue
        lhs = s.get("lhs", "")
        if not (lhs == "IN" or lhs.startswith("IN.")) or "$" in lhs:
            continue
        leaves(re.sub(r"\[(\d+)[a-z]*\]", r"[\1]", lhs), s.get("value"), out)
    return " ".join("%s=%s;" % kv for kv in out.items() if kv[1] != "0ULL")


def parse_out(out):
    try:
        msgs = json.loads(out)
    except Exception:
        return None
    res, st = None, {"steps": 0, "vccs": 0, "variables": 0, "clauses": 0, "solver_s": 0.0}
    err = []
    for m in msgs:
        if "result" in m:
            res = m["result"]
        t = m.get("messageText", "")
        g = re.search(r"size of program expression: (\d+) steps", t)
        if g: st["steps"] += int(g[1])
        g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if g: st["vccs"] += int(g[2])
        g = re.search(r"(\d+) variables, (\d+) clauses", t)
        if g:
            st["variables"] = max(st["variables"], int(g[1]))
            st["clauses"] = max(st["clauses"], int(g[2]))
        g = re.search(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", t)
        if g and "Solver" in t: st["solver_s"] += float(g[1])
        if m.get("messageType") == "ERROR":
            err.append(t)
    return res, st, err


def replay_native(q, build, init, d, tag, fills=(0xA5, 0x00)):
    """Run the harness natively on one assignment. -> (verdict, detail)
    verdict: fail | pass | reject | hang | error"""
    inc = os.path.join(d, "in_%s.inc" % tag)
    open(inc, "w").write(init + "\n")
    last = ("error", "")
    for fill in fills:
        exe = os.path.join(d, "n_%s_%02x" % (tag, fill))
        objs = build.objs(True, q.libdefs, q.stubs, fill, only=q.lib)
        cmd = NATIVE + nfill(fill) + [os.path.join(HARN, q.src), "-o", exe] + CC_FLAGS + defflags(q) + \
            ["-DVP_INPUT_FILE=\"%s\"" % inc] + objs + ["-lm"]
        rc, out, err, _ = run(cmd, 300, limit=False)
        if rc != 0:
            return "error", "native build failed: " + (out + err)[-1500:]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
                   UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
        rc, out, err, _ = run([exe], q.replay_timeout, limit=False, env=env)
        os.unlink(exe)
        txt = (out + err)
        if rc == "timeout":
            return "hang", "no answer within %ds" % q.replay_timeout
        if rc == 77:
            last = ("reject", out.strip()[-300:])
            continue
        if rc != 0:
            key = [l for l in txt.splitlines() if "VP-FAIL" in l or "runtime error" in l or "ERROR: Addr" in l
                   or "Assertion" in l or "SUMMARY" in l]
            return "fail", (" | ".join(key) or txt[-500:])[:700]
        last = ("pass", " ".join(l for l in out.splitlines() if l.startswith("VP-REACH"))[:300])
    return last


def decide(q, build, tmp, prop):
    """-> dict with status ok | violation | inconclusive | vacuous"""
    d = tempfile.mkdtemp(dir=tmp)
    r = {"query": q.name, "harness": q.src, "bounds": q.bounds, "unwind": q.unwind, "status": "inconclusive",
         "notes": [], "stats": {}, "functions": [], "obligations": 0, "violations": [], "validated": 0, "sample": None}
    t0 = time.time()
    try:
        gb = compile_query(q, build, d)
        unwind = q.unwind
        for attempt in range(2):
            left = q.timeout - (time.time() - t0)
            rc, out, err, dt = run(cbmc_cmd(q, gb, unwind), max(20, left))
            if os.environ.get("VP_KEEP"):
                open("/tmp/vp_%s.json" % q.name, "w").write(out)
            if rc == "timeout":
                r["notes"].append("no answer within %ds" % q.timeout)
                return r
            po = parse_out(out)
            if po is None or po[0] is None:
                r["notes"].append("cbmc ended with %s: %s" % (rc, (po[2] if po else (out + err)[-300:])))
                return r
            res, st, _ = po
            unw = [p for p in res if p["status"] == "FAILURE" and ".unwind." in p["property"]]
            if unw and attempt == 0:
                # a bound that is too small may be a loop that got longer, or one that never ends
                r["notes"].append("unwinding bound %d too small at %s" % (unwind, ", ".join(sorted({p["property"] for p in unw}))[:200]))
                for p in unw[:2]:
                    v, det = replay_native(q, build, input_of(p.get("trace", [])), d, "u")
                    if v in ("hang", "fail"):
                        r["violations"].append((p, input_of(p["trace"]), v, det))
                if r["violations"]:
                    break
                unwind = q.retry_unwind or unwind * 2
                r["unwind"] = unwind
                continue
            break
        r["stats"] = st
        reach_ok, reach_seen, failures, undecided = True, 0, [], []
        for p in res:
            desc = p.get("description", "")
            loc = p.get("sourceLocation", {})
            if loc.get("file", "").startswith(REPO):
                r["functions"].append(loc.get("function", ""))
            if desc.startswith("REACH:"):
                reach_seen += 1
                if p["status"] != "FAILURE":
                    reach_ok = False
                    r["notes"].append("vacuous: %s not reachable" % desc)
                else:
                    init = input_of(p.get("trace", []))
                    v, det = replay_native(q, build, init, d, "w%d" % reach_seen, fills=(0xA5,))
                    if v == "pass" and desc[7:].strip() in det:
                        r["validated"] += 1
                        if r["sample"] is None:
                            r["sample"] = {"query": q.name, "witness": desc, "input": init[:600], "native": det}
                    elif v in ("fail", "hang"):
                        failures.append((p, init, v, det))
                    else:
                        r["notes"].append("witness %s: native run says %s (%s)" % (desc, v, det[:200]))
                continue
            r["obligations"] += 1
            if p["status"] == "FAILURE":
                failures.append((p, None, None, None))
            elif p["status"] != "SUCCESS":
                undecided.append(p["property"])
        r["functions"] = sorted(set(r["functions"]))
        if undecided:
            r["notes"].append("undecided: %d assertions behind a failing check, e.g. %s" % (len(undecided), undecided[0]))
        if q.reach and reach_seen == 0:
            reach_ok = False
            r["notes"].append("no reachability witness in the encoding")
        model = []
        # the property's own assertions first, then what the code's own checks say
        failures.sort(key=lambda f: (f[1] is None, not f[0].get("description", "").startswith("VP:")))
        tried = set()
        for p, init, v, det in failures:
            desc = p.get("description", "")
            if init is None:
                init = input_of(p.get("trace", []))
            if v is None:
                if desc.startswith("MODEL:") or ".unwind." in p["property"]:
                    model.append(desc)
                    if init in tried: continue
                if len(tried) >= 6:
                    continue
                if init not in tried:
                    tried.add(init)
                    v, det = replay_native(q, build, init, d, "f%d" % len(tried))
                else:
                    v, det = "seen", ""
            if v in ("fail", "hang"):
                r["violations"].append((p, init, v, det))
                break
            elif v != "seen":
                r["notes"].append("counterexample to '%s' does not reproduce natively (%s %s)" % (desc[:120], v, (det or "")[:160]))
        if r["violations"]:
            r["status"] = "violation"
        elif not reach_ok:
            r["status"] = "vacuous"
        elif failures:
            r["status"] = "inconclusive"
        elif any(n.startswith("undecided") for n in r["notes"]):
            r["status"] = "inconclusive"
        else:
            r["status"] = "ok"
        return r
    except RuntimeError as e:
        r["notes"].append(str(e))
        return r
    finally:
        if r["violations"] and r["status"] != "violation":
            r["status"] = "violation"
        r["wall_s"] = round(time.time() - t0, 2)
        shutil.rmtree(d, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m[1] == prop:
                out.append((m[2], m[3]))
    return out


def check(prop):
    import checks
    t0 = time.time()
    tier = TIER if TIER in ("quick", "thorough") else "quick"
    spec = checks.CHECKS[prop]
    queries = spec["queries"](tier)
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    results = []
    try:
        build = Build(tmp)
        budget = spec.get("budget", {"quick": 780, "thorough": 3300})[tier]
        try:
            build.objs(False, {}, ())
        except RuntimeError as e:
            print("ERROR property=%s: %s" % (prop, e))
            return 2
        stop = threading.Event()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            def job(q):
                if stop.is_set() or time.time() - t0 > budget:
                    return {"query": q.name, "status": "skipped", "notes": ["not run: " + ("a violation was found first" if stop.is_set() else "time budget")],
                            "stats": {}, "functions": [], "obligations": 0, "violations": [], "validated": 0, "sample": None, "bounds": q.bounds, "wall_s": 0}
                q.timeout = min(q.timeout, max(20, budget - (time.time() - t0)))
                r = decide(q, build, tmp, prop)
                if r["status"] == "violation":
                    stop.set()
                return r
            results = list(ex.map(job, queries))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = [r for r in results if r["status"] == "violation"]
    bad = [r for r in results if r["status"] in ("inconclusive", "vacuous")]
    ok = [r for r in results if r["status"] == "ok"]
    rc = 0
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for key, text in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    qmap = {q.name: q for q in queries}
    for r in viol[:3]:
        p, init, v, det = r["violations"][0]
        q = qmap[r["query"]]
        path = os.path.join(EVID, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", r["query"])))
        json.dump({"property": prop, "query": r["query"], "harness": q.src, "defs": q.defs, "stubs": q.stubs, "libdefs": q.libdefs,
                   "lib": q.lib, "input": init, "assertion": p.get("description"), "where": p.get("sourceLocation", {}),
                   "native": det, "how": v}, open(path, "w"), indent=1)
        print("  %s: %s [%s:%s] -> native replay: %s %s" % (r["query"], p.get("description"), p.get("sourceLocation", {}).get("function"),
              p.get("sourceLocation", {}).get("line"), v, det))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    for r in bad:
        print("INCONCLUSIVE property=%s query=%s: %s" % (prop, r["query"], "; ".join(r["notes"])[:800]))
    if not viol and not ok:
        rc = 2
    if any(r["status"] == "vacuous" for r in results) and not viol:
        rc = 2
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
          "coverage": {
              "explanation": "Bounded symbolic model checking (CBMC) of /repo's current C sources: one query per harness instance; 'states' are the steps of the symbolic executions (SSA equations), 'transitions' the verification conditions handed to the solver, 'traces_validated_against_impl' the solver-made reachability witnesses whose native run of the same code agreed.",
              "states": sum(r["stats"].get("steps", 0) for r in results),
              "transitions": sum(r["stats"].get("vccs", 0) for r in results),
              "traces_validated_against_impl": sum(r["validated"] for r in results),
              "samples": [r["sample"] for r in results if r["sample"]][:3] or [{"query": r["query"], "status": r["status"]} for r in results[:1]],
              "queries": len(results), "queries_decided": len(ok) + len(viol),
              "queries_undecided": [{"query": r["query"], "why": r["notes"][:3]} for r in bad],
              "queries_skipped": [r["query"] for r in results if r["status"] == "skipped"],
              "assertions_decided": sum(r["obligations"] for r in ok + viol),
              "solver_s": round(sum(r["stats"].get("solver_s", 0) for r in results), 3),
              "largest_formula": {"variables": max([r["stats"].get("variables", 0) for r in results] or [0]),
                                  "clauses": max([r["stats"].get("clauses", 0) for r in results] or [0])},
              "functions_encoded": sorted({f for r in results for f in r["functions"]}),
              "bounds": sorted({b for b in ["%s" % r["bounds"] for r in results] if b})[:60],
              "outside_the_bounds": spec.get("outside", ""),
              "exhaustive": False,
              "per_query": [{"query": r["query"], "status": r["status"], "wall_s": r["wall_s"], "unwind": r.get("unwind"),
                             "steps": r["stats"].get("steps", 0), "vccs": r["stats"].get("vccs", 0),
                             "solver_s": round(r["stats"].get("solver_s", 0), 3), "notes": r["notes"][:4]} for r in results]},
          "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("property=%s tier=%s queries=%d decided=%d violations=%d undecided=%d wall=%.1fs" %
          (prop, tier, len(results), len(ok) + len(viol), len(viol), len(bad), time.time() - t0))
    return rc


def replay(path):
    j = json.load(open(path))
    q = Q(j["query"], j["harness"], j["defs"], stubs=j["stubs"], libdefs=j["libdefs"], lib=j["lib"])
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        v, det = replay_native(q, Build(tmp), j["input"], tmp, "r")
        print(v, det)
        return 1 if v in ("fail", "hang") else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def one(prop, pat):
    """Debug aid: run the queries of a property whose name matches."""
    import checks
    tmp = tempfile.mkdtemp(prefix="vp-one-")
    try:
        b = Build(tmp)
        qs = [q for q in checks.CHECKS[prop]["queries"](TIER) if re.search(pat, q.name)]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda q: decide(q, b, tmp, prop), qs):
                print(r["query"], r["status"], "%.1fs" % r["wall_s"], r["stats"], r["obligations"], "validated", r["validated"])
                for n in r["notes"][:8]: print("   note:", n[:500])
                for p, init, v, det in r["violations"]:
                    print("   VIOL", p.get("description"), p.get("sourceLocation", {}).get("function"), p.get("sourceLocation", {}).get("line"), v, det)
                    print("   IN", init[:700])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "one":
        one(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else ".")
    if sys.argv[1] == "list":
        import checks
        print("\n".join(sorted(checks.CHECKS)))
