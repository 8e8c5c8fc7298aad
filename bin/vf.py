#!/usr/bin/env python3
"""vf.py check ID [--tier quick|thorough] | setup | list | replay FILE"""
import argparse, json, os, re, subprocess, sys, time, traceback, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, B.VERIF)
from checks.registry import CHECKS

EVID = os.path.join(B.VERIF, "evidence")
REPLAY = os.path.join(B.VERIF, "replay")
KNOWN = os.path.join(B.VERIF, "known_findings.json")
NCPU = int(os.environ.get("VF_NCPU", "8"))
PATTERN = ("-ftrivial-auto-var-init=pattern",)
ZERO = ("-ftrivial-auto-var-init=zero",)
PLAIN = ("-fno-sanitize=all", "-O0")


class Slots:
    def __init__(self, n):
        self.n, self.free, self.c = n, n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.free < k:
                self.c.wait()
            self.free -= k

    def give(self, k):
        with self.c:
            self.free += k
            self.c.notify_all()


SLOTS = Slots(NCPU)
STOP = threading.Event()
PROCS = set()


def merge(a, b):
    for k in ("paths", "paths_assumed_away", "instructions", "forks", "queries", "query_cache_hits", "model_hits",
              "sat", "unsat", "unknown", "asserts", "asserts_symbolic", "uninit_reads", "solver_s"):
        a[k] += b[k]
    for k in ("max_fork_depth", "vars", "exprs", "wall_s"):
        a[k] = max(a[k], b[k])
    a["incomplete"] = a["incomplete"] or b["incomplete"]
    a["error"] = a["error"] or b["error"]
    for k, v in b["reach"].items():
        a["reach"][k] = a["reach"].get(k, 0) + v
    for k, v in b["witness"].items():
        a["witness"].setdefault(k, v)
    for k, v in b["assert_sites"].items():
        a["assert_sites"][k] = a["assert_sites"].get(k, 0) + v
    for k, v in b["functions"].items():
        if k in a["functions"]:
            a["functions"][k][1] += v[1]
        else:
            a["functions"][k] = v
    a["candidates"] += b["candidates"]
    seen = {(v["kind"], v["msg"], v["where"]) for v in a["violations"]}
    for v in b["violations"]:
        if (v["kind"], v["msg"], v["where"]) not in seen:
            a["violations"].append(v)
    return a


def run_symx(q, bc, deadline):
    j = min(q.get("j", 1), NCPU)
    SLOTS.take(j)
    try:
        if STOP.is_set():
            return None
        out = os.path.join(B.CACHE, "run", "%s-%d.json" % (q["id"], os.getpid()))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t = min(q.get("t", 300), max(5, deadline - time.time()))
        cmd = [B.symx(), bc, "-o", out, "-t", str(t), "-j", str(j)]
        if q.get("merge"):
            cmd.append("--merge")
        for k in ("max_steps", "max_enum", "max_viol"):
            if k in q:
                cmd += ["--" + k.replace("_", "-"), str(q[k])]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        PROCS.add(p)
        try:
            txt, _ = p.communicate(timeout=t + 150)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return {"error": "symx did not stop in time"}
        finally:
            PROCS.discard(p)
        if STOP.is_set() and p.returncode:
            return None
        if p.returncode:
            return {"error": "symx exit %d: %s" % (p.returncode, txt.decode(errors="replace")[-2000:])}
        r = json.load(open(out))
        os.unlink(out)
        for k in range(j):
            f = "%s.%d" % (out, k)
            if os.path.exists(f):
                r = merge(r, json.load(open(f)))
                os.unlink(f)
        return r
    finally:
        SLOTS.give(j)


def native_run(exe, inputs, fill=0xbe, timeout=25, pre=()):
    d = os.path.join(B.CACHE, "run")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "in-%d-%d" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as o:
        o.write("\n".join(map(str, inputs)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:exitcode=86:abort_on_error=0:"
               "allocator_may_return_null=1:malloc_fill_byte=%d:max_malloc_fill_size=1048576:max_free_fill_size=0" % fill,
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0", LC_ALL="C")
    try:
        p = subprocess.run(list(pre) + [exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        rc, txt = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = "timeout", (e.stdout or b"").decode(errors="replace")
    os.unlink(f)
    return rc, txt


def confirm(q, v):
    """Replay a counterexample against a native build of the real code."""
    for extra in ((), PATTERN, ZERO):
        try:
            exe = B.native_exe(q["srcs"], q["defs"], q.get("flags", ()), extra)
        except B.BuildError as e:
            return None, "native build failed: %s" % e
        for fill in (0xbe, 0x00, 0xff, 0x01):
            rc, txt = native_run(exe, v["inputs"], fill)
            bad = rc not in (0, 77)
            if v["kind"] == "ub" and "runtime error:" in txt:
                bad = True
            if rc == "timeout" and v["kind"] != "limit":
                bad = v["kind"] in ("assert", "memory")
            if bad:
                return (rc, txt), ""
    # the failure may hang on a value the code never set, which the native run
    # happens to find harmless: valgrind tells whether such a value is used
    try:
        exe = B.native_exe(q["srcs"], q["defs"], q.get("flags", ()), PLAIN)
        rc2, txt2 = native_run(exe, v["inputs"], pre=["valgrind", "-q", "--error-exitcode=87", "--track-origins=yes"], timeout=90)
        if rc2 == 87 and "uninitialised value" in txt2:
            return (rc2, txt2), ""
    except (B.BuildError, OSError):
        pass
    return None, "native run does not show it (last exit %s)\n%s" % (rc, txt[-1500:])


def giving_up(q, r):
    try:
        exe = B.native_exe(q["srcs"], q["defs"], q.get("flags", ()))
    except B.BuildError:
        return []
    for ins in r["candidates"][:8]:
        rc, txt = native_run(exe, ins)
        if rc in (42, 86, "timeout") or (isinstance(rc, int) and rc < 0):
            what = "does not end" if rc == "timeout" else "fails"
            return [(q, {"kind": "limit", "msg": "the run %s on the inputs of a path the search could not finish: %s" % (
                what, (txt.strip().splitlines() or [""])[0][:200]), "where": "", "stack": "", "inputs": ins}, (rc, txt))]
    return []


def one_query(q, lib, deadline):
    t0 = time.time()
    try:
        bc = B.link_query(lib, q["srcs"], q["defs"], q.get("flags", ()), q.get("fiber_model", True))
    except B.BuildError as e:
        return q, {"error": "harness build: %s" % e}
    r = run_symx(q, bc, deadline)
    if r is not None:
        r["total_s"] = time.time() - t0
    return q, r


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k["property"] == prop]


def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    B.VARIANT = c.get("variant", "")
    if "custom" in c:
        import importlib
        return importlib.import_module("checks." + c["custom"]).check(prop, tier)
    budget = c.get("budget", 780) if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    qs = []
    for i, q in enumerate(c["queries"]):
        if q.get("tier", "both") not in ("both", tier):
            continue
        q = dict(q)
        q.setdefault("defs", {})
        if tier == "thorough" and "deep" in q:
            q["defs"] = dict(q["defs"], **q["deep"])
            q["t"] = q.get("deep_t", 3600)
            q["j"] = q.get("deep_j", 8)
        q["srcs"] = [q["src"]] if isinstance(q["src"], str) else list(q["src"])
        q["id"] = "%s-%s" % (prop, q["name"])
        qs.append(q)
    errors, viol, known_hit, results, unconfirmed = [], [], [], [], []
    known = load_known(prop)
    try:
        B.symx()
        lib = B.lib_bc()
    except B.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return finish(prop, tier, t0, c, [], [], [], ["build failed"], [])
    natmsg = {}

    def warm():
        try:
            B.native_lib(())
        except B.BuildError as e:
            natmsg["e"] = str(e)
    wt = threading.Thread(target=warm)
    wt.start()
    ex = ThreadPoolExecutor(max(1, min(16, len(qs))))
    fs = [ex.submit(one_query, q, lib, deadline) for q in qs]
    witness_ok, witness_bad, samples = 0, [], []
    for f in as_completed(fs):
        q, r = f.result()
        if r is None:
            continue
        if r.get("error"):
            (errors if not q.get("optional") else unconfirmed).append("%s: %s" % (q["name"], r["error"]))
        if "paths" not in r:
            continue
        results.append((q, r))
        for v in r["violations"]:
            wt.join()
            got, why = confirm(q, v)
            tag = "%s: %s at %s" % (q["name"], v["msg"], v["where"])
            if got is None:
                errors.append("counterexample not reproduced natively: %s (%s)" % (tag, why))
                continue
            k = [k for k in known if k.get("status") == "known" and k.get("query") == q["name"]
                 and re.search(k["match"], v["msg"])]
            if k:
                known_hit.append((k[0], v))
                continue
            viol.append((q, v, got))
        # where the search gave up, the inputs that led there are tried on the real code
        if not viol and r["candidates"] and not q.get("optional"):
            wt.join()
            viol += giving_up(q, r)
        if r["incomplete"] and not r["violations"] and not q.get("optional"):
            errors.append("%s: not completed in %.0f s (%d paths)" % (q["name"], r["wall_s"], r["paths"]))
        if not r["violations"] and not r["incomplete"]:
            missing = [x for x in q.get("reach", []) if x not in r["reach"]]
            if missing:
                errors.append("%s: vacuous, never reached: %s" % (q["name"], ", ".join(missing)))
        if viol:
            STOP.set()
            for p in list(PROCS):
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
            break
        # validate witness traces against the native build
        if r["witness"] and q.get("native", True):
            wt.join()
            try:
                exe = B.native_exe(q["srcs"], q["defs"], q.get("flags", ()))
                for label, ins in sorted(r["witness"].items()):
                    if time.time() > deadline:
                        break
                    rc, txt = native_run(exe, ins)
                    if rc == 0 and ("VF-REACHED " + label) in txt:
                        witness_ok += 1
                        if len(samples) < 12:
                            samples.append({"query": q["name"], "reaches": label, "inputs": ins[:64]})
                    elif rc in (42, 86) and not q.get("optional"):
                        viol.append((q, {"kind": "assert", "msg": "native run of a witness fails: " +
                                         txt.strip().splitlines()[0][:200], "where": "", "stack": "",
                                         "inputs": ins}, (rc, txt)))
                    else:
                        witness_bad.append({"query": q["name"], "label": label, "exit": rc, "out": txt[-300:]})
            except B.BuildError as e:
                errors.append("native build: %s" % e)
        if viol:
            break
    ex.shutdown(wait=True, cancel_futures=True)
    wt.join()
    if natmsg:
        errors.append("native build: " + natmsg["e"])
    B.prune_cache()
    return finish(prop, tier, t0, c, results, viol, known_hit, errors, unconfirmed,
                  witness_ok, witness_bad, samples, known)


def finish(prop, tier, t0, c, results, viol, known_hit, errors, notes, wok=0, wbad=(), samples=(), known=()):
    os.makedirs(EVID, exist_ok=True)
    tot = lambda k: sum(r[k] for _, r in results)
    funcs = {}
    for _, r in results:
        for n, (f, k) in r["functions"].items():
            if f.startswith(B.REPO + "/") or "/repo/" in f:
                n = n.split("_V0_4_")[-1] if "_V0_4_" in n else n
                n = re.sub(r"^V\d+_\d+_", "", n)
                funcs.setdefault(os.path.relpath(f, B.REPO), set()).add(n)
    done = [q["name"] for q, r in results if not r["incomplete"] and not r["error"] and not r["violations"]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("instructions"),
            "traces_validated_against_impl": wok,
            "samples": list(samples) or [{"note": "no witness was replayed"}],
            "states_meaning": "symbolic states: path ends plus forks, each standing for every concrete input satisfying its path condition",
            "transitions_meaning": "LLVM instructions executed symbolically",
            "exhaustive": bool(results) and not errors and not viol and len(done) == len(results),
            "obligations": sum(len(r["assert_sites"]) for _, r in results),
            "discharged": sum(len(r["assert_sites"]) for q, r in results if q["name"] in done),
            "paths": tot("paths"), "paths_outside_assumptions": tot("paths_assumed_away"),
            "assertion_checks": tot("asserts"), "assertion_checks_sent_to_solver": tot("asserts_symbolic"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"),
            "solver_unknown": tot("unknown"), "solver_cache_hits": tot("query_cache_hits"), "solver_s": round(tot("solver_s"), 3),
            "functions_encoded": {f: sorted(v) for f, v in sorted(funcs.items())},
            "functions_encoded_count": sum(len(v) for v in funcs.values()),
            "queries": [{
                "name": q["name"], "bounds": dict(q["defs"]), "what": q.get("what", ""), "paths": r["paths"],
                "instructions": r["instructions"], "solver_queries": r["queries"], "solver_s": round(r["solver_s"], 3),
                "wall_s": round(r["wall_s"], 2), "complete": not r["incomplete"] and not r["error"],
                "assert_sites": len(r["assert_sites"]), "reached": r["reach"], "violations": len(r["violations"])
            } for q, r in sorted(results, key=lambda x: x[0]["name"])],
            "trace_mismatches": list(wbad), "bounds": c.get("bounds", ""), "outside": c.get("outside", ""),
            "notes": list(notes), "errors": list(errors),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d queries, %d paths, %d instructions, %d solver calls (%.2f s), %d witnesses replayed, %.1f s" % (
        prop, tier, len(results), tot("paths"), tot("instructions"), tot("queries"), tot("solver_s"), wok, time.time() - t0))
    for b in wbad:
        print("note: witness not matched natively: %s" % json.dumps(b)[:600])
    if viol:
        os.makedirs(REPLAY, exist_ok=True)
        for q, v, got in viol:
            p = os.path.join(REPLAY, "%s-%s.json" % (q["id"], B.h_bytes(v["msg"], v["where"])[:8]))
            json.dump({"property": prop, "query": q["name"], "srcs": q["srcs"], "defs": q["defs"], "flags": list(q.get("flags", ())),
                       "kind": v["kind"], "msg": v["msg"], "where": v["where"], "stack": v["stack"], "inputs": v["inputs"],
                       "native_exit": got[0], "native_output": got[1][-4000:]}, open(p, "w"), indent=1)
            print("  query %s: %s\n    at %s\n%s    native replay: exit %s: %s" % (
                q["name"], v["msg"], v["where"], "".join("      " + x + "\n" for x in v["stack"].splitlines()[:8]), got[0],
                (re.findall(r"VF-ASSERT-FAILED.*|ERROR: AddressSanitizer.*|.*runtime error:.*", got[1]) or [got[1][-200:]])[0][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, B.VERIF)))
        return 1
    if errors:
        for e in errors:
            print("ERROR: %s" % e)
        return 2
    return 0


def do_replay(f):
    d = json.load(open(f))
    c = CHECKS[d["property"]]
    if "custom" in c:
        import importlib
        return importlib.import_module("checks." + c["custom"]).replay(d)
    B.VARIANT = c.get("variant", "")
    exe = B.native_exe(d["srcs"], d["defs"], d.get("flags", ()))
    rc, txt = native_run(exe, d["inputs"])
    print(txt)
    print("exit", rc)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        B.symx()
        B.lib_bc()
        B.native_lib(())
        return 0
    if a[0] == "list":
        for k, c in CHECKS.items():
            print(k, c["title"])
        return 0
    if a[0] == "replay":
        do_replay(a[1])
        return 0
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[1], tier)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
