"""F04: the context-switch assembly, executed symbolically (asm_exec.py) and
replayed natively (harness/asm/drive.c)."""
import json, os, subprocess, sys, time
import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
ASM = os.path.join(B.H, "asm")


def prepare(d):
    os.makedirs(d, exist_ok=True)
    B.run(["true"])
    objs = []
    for i, s in enumerate(B.asm_sources()):
        o = os.path.join(d, "a%d.o" % i)
        B.run(["gcc", "-c", "-I", os.path.dirname(s), s, "-o", o])
        objs.append(o)
    so, offs, drv = (os.path.join(d, x) for x in ("asm.so", "offs.json", "drive"))
    B.run(["gcc", "-shared", "-nostdlib"] + objs + ["-o", so])
    inc = B.incs()
    B.run(["gcc", "-w", "-O1"] + inc + [os.path.join(ASM, "offs.c"), "-o", os.path.join(d, "offs")])
    with open(offs, "wb") as f:
        f.write(B.run([os.path.join(d, "offs")]))
    B.run(["gcc", "-w", "-O1"] + inc + [os.path.join(ASM, "drive.c")] + objs + ["-o", drv])
    return so, offs, drv


def drive(drv, inputs, d):
    f = os.path.join(d, "in")
    with open(f, "w") as o:
        o.write("\n".join(map(str, inputs)) + "\n")
    try:
        p = subprocess.run([drv, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    rc, txt = p.returncode, p.stdout.decode(errors="replace")
    return (42 if "VF-ASSERT-FAILED" in txt else rc), txt


def variants(v):
    """the counterexample, then the same with every unconstrained word made
    distinctive, so that a clobbered register cannot agree by accident"""
    yield v
    g = [x or (0x1111111111111111 * (i % 15 + 1) + i) & ((1 << 64) - 1) for i, x in enumerate(v)]
    g[31] = v[31]
    yield g
    h = [(0x9e3779b97f4a7c15 * (i + 1)) & ((1 << 64) - 1) for i in range(len(v))]
    for t in (0, 8):
        h[31] = t
        yield list(h)


def check(prop, tier):
    import vf
    from checks.registry import CHECKS
    t0 = time.time()
    c = CHECKS[prop]
    d = os.path.join(B.CACHE, "run", "asm-%d" % os.getpid())
    q = {"id": prop + "-asm", "name": "asm", "srcs": ["asm/drive.c"], "defs": {}, "what": "fiber_make and fiber_switch"}
    results, viol, errors, wok, samples = [], [], [], 0, []
    try:
        so, offs, drv = prepare(d)
        out = os.path.join(d, "out.json")
        p = subprocess.run(["python3-vt", os.path.join(HERE, "asm_exec.py"), so, offs, out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=820 if tier == "quick" else 7200)
        if p.returncode:
            errors.append("asm_exec: " + p.stdout.decode(errors="replace")[-1500:])
        else:
            r = json.load(open(out))
            if r["error"] and not r["violations"]:
                errors.append(r["error"])
            names = {}
            for l in r["labels"]:
                n = l.split("_V0_4_")[-1]
                f = "fiber_switch.s" if "switch" in n else "fiber_make.s"
                names[n] = ["%s/src/fiber/platform/sysv/x86_64/%s" % (B.REPO, f), 1]
            for need in c["asm_reach"]:
                if need not in r["reach"] and not r["violations"] and not r["error"]:
                    errors.append("vacuous, never reached: " + need)
            for v in r["violations"]:
                got = None
                for ins in variants(v["inputs"]):
                    rc, txt = drive(drv, ins, d)
                    if rc not in (0,):
                        got = (rc, txt)
                        break
                if got is None:
                    errors.append("counterexample not reproduced natively: %s: %s (%s)" % (v["query"], v["msg"], v["inputs"][:16]))
                    continue
                viol.append((q, {"kind": "assert", "msg": "%s: %s" % (v["query"], v["msg"]), "where": "", "stack": "", "inputs": ins}, got))
            res = {"paths": sum(r["reach"].values()), "forks": 0, "paths_assumed_away": 0, "instructions": r["instructions"], "queries": r["queries"],
                   "query_cache_hits": 0, "sat": r["sat"], "unsat": r["unsat"], "unknown": 0, "asserts": len(r["checks"]),
                   "asserts_symbolic": len(r["checks"]), "solver_s": r["solver_s"], "wall_s": r["wall_s"], "incomplete": bool(r["error"]),
                   "error": r["error"], "reach": r["reach"], "functions": names, "assert_sites": {x: 1 for x in r["checks"]}, "violations": r["violations"]}
            results.append((q, res))
            # the same promises observed natively, for a few register contents
            for ins in list(variants([0] * 32)):
                rc, txt = drive(drv, ins, d)
                if rc == 0 and "VF-REACHED end" in txt:
                    wok += 1
                    samples.append({"query": "asm", "reaches": "end", "inputs": ins})
                elif not viol:
                    viol.append((q, {"kind": "assert", "msg": "native run fails: " + (txt.strip().splitlines() or ["?"])[0][:200], "where": "",
                                     "stack": "", "inputs": ins}, (rc, txt)))
    except (B.BuildError, subprocess.TimeoutExpired, OSError, ValueError) as e:
        errors.append(str(e)[-1500:])
    finally:
        for x in ("a0.o", "a1.o", "a2.o", "asm.so", "offs.json", "offs", "drive", "in", "out.json"):
            if os.path.exists(os.path.join(d, x)):
                os.unlink(os.path.join(d, x))
    return vf.finish(prop, tier, t0, c, results, viol, [], errors, [], wok, [], samples)


def replay(d):
    w = os.path.join(B.CACHE, "run", "asm-replay")
    rc, txt = drive(prepare(w)[2], d["inputs"], w)
    print(txt)
    print("exit", rc)
