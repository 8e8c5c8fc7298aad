"""Symbolic execution of the context-switch assembly (run with python3-vt).

usage: asm_exec.py LIB.so OFFSETS.json OUT.json
LIB.so is linked from /repo's assembly; what is executed is its disassembly.
Registers, control words and memory (an array of bytes) are symbolic.
"""
import json, re, subprocess, sys, time
import z3

W = 64
GPR = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp"] + ["r%d" % i for i in range(8, 16)]
ALIAS = {}
for r in GPR:
    ALIAS[r] = (r, 64)
for a, b, c, d in (("rax", "eax", "ax", "al"), ("rbx", "ebx", "bx", "bl"), ("rcx", "ecx", "cx", "cl"), ("rdx", "edx", "dx", "dl"),
                   ("rsi", "esi", "si", "sil"), ("rdi", "edi", "di", "dil"), ("rbp", "ebp", "bp", "bpl"), ("rsp", "esp", "sp", "spl")):
    ALIAS[b], ALIAS[c], ALIAS[d] = (a, 32), (a, 16), (a, 8)
for i in range(8, 16):
    for s, w in (("d", 32), ("w", 16), ("b", 8)):
        ALIAS["r%d%s" % (i, s)] = ("r%d" % i, w)
SAVED = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
SUF = {"b": 8, "w": 16, "l": 32, "q": 64}
LO = 0x1000000          # data lives above, code below
HI = 1 << 47
RED = 256               # bytes below its stack pointer a switch may use
FRAME = 128             # bytes of a suspended fiber's stack a switch may read


class Unsupported(Exception):
    pass


def bv(v, w=W):
    return z3.BitVecVal(v, w)


class State:
    def __init__(s, name):
        s.r = {g: z3.BitVec("%s_%s" % (name, g), W) for g in GPR}
        s.mx = z3.BitVec(name + "_mxcsr", 32)
        s.cw = z3.BitVec(name + "_fcw", 16)
        s.mem = Mem(name)
        s.acc = []          # (kind, address, bytes, instruction)
        s.cond = []         # path condition
        s.flags = None      # (width, result, carry, overflow)
        s.steps, s.called = 0, False

    def copy(s):
        n = object.__new__(State)
        n.r, n.mx, n.cw, n.mem, n.flags, n.steps, n.called = dict(s.r), s.mx, s.cw, s.mem, s.flags, s.steps, False
        n.acc, n.cond = list(s.acc), list(s.cond)
        return n

    def load(s, a, n, where):
        s.acc.append(("read", a, n, where, None, None))
        return s.mem.read(s.cond, a, n)

    def store(s, a, v, n, where):
        s.acc.append(("write", a, n, where, v, s.mem))
        s.mem = s.mem.write(a, n, v)


MACHINE = None


class Mem:
    """bytes: a list of writes over an unknown initial content, or over what
    was kept of an older memory"""

    def __init__(s, name, kept=None):
        s.base = z3.Array(name + "_mem", z3.BitVecSort(W), z3.BitVecSort(8))
        s.writes = ()
        s.kept = kept or []         # (low, length term, older memory)

    def write(s, a, n, v):
        m = object.__new__(Mem)
        m.base, m.kept, m.writes = s.base, s.kept, s.writes + ((a, n, v),)
        return m

    def read(s, cs, a, n, upto=None):
        k = len(s.writes) if upto is None else upto
        while k:
            k -= 1
            wa, wn, v = s.writes[k]
            d = z3.simplify(a - wa)
            if z3.is_bv_value(d):
                d = d.as_long()
                if d == 0 and n == wn:
                    return v
                if d < wn and d + n <= wn:
                    return z3.simplify(z3.Extract(8 * (d + n) - 1, 8 * d, v))
                if d >= wn and d <= (1 << W) - n:
                    continue
            else:
                sep = z3.And(z3.UGE(d, bv(wn)), z3.ULE(d, bv((1 << W) - n)))
                if MACHINE.valid(cs, sep):
                    continue
                if n == wn and MACHINE.valid(cs, d == bv(0)):
                    return v
            if n > 1:
                return z3.Concat(*[s.read(cs, z3.simplify(a + i), 1, k + 1) for i in reversed(range(n))])
            d = a - wa
            older = s.read(cs, a, 1, k)
            r = older
            for i in range(wn):
                r = z3.If(d == bv(i), z3.Extract(8 * i + 7, 8 * i, v), r)
            return r
        for lo, ln, old in s.kept:
            if MACHINE.valid(cs, z3.And(z3.ULE(bv(n), ln), z3.ULE(a - lo, ln - n))):
                return old.read(cs, a, n)
            if MACHINE.valid(cs, z3.And(z3.UGE(a - lo, ln), z3.ULE(a - lo, bv(0) - n))):
                continue
            if n > 1:
                return z3.Concat(*[s.read(cs, z3.simplify(a + i), 1, 0) for i in reversed(range(n))])
            return z3.If(z3.ULT(a - lo, ln), old.read(cs, a, 1), z3.Select(s.base, a))
        b = [z3.Select(s.base, z3.simplify(a + i)) for i in range(n)]
        return b[0] if n == 1 else z3.Concat(*reversed(b))


def ld(mem, a, n, cs=()):
    return mem.read(list(cs), a, n)


class Code:
    def __init__(s, lib):
        txt = subprocess.run(["objdump", "-d", "-w", "-M", "suffix", lib], stdout=subprocess.PIPE, check=True).stdout.decode()
        s.ins, s.sym, s.name = {}, {}, {}
        for l in txt.splitlines():
            m = re.match(r"^([0-9a-f]+) <(.*)>:$", l)
            if m:
                s.sym[m[2]] = int(m[1], 16)
                s.name[int(m[1], 16)] = m[2]
                continue
            m = re.match(r"^\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*\t?(.*)$", l)
            if m:
                t = re.sub(r"\s+#.*$", "", m[3]).strip()
                s.ins[int(m[1], 16)] = (len(m[2].split()), t)

    def ext(s, a):
        n = s.name.get(a, "")
        return n[:-4] if n.endswith("@plt") else None


def split_ops(t):
    out, cur, d = [], "", 0
    for ch in t:
        d += (ch == "(") - (ch == ")")
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Machine:
    def __init__(s, code, solver_assumptions):
        s.c, s.base = code, solver_assumptions
        s.ninst = s.queries = 0
        s.solver_s = 0.0
        s.sat_n = s.unsat_n = 0
        s.memo = {}
        global MACHINE
        MACHINE = s

    def solve(s, cs):
        t = time.time()
        so = z3.SolverFor("QF_ABV")
        so.set("timeout", 120000)
        so.add(*s.base)
        so.add(*cs)
        r = so.check()
        s.queries += 1
        s.solver_s += time.time() - t
        if r == z3.sat:
            s.sat_n += 1
            return so.model()
        if r == z3.unsat:
            s.unsat_n += 1
            return None
        raise Unsupported("solver gave no answer")

    def valid(s, cs, claim):
        k = (z3.simplify(claim).sexpr(), tuple(c.get_id() for c in cs))
        if k not in s.memo:
            s.memo[k] = (s.solve(list(cs) + [z3.Not(claim)]) is None, cs)
        return s.memo[k][0]

    # ---- operands
    def ea(s, st, o, nxt):
        m = re.match(r"^(?:%([cdefgs]s):)?(-?0x[0-9a-f]+|-?\d+|)(?:\(([^)]*)\))?$", o)
        if not m or m[1] in ("fs", "gs"):
            raise Unsupported("operand " + o)
        a = bv(int(m[2], 0) if m[2] else 0)
        if m[3] is not None:
            p = [x.strip() for x in m[3].split(",")]
            if p[0] == "%rip":
                a = a + nxt
            elif p[0]:
                a = a + s.reg(st, p[0])
            if len(p) > 1 and p[1] and p[1] not in ("%riz",):
                a = a + s.reg(st, p[1]) * bv(int(p[2]) if len(p) > 2 else 1)
        return z3.simplify(a)

    def reg(s, st, o):
        n, w = ALIAS[o[1:]] if o[1:] in ALIAS else (None, None)
        if n is None:
            raise Unsupported("register " + o)
        return st.r[n] if w == 64 else z3.Extract(w - 1, 0, st.r[n])

    def get(s, st, o, w, nxt, where):
        if o.startswith("$"):
            return bv(int(o[1:], 0), w)
        if o.startswith("%"):
            v = s.reg(st, o)
            if v.size() != w:
                raise Unsupported("width of " + o)
            return v
        return st.load(s.ea(st, o, nxt), w // 8, where)

    def put(s, st, o, v, nxt, where):
        if o.startswith("%"):
            n, w = ALIAS.get(o[1:], (None, None))
            if n is None:
                raise Unsupported("register " + o)
            if w == 64:
                st.r[n] = v
            elif w == 32:
                st.r[n] = z3.ZeroExt(32, v)
            else:
                st.r[n] = z3.Concat(z3.Extract(63, w, st.r[n]), v)
            st.r[n] = z3.simplify(st.r[n])
        else:
            st.store(s.ea(st, o, nxt), v, v.size() // 8, where)

    CC = {}

    def cc(s, st, c):
        if st.flags is None:
            raise Unsupported("condition on unknown flags")
        w, r, cf, of = st.flags
        zf, sf = r == bv(0, w), z3.Extract(w - 1, w - 1, r) == bv(1, 1)
        t = {"e": zf, "z": zf, "s": sf, "b": cf, "c": cf, "nae": cf, "o": of, "be": z3.Or(cf, zf), "na": z3.Or(cf, zf),
             "l": sf != of, "nge": sf != of, "le": z3.Or(zf, sf != of), "ng": z3.Or(zf, sf != of)}
        neg = {"ne": "e", "nz": "z", "ns": "s", "ae": "b", "nb": "b", "nc": "c", "no": "o", "a": "be", "nbe": "be",
               "ge": "l", "nl": "l", "g": "le", "nle": "le"}
        if c in t:
            return t[c]
        if c in neg:
            return z3.Not(t[neg[c]])
        raise Unsupported("condition " + c)

    # ---- control
    def target(s, st, t):
        """concrete local address or None"""
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_long()
        m = s.solve(st.cond)
        if m is None:
            return None
        v = m.eval(t, model_completion=True).as_long()
        if v in s.c.ins and s.solve(st.cond + [t != bv(v)]) is None:
            return v
        return None

    def run(s, st, pc, stop=()):
        """all ways the code from pc leaves the routines: (kind, what, state)"""
        work, out = [(st, pc)], []
        while work:
            st, pc = work.pop()
            while True:
                if s.c.ext(pc) is not None:
                    out.append(("call" if st.called else "jump", s.c.ext(pc), st))
                    break
                if pc not in s.c.ins:
                    out.append(("goto", bv(pc), st))
                    break
                n, t = s.c.ins[pc]
                st.steps += 1
                s.ninst += 1
                if st.steps > 3000:
                    raise Unsupported("more than 3000 instructions")
                nxt = pc + n
                where = "0x%x: %s" % (pc, t)
                p = t.split(None, 1)
                while p and p[0] in ("bnd", "notrack", "rep", "repz") and len(p) > 1:
                    p = p[1].split(None, 1)
                op = p[0]
                ops = split_ops(re.sub(r"<[^>]*>", "", p[1]).strip()) if len(p) > 1 else []
                st.called = False
                try:
                    r = s.step(st, op, ops, nxt, where)
                except (KeyError, ValueError, IndexError, z3.Z3Exception) as e:
                    raise Unsupported("%s (%s)" % (where, e))
                if r is None:
                    pc = nxt
                elif r[0] == "goto":
                    a = s.target(st, r[1])
                    if a is None or (a not in s.c.ins and s.c.ext(a) is None):
                        out.append(("goto", r[1], st))
                        break
                    pc = a
                elif r[0] == "branch":
                    o = st.copy()
                    o.cond.append(z3.Not(r[1]))
                    st.cond.append(r[1])
                    if s.solve(o.cond) is not None:
                        work.append((o, nxt))
                    if s.solve(st.cond) is None:
                        break
                    pc = r[2]
                else:
                    out.append(r + (st,))
                    break
        return out

    def step(s, st, op, ops, nxt, where):
        if op in ("nop", "nopw", "nopl", "nopq", "endbr64", "data16", "cs", "fwait", "cld", "mfence", "lfence", "sfence"):
            return None
        if op in ("hlt", "ud2", "ud2a", "int3"):
            return ("stop", op)
        if op in ("stmxcsr", "vstmxcsr"):
            st.store(s.ea(st, ops[0], nxt), st.mx, 4, where)
            return None
        if op in ("ldmxcsr", "vldmxcsr"):
            st.mx = st.load(s.ea(st, ops[0], nxt), 4, where)
            return None
        if op in ("fnstcw", "fstcw", "fnstcww"):
            st.store(s.ea(st, ops[0], nxt), st.cw, 2, where)
            return None
        if op in ("fldcw", "fldcww"):
            st.cw = st.load(s.ea(st, ops[0], nxt), 2, where)
            return None
        if op in ("retq", "ret"):
            a = st.load(st.r["rsp"], 8, where)
            st.r["rsp"] = z3.simplify(st.r["rsp"] + (8 + (int(ops[0][1:], 0) if ops else 0)))
            return ("goto", a)
        if op in ("jmp", "jmpq", "callq", "call"):
            o = ops[0]
            if o.startswith("*"):
                a = s.get(st, o[1:], 64, nxt, where)
            else:
                a = bv(int(o, 16))
            if op.startswith("call"):
                st.r["rsp"] = z3.simplify(st.r["rsp"] - 8)
                st.store(st.r["rsp"], bv(nxt), 8, where)
                st.called = True
            return ("goto", a)
        if op == "leaveq":
            st.r["rsp"] = st.r["rbp"]
            v = st.load(st.r["rsp"], 8, where)
            st.r["rsp"] = z3.simplify(st.r["rsp"] + 8)
            st.r["rbp"] = v
            return None
        if op[0] == "j":
            return ("branch", s.cc(st, op[1:]), int(ops[0], 16))
        if op in ("pushq",):
            v = s.get(st, ops[0], 64, nxt, where)
            st.r["rsp"] = z3.simplify(st.r["rsp"] - 8)
            st.store(st.r["rsp"], v, 8, where)
            return None
        if op in ("popq",):
            v = st.load(st.r["rsp"], 8, where)
            st.r["rsp"] = z3.simplify(st.r["rsp"] + 8)
            s.put(st, ops[0], v, nxt, where)
            return None
        if op == "movabsq":
            s.put(st, ops[1], s.get(st, ops[0], 64, nxt, where), nxt, where)
            return None
        m = re.match(r"^mov([zs])([bwl])([wlq])$", op) or re.match(r"^mov(s)(l)(q)d?$", op)
        if m:
            a, b = SUF[m[2]], SUF[m[3]]
            v = s.get(st, ops[0], a, nxt, where)
            s.put(st, ops[1], z3.ZeroExt(b - a, v) if m[1] == "z" else z3.SignExt(b - a, v), nxt, where)
            return None
        m = re.match(r"^(mov|lea|add|sub|and|or|xor|cmp|test|inc|dec|neg|not|xchg|shl|shr|sal|sar)([bwlq])$", op)
        if not m:
            raise Unsupported("instruction " + where)
        k, w = m[1], SUF[m[2]]
        if k == "mov":
            s.put(st, ops[1], s.get(st, ops[0], w, nxt, where), nxt, where)
            return None
        if k == "lea":
            v = s.ea(st, ops[0], nxt)
            s.put(st, ops[1], v if w == 64 else z3.Extract(w - 1, 0, v), nxt, where)
            return None
        if k == "xchg":
            a, b = s.get(st, ops[0], w, nxt, where), s.get(st, ops[1], w, nxt, where)
            s.put(st, ops[0], b, nxt, where)
            s.put(st, ops[1], a, nxt, where)
            return None
        if k in ("inc", "dec", "neg", "not"):
            a = s.get(st, ops[0], w, nxt, where)
            r = a + 1 if k == "inc" else a - 1 if k == "dec" else -a if k == "neg" else ~a
            if k != "not":
                st.flags = None
            s.put(st, ops[0], z3.simplify(r), nxt, where)
            return None
        if len(ops) == 1 and k in ("shl", "shr", "sal", "sar"):
            ops = ["$1"] + ops
        if k in ("shl", "shr", "sal", "sar"):
            if not ops[0].startswith("$"):
                raise Unsupported("shift " + where)
            n = bv(int(ops[0][1:], 0), w)
            a = s.get(st, ops[1], w, nxt, where)
            r = a << n if k in ("shl", "sal") else z3.LShR(a, n) if k == "shr" else a >> n
            st.flags = None
            s.put(st, ops[1], z3.simplify(r), nxt, where)
            return None
        a = s.get(st, ops[0], w, nxt, where)
        b = s.get(st, ops[1], w, nxt, where)
        F = z3.BoolVal(False)
        top = lambda x: z3.Extract(w - 1, w - 1, x) == bv(1, 1)
        if k in ("add",):
            r = b + a
            st.flags = (w, r, z3.ULT(r, a), z3.And(top(a) == top(b), top(r) != top(a)))
        elif k in ("sub", "cmp"):
            r = b - a
            st.flags = (w, r, z3.ULT(b, a), z3.And(top(a) != top(b), top(r) != top(b)))
        else:
            r = b & a if k in ("and", "test") else b | a if k == "or" else b ^ a
            st.flags = (w, r, F, F)
        if k not in ("cmp", "test"):
            s.put(st, ops[1], z3.simplify(r), nxt, where)
        return None


def disjoint(objs):
    cs = []
    for i, (a, n) in enumerate(objs):
        cs += [z3.UGE(a, bv(LO)), z3.ULE(a, bv(HI))]
        for b, m in objs[:i]:
            cs.append(z3.Or(z3.ULE(a + n, b), z3.ULE(b + m, a)))
    return cs


def inside(a, n, objs):
    return z3.Or(*[z3.And(z3.UGE(a, o), z3.ULE(a, o + (m if not isinstance(m, int) else bv(m)) - n)) for o, m in objs if True])


def main():
    lib, offs, outp = sys.argv[1:4]
    off = json.loads(open(offs).read())
    code = Code(lib)
    t0 = time.time()
    res = {"checks": [], "violations": [], "error": "", "reach": {}}
    for need in ("make", "switch"):
        if off[need] not in code.sym:
            res["error"] = "no symbol " + off[need]
    M = Machine(code, [])
    fsz = bv(off["size"])
    OSP, OID, ORC, OPA = (off[k] for k in ("stack_ptr", "id", "reason", "param"))

    def reached(x):
        res["reach"][x] = res["reach"].get(x, 0) + 1

    def ck(name, what, cs, claim, inputs):
        m = M.solve(cs + [z3.Not(claim)])
        res["checks"].append(name + ": " + what)
        if m is None:
            return
        ev = lambda e: m.eval(e, model_completion=True).as_long()
        res["violations"].append({"msg": what, "query": name, "inputs": [ev(e) for e in inputs]})

    def valid_cw(mx, cw):
        return [mx & bv(0xffff0000, 32) == 0, cw & bv(0xf0c0, 16) == bv(0x40, 16)]

    def vec(a, b, sched=bv(0), a0=None, a1=None, a2=None, top=bv(0)):
        z = [bv(0)] * 3
        g = lambda s: [s.r[x] for x in ("rbx", "rbp", "r12", "r13", "r14", "r15")] + [s.mx, s.cw]
        arg = lambda s: [s.r["rdx"], s.r["rcx"], s.r["r8"]] if s is not None else z
        v = g(a) + g(b) + [sched] + arg(a0) + arg(a1) + arg(a2)
        return v + [bv(0)] * (31 - len(v)) + [top & 15]

    def enter(st):
        """the machine state a call leaves: return address on the stack"""
        return st.copy()

    def frame(name, e, cs, allowed, readable, inputs):
        """writes change memory only where allowed, reads stay in readable"""
        for kind, a, n, where, v, before in e.acc:
            ok = inside(a, n, allowed if kind == "write" else readable)
            if kind == "write":
                ok = z3.Or(ok, before.read(cs, a, n) == v)
            ck(name, "%s of %d bytes stays inside the areas the routine may use (%s)" % (kind, n, where.split(": ", 1)[1]), cs, ok, inputs)

    def havoc(name, mem1, lo, hi, fib, sp):
        """arbitrary activity of others between two switches: everything may
        change but the suspended stack and where the fiber keeps it"""
        return Mem(name, [(sp, hi - sp, mem1), (fib + OSP, bv(8), mem1)])

    try:
        if res["error"]:
            raise Unsupported(res["error"])
        # ------------------------------------------------- round trip
        A, Bf, X = (z3.BitVec(n, W) for n in ("fiber_a", "fiber_b", "fiber_x"))
        s0 = State("a")
        s0.r["rdi"], s0.r["rsi"] = A, Bf
        rsp0 = s0.r["rsp"]
        ret = ld(s0.mem, rsp0, 8)
        sb = ld(s0.mem, Bf + OSP, 8)
        pre = disjoint([(A, fsz), (Bf, fsz), (rsp0 - RED, bv(RED + 8)), (sb, bv(FRAME))])
        pre += [z3.UGE(ret, bv(LO)), rsp0 & 15 == 8] + valid_cw(s0.mx, s0.cw)
        s2i = State("x")
        vin = vec(s0, s2i, a0=s0, a1=s2i)
        st = s0.copy()
        st.cond = list(pre)
        ends = M.run(st, code.sym[off["switch"]])
        if M.solve(pre) is None:
            raise Unsupported("assumptions of the round trip are contradictory")
        own = [(rsp0 - RED, RED), (A + OSP, 8), (Bf + OID, 8), (Bf + ORC, 8), (Bf + OPA, 8)]
        rd = [(rsp0 - RED, RED + 8), (A, fsz), (Bf, fsz), (sb, FRAME)]
        for kind, tgt, e in ends:
            cs = e.cond
            frame("switch out", e, cs, own, rd, vin)
            if kind != "goto":
                ck("switch out", "the switch continues in the other fiber, not with a %s to %s" % (kind, tgt), cs, z3.BoolVal(False), vin)
                continue
            reached("switched out")
            sA = ld(e.mem, A + OSP, 8, cs)
            ck("switch out", "the saved stack pointer lies on the fiber's own stack", cs,
               z3.And(z3.UGE(sA, rsp0 - RED), z3.ULE(sA, rsp0)), vin)
            ck("switch out", "the resumed fiber gets this switch's discipline", cs, ld(e.mem, Bf + OID, 8, cs) == s0.r["rdx"], vin)
            ck("switch out", "the resumed fiber gets this switch's reason", cs, ld(e.mem, Bf + ORC, 8, cs) == s0.r["rcx"], vin)
            ck("switch out", "the resumed fiber gets this switch's parameter", cs, ld(e.mem, Bf + OPA, 8, cs) == s0.r["r8"], vin)
            # somebody else switches back to it, later
            mem2 = havoc("later", e.mem, rsp0 - RED, rsp0 + 8, A, sA)
            s2 = s2i.copy()
            s2.mem = mem2
            s2.r["rdi"], s2.r["rsi"] = X, A
            r2 = s2.r["rsp"]
            back = cs + [z3.UGE(sA, rsp0 - RED), z3.ULE(sA, rsp0)]
            back += disjoint([(A, fsz), (X, fsz), (r2 - RED, bv(RED + 8)), (rsp0 - RED, bv(RED + 8))]) + valid_cw(s2.mx, s2.cw)
            s2.cond = list(back)
            st2 = s2.copy()
            if M.solve(back) is None:
                raise Unsupported("assumptions of the way back are contradictory")
            ends2 = M.run(st2, code.sym[off["switch"]])
            for k2, t2, e2 in ends2:
                c2 = e2.cond
                if k2 != "goto":
                    ck("round trip", "the fiber is resumed, not a %s to %s" % (k2, t2), c2, z3.BoolVal(False), vin)
                    continue
                reached("resumed")
                ck("round trip", "resumed right after its own switch", c2, t2 == ret, vin)
                ck("round trip", "stack pointer", c2, e2.r["rsp"] == rsp0 + 8, vin)
                for g in SAVED:
                    ck("round trip", "callee-saved register " + g, c2, e2.r[g] == s0.r[g], vin)
                ck("round trip", "control bits of mxcsr", c2, e2.mx & 0xffc0 == s0.mx & 0xffc0, vin)
                ck("round trip", "x87 control word", c2, e2.cw == s0.cw, vin)
                ck("round trip", "discipline of the switch that resumed it", c2, ld(e2.mem, A + OID, 8, c2) == s2.r["rdx"], vin)
                ck("round trip", "reason of the switch that resumed it", c2, ld(e2.mem, A + ORC, 8, c2) == s2.r["rcx"], vin)
                ck("round trip", "parameter of the switch that resumed it", c2, ld(e2.mem, A + OPA, 8, c2) == s2.r["r8"], vin)
            for k2, t2, e2 in ends2:
                ok = [(r2 - RED, RED), (X + OSP, 8), (A + OID, 8), (A + ORC, 8), (A + OPA, 8)]
                frame("round trip", e2, e2.cond, ok, [(r2 - RED, RED + 8), (A, fsz), (X, fsz), (sA, rsp0 + 8 - sA)], vin)
        # ------------------------------------------------- a new fiber
        F, S, E = (z3.BitVec(n, W) for n in ("fiber_f", "scheduler", "entry"))
        m0 = State("m")
        m0.r["rdi"], m0.r["rsi"], m0.r["rdx"] = F, S, E
        rsp0 = m0.r["rsp"]
        ret = ld(m0.mem, rsp0, 8)
        top = ld(m0.mem, F + OSP, 8)
        pre = disjoint([(F, fsz), (rsp0 - RED, bv(RED + 8)), (top - RED, bv(RED))])
        pre += [z3.UGE(ret, bv(LO)), z3.UGE(E, bv(LO)), rsp0 & 15 == 8] + valid_cw(m0.mx, m0.cw)
        x0 = State("y")
        vin = vec(m0, x0, sched=S, a0=x0, top=top)
        if M.solve(pre) is None:
            raise Unsupported("assumptions of the making are contradictory")
        m0.cond = list(pre)
        ends = M.run(m0.copy(), code.sym[off["make"]])
        for kind, tgt, e in ends:
            cs = e.cond
            frame("make", e, cs, [(top - RED, RED), (rsp0 - RED, RED), (F + OSP, 8)],
                  [(top - RED, RED), (rsp0 - RED, RED + 8), (F, fsz)], vin)
            if kind != "goto":
                ck("make", "the routine returns to its caller, not with a %s to %s" % (kind, tgt), cs, z3.BoolVal(False), vin)
                continue
            reached("made")
            ck("make", "returns to its caller", cs, tgt == ret, vin)
            ck("make", "stack pointer", cs, e.r["rsp"] == rsp0 + 8, vin)
            for g in SAVED:
                ck("make", "callee-saved register " + g, cs, e.r[g] == m0.r[g], vin)
            ck("make", "control bits of mxcsr", cs, e.mx & 0xffc0 == m0.mx & 0xffc0, vin)
            ck("make", "x87 control word", cs, e.cw == m0.cw, vin)
            sF = ld(e.mem, F + OSP, 8, cs)
            on = z3.And(z3.UGE(sF, top - RED), z3.ULE(sF, top))
            ck("make", "the initial stack pointer lies on the fiber's own stack", cs, on, vin)
            mem2 = havoc("first", e.mem, top - RED, top, F, sF)
            s2 = x0.copy()
            s2.mem = mem2
            s2.r["rdi"], s2.r["rsi"] = X, F
            r2 = s2.r["rsp"]
            go = cs + [on] + disjoint([(F, fsz), (X, fsz), (r2 - RED, bv(RED + 8)), (top - RED, bv(RED))]) + valid_cw(s2.mx, s2.cw)
            s2.cond = list(go)
            if M.solve(go) is None:
                raise Unsupported("assumptions of the first switch are contradictory")
            for k2, t2, e2 in M.run(s2.copy(), code.sym[off["switch"]]):
                c2 = e2.cond
                if k2 != "goto":
                    ck("first switch", "the entry function is entered, not a %s to %s" % (k2, t2), c2, z3.BoolVal(False), vin)
                    continue
                reached("entered")
                ck("first switch", "the entry function is entered", c2, t2 == E, vin)
                ck("first switch", "first argument is the scheduler", c2, e2.r["rdi"] == S, vin)
                ck("first switch", "second argument is the fiber", c2, e2.r["rsi"] == F, vin)
                rs = e2.r["rsp"]
                ck("first switch", "the stack is aligned as at a call", c2, rs & 15 == 8, vin)
                ck("first switch", "the stack pointer is on the fiber's own stack", c2, z3.And(z3.UGE(rs, top - RED), z3.ULE(rs, top - 8)), vin)
                ck("first switch", "control bits of mxcsr are those of the making", c2, e2.mx & 0xffc0 == m0.mx & 0xffc0, vin)
                ck("first switch", "x87 control word is that of the making", c2, e2.cw == m0.cw, vin)
                ck("first switch", "the fiber gets the switch's discipline", c2, ld(e2.mem, F + OID, 8, c2) == s2.r["rdx"], vin)
                ck("first switch", "the fiber gets the switch's reason", c2, ld(e2.mem, F + ORC, 8, c2) == s2.r["rcx"], vin)
                ck("first switch", "the fiber gets the switch's parameter", c2, ld(e2.mem, F + OPA, 8, c2) == s2.r["r8"], vin)
                # the entry function returns: callee-saved registers as they
                # were, the stack above its return address as it was
                f = State("r")
                for g in SAVED:
                    f.r[g] = e2.r[g]
                f.mx, f.cw = e2.mx, e2.cw
                f.mem = Mem("returned", [(rs, top - rs, e2.mem)])
                ra = ld(e2.mem, rs, 8, c2 + [z3.UGE(rs, top - RED), z3.ULE(rs, top - 8)])
                f.r["rsp"] = rs + 8
                f.cond = c2 + [z3.UGE(rs, top - RED), z3.ULE(rs, top - 8)]
                a = M.target(f, ra)
                if a is None:
                    ck("return", "the entry function has a known return address", f.cond, z3.BoolVal(False), vin)
                    continue
                f.called = False
                fi = f.copy()
                fi.called = False
                for k3, t3, e3 in M.run(fi, a):
                    if k3 in ("call", "jump") and t3 in ("_exit", "exit", "_Exit", "exit_group"):
                        reached("entry function returned")
                        st8 = z3.Extract(7, 0, e3.r["rdi"])
                        ck("return", "the process exits with a status that is not zero", e3.cond, st8 != bv(0, 8), vin)
                        ck("return", "the stack is aligned for the call", e3.cond, e3.r["rsp"] & 15 == (8 if k3 == "call" else 8), vin)
                        frame("return", e3, e3.cond, [(top - 2 * RED, 2 * RED)], [(top - 2 * RED, 2 * RED)], vin)
                    elif k3 in ("call", "jump") and t3 == "abort" or k3 == "stop":
                        reached("entry function returned")
                    else:
                        ck("return", "the process ends", e3.cond, z3.BoolVal(False), vin)
    except Unsupported as ex:
        res["error"] = "cannot encode: %s" % ex
    res.update(instructions=M.ninst, queries=M.queries, solver_s=M.solver_s, sat=M.sat_n, unsat=M.unsat_n, wall_s=time.time() - t0,
               listing=["0x%x %s" % (a, t) for a, (n, t) in sorted(code.ins.items())][:200],
               labels=sorted(n for n in code.sym if not n.endswith("@plt")))
    json.dump(res, open(outp, "w"), indent=1)



main()
