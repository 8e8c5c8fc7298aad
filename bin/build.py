"""Build side: everything is compiled from /repo's current working tree."""
import hashlib, json, os, subprocess, re, sys, shutil, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
H = os.path.join(VERIF, "harness")
CLANG = "clang-18"
IRFLAGS = ["-w", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-stack-protector",
           "-U_FORTIFY_SOURCE", "-fno-builtin", "-DNDEBUG", "-DVF_SYMX"]
NATFLAGS = ["-w", "-g", "-O1", "-DNDEBUG", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE",
            "-fsanitize=address,undefined"]
SKIP_DIRS = ("psock/platform/poll", "psock/platform/kqueue")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


def h_bytes(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def lib_sources():
    r = []
    for p in tree(os.path.join(REPO, "src"), (".c",)):
        rel = os.path.relpath(p, os.path.join(REPO, "src"))
        if not rel.startswith(SKIP_DIRS):
            r.append(p)
    return r


def asm_sources():
    # the ELF System V assembly only (the tree also carries other platforms)
    return tree(os.path.join(REPO, "src/fiber/platform/sysv/x86_64"), (".s", ".S"))


_hdr = None
VARIANT = ""        # "enforce": the library configured with run-time checks of method tables


def headers_hash():
    global _hdr
    if _hdr is None:
        fs = tree(os.path.join(REPO, "include"), (".h",)) + tree(os.path.join(REPO, "src"), (".h", ".inc"))
        _hdr = h_bytes(*[x for f in fs for x in (os.path.relpath(f, REPO), read(f))],
                       read(os.path.join(REPO, "config.h.cmake")), codes(), read(os.path.join(REPO, "CMakeLists.txt")),
                       read(os.path.join(H, "renames.txt")), VARIANT, read(__file__))
    return _hdr


def config_dir():
    """config.h as cmake generates it for the tested configuration."""
    d = os.path.join(CACHE, "inc-" + headers_hash())
    p = os.path.join(d, "rcpr", "config.h")
    if os.path.exists(p):
        return d
    cm = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", cm, re.I)
    ver = {}
    for k in ("MAJOR", "MINOR", "REL"):
        x = re.search(r"set\s*\(\s*RCPR_VERSION_%s\s+\"?(\d+)" % k, cm, re.I)
        ver[k] = x.group(1) if x else None
    if m:
        a = (m.group(1).split(".") + ["0", "0", "0"])[:3]
        for k, v in zip(("MAJOR", "MINOR", "REL"), a):
            ver[k] = ver[k] or v
    for k, v in zip(("MAJOR", "MINOR", "REL"), "042"):
        ver[k] = ver[k] or v
    s = read(os.path.join(REPO, "config.h.cmake")).decode()
    for k in ver:
        s = s.replace("@RCPR_VERSION_%s@" % k, ver[k])
    on = {"RCPR_VTABLE_RUNTIME_ENFORCEMENT" if VARIANT == "enforce" else "RCPR_VTABLE_CHECK_ASSERT", "RCPR_FIBER_FOUND", "HAS_PSOCK_ASYNC"}
    s = re.sub(r"#cmakedefine\s+(\w+)",
               lambda x: "#define " + x.group(1) if x.group(1) in on else "/* #undef %s */" % x.group(1), s)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    for path, text in ((os.path.join(d, "vf_codes.h"), codes()), (os.path.join(d, "vf_alias.h"), aliases(s)), (p, s)):
        tmp = "%s.%d.%d.tmp" % (path, os.getpid(), threading.get_ident())
        with open(tmp, "w") as f:
            f.write(text)
        os.replace(tmp, path)
    return d


def codes():
    """The names of the status, component and event codes the public headers define."""
    err, comp, groups = set(), set(), {}
    for h in tree(os.path.join(REPO, "include"), (".h",)):
        s = re.sub(r"/\*.*?\*/", " ", read(h).decode(), flags=re.S)
        # a name that only stands for another one is not a code of its own
        err |= set(re.findall(r"^[ \t]*#[ \t]*define[ \t]+(ERROR_\w+)(?:[ \t]|\\\n)+\(?\s*STATUS_CODE", s, re.M))
        comp |= set(re.findall(r"^[ \t]*#[ \t]*define[ \t]+(RCPR_COMPONENT_\w+)[ \t\\]", s, re.M))
        for b in re.findall(r"\benum\b[^{;]*\{([^}]*)\}", s):
            for n in re.findall(r"(?:^|,)\s*(\w+)", b):
                m = re.match(r"(\w+?_(?:YIELD|RESUME)_EVENT)_(?!.*RESERVED|INTERNAL_COUNT|FLAG_)", n)
                if m:
                    groups.setdefault(m.group(1), set()).add(n)
    out = ["#define VF_ERRORS(X) " + " ".join("X(%s)" % n for n in sorted(err)),
           "#define VF_COMPONENTS(X) " + " ".join("X(%s)" % n for n in sorted(comp)),
           "#define VF_EVENTS(X) " + " ".join("X(%d, %s)" % (i, n) for i, g in enumerate(sorted(groups)) for n in sorted(groups[g]))]
    return "\n".join(out) + "\n"


def aliases(config):
    """A function standing in for each function of the public headers, and a call
    of it through the name that importing its module gives it (harness/misc/alias.c)."""
    root = os.path.join(REPO, "include")
    pub = [h for h in tree(root, (".h",)) if os.path.dirname(h) == os.path.join(root, "rcpr")]
    mods = sorted({m for h in tree(root, (".h",)) for m in re.findall(r"#\s*define\s+RCPR_IMPORT_(\w+)_as\b", read(h).decode())})
    inc = "".join("#include <rcpr/%s>\n" % os.path.basename(h) for h in pub)
    with tempfile.TemporaryDirectory() as t:
        os.makedirs(os.path.join(t, "rcpr"))
        with open(os.path.join(t, "rcpr", "config.h"), "w") as f:
            f.write(config)
        with open(os.path.join(t, "a.c"), "w") as f:
            f.write("#include <stdbool.h>\n#include <stdint.h>\n#include <rcpr/function_decl.h>\n#undef RCPR_SYM\n#define RCPR_SYM(x) vfstub_ ## x\n"
                    + inc + "".join("RCPR_IMPORT_%s_as(al%d);\n" % (m, i) for i, m in enumerate(mods)))
        p = subprocess.run([CLANG, "-I", t, "-I", root, "-I", REPO, "-fsyntax-only", "-Xclang", "-ast-dump=json", os.path.join(t, "a.c")],
                           capture_output=True, text=True)
    if p.returncode:
        return "#error the public headers do not compile\n"
    names, stubs = {}, {}
    for n in json.loads(p.stdout)["inner"]:
        if n["kind"] != "FunctionDecl" or n.get("variadic"):
            continue
        body = any(x["kind"] == "CompoundStmt" for x in n.get("inner", []))
        al = re.match(r"al(\d+)_(\w+)$", n["name"])
        ps = [x["type"]["qualType"] for x in n.get("inner", []) if x["kind"] == "ParmVarDecl"]
        if "va_list" in " ".join(ps):
            continue
        if body and al:
            names[al.group(2)] = mods[int(al.group(1))]
        elif not body and n["name"].startswith("vfstub_"):
            stubs[n["name"][7:]] = (n["type"]["qualType"].split("(")[0].strip(), ps)
    out, cases = [inc], []
    for k, n in enumerate(sorted((n for n in names if n in stubs), key=lambda n: (names[n] == "string", n))):
        r, ps = stubs[n]
        out.append("VF_APART %s vfstub_%s(%s) { vf_here(%d); %s%s }" % (
            r, n, ", ".join("__typeof__(%s) a%d" % (t, i) for i, t in enumerate(ps)) or "void", k,
            " ".join("vf_arg(%d, (uint64_t)a%d);" % (i, i) for i in range(len(ps))),
            "" if r == "void" else " return (%s)vf_answer;" % r))
        call = "VF_ALIAS(%s)(%s)" % (n, ", ".join("(__typeof__(%s))vf_give(%d)" % (t, i) for i, t in enumerate(ps)))
        set_ = " ".join("vf_want[%d] = (uint64_t)(__typeof__(%s))vf_want[%d];" % (i, t, i) for i, t in enumerate(ps))
        cases.append("%scase %d: vf_args = %d; %s %s; break;" % (
            "#ifndef PLAIN\n" if names[n] == "string" else "",
            k, len(ps), set_, call if r == "void" else "vf_got((uint64_t)%s, (uint64_t)(%s)vf_answer)" % (call, r)) + ("\n#endif" if names[n] == "string" else ""))
    out.append("enum { VF_ALIASES = %d, VF_PLAIN_ALIASES = %d };" % (len(cases), sum(names[n] != "string" for n in names if n in stubs)))
    out.append("#define VF_IMPORTS(X) " + " ".join("X(%s)" % m for m in mods))
    # a macro cannot be put together for these: its name would be one as well
    out.append("#define VF_PLAIN_IMPORTS " + " ".join("RCPR_IMPORT_%s;" % m for m in mods if m != "string"))
    out.append("VF_APART static void vf_call(unsigned k)\n{\n    switch (k)\n    {\n%s\n    }\n}" % "\n".join(cases))
    return "\n".join(out[:-1]) + "\nVF_IMPORT_ALL\n" + out[-1] + "\n"


def incs():
    return ["-I", config_dir(), "-I", os.path.join(REPO, "include"), "-I", REPO, "-I", H]


def renames():
    return ["-D%s=vf_sys_%s" % (n, n) for n in read(os.path.join(H, "renames.txt")).decode().split()]


def compile_one(src, flags, kind):
    key = h_bytes(kind, src, read(src), headers_hash(), " ".join(flags),
                  harness_hash() if src.startswith(H) else "")
    out = os.path.join(CACHE, "obj", key + (".bc" if kind == "bc" else ".o"))
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        cc = [CLANG] if kind == "bc" else ["gcc"]
        if src.endswith((".s", ".S")):
            run(["gcc", "-g", "-I", os.path.dirname(src), "-I", REPO, "-c", src, "-o", tmp])
        else:
            run(cc + flags + incs() + (["-emit-llvm"] if kind == "bc" else []) + ["-c", src, "-o", tmp])
        os.replace(tmp, out)
    return out


_hh = None


def harness_hash():
    global _hh
    if _hh is None:
        _hh = h_bytes(*[read(f) for f in tree(H, (".h",))])
    return _hh


def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def prune_cache(limit=1500 * 1024 * 1024):
    try:
        d = os.path.join(CACHE, "obj")
        fs = [(os.path.getatime(os.path.join(d, f)), os.path.getsize(os.path.join(d, f)), os.path.join(d, f))
              for f in os.listdir(d)]
        tot = sum(x[1] for x in fs)
        for a, s, p in sorted(fs):
            if tot < limit:
                break
            if a > time.time() - 7200:      # maybe in use by another run
                continue
            os.unlink(p)
            tot -= s
    except OSError:
        pass


def symx():
    srcs = [os.path.join(VERIF, "symx", f) for f in ("symx.cpp", "expr.h", "build.sh")]
    out = os.path.join(CACHE, "symx-" + h_bytes(*[read(s) for s in srcs]))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        run(["bash", os.path.join(VERIF, "symx", "build.sh"), tmp])
        os.replace(tmp, out)
    return out


def lib_bc():
    """The whole library as one bitcode module."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    fl = IRFLAGS + renames()
    objs = pmap(lambda s: compile_one(s, fl, "bc"), lib_sources())
    out = os.path.join(CACHE, "obj", "lib-" + h_bytes(*objs) + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        run(["llvm-link-18"] + objs + ["-o", tmp])
        os.replace(tmp, out)
    return out


COMMON = ["vf_alloc.c", "vf_res.c", "vf_sys.c"]


def link_query(lib, srcs, defs, extra_flags=(), with_fiber=True):
    d = ["-D%s=%s" % kv for kv in sorted(defs.items())]
    main = [compile_one(os.path.join(H, s), IRFLAGS + d + list(extra_flags), "bc") for s in srcs]
    sup = [compile_one(os.path.join(H, s), IRFLAGS, "bc") for s in COMMON + ["vf_libc.c"] + (["vf_fiber.c"] if with_fiber else [])]
    out = os.path.join(CACHE, "obj", "q-" + h_bytes(lib, *main, *sup) + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        m0 = main[0]
        if len(main) > 1:
            run(["llvm-link-18"] + main + ["-o", tmp + ".m"])
            m0 = tmp + ".m"
        # support first (its definitions win over nothing), then the library
        run(["llvm-link-18", m0, "--only-needed"] + [lib] + sup + ["-o", tmp + ".0"])
        # support pulled in by support
        run(["llvm-link-18", tmp + ".0", "--only-needed"] + sup + [lib] + ["-o", tmp + ".1"])
        run(["llvm-link-18", tmp + ".1", "--only-needed"] + sup + [lib] + ["-o", tmp + ".2"])
        run(["opt-18", "-passes=function(sroa,instsimplify,simplifycfg)", tmp + ".2", "-o", tmp])
        os.replace(tmp, out)
        for x in (".0", ".1", ".2", ".m"):
            if os.path.exists(tmp + x):
                os.unlink(tmp + x)
    return out


def native_lib(extra=()):
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    fl = NATFLAGS + list(extra) + renames()
    objs = pmap(lambda s: compile_one(s, fl, "o"), lib_sources())
    objs += [compile_one(s, [], "o") for s in asm_sources()]
    out = os.path.join(CACHE, "obj", "nlib-" + h_bytes(*objs) + ".a")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        run(["ar", "rcs", tmp] + objs)
        os.replace(tmp, out)
    return out


def native_exe(srcs, defs, extra_flags=(), extra=()):
    lib = native_lib(extra)
    d = ["-D%s=%s" % kv for kv in sorted(defs.items())]
    fl = NATFLAGS + list(extra)
    objs = [compile_one(os.path.join(H, s), fl + d + list(extra_flags), "o") for s in srcs]
    objs += [compile_one(os.path.join(H, s), fl, "o") for s in COMMON + ["vf_native.c"]]
    out = os.path.join(CACHE, "obj", "x-" + h_bytes(lib, *objs))
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        run(["gcc"] + fl + objs + [lib, "-lpthread", "-o", tmp])
        os.replace(tmp, out)
    return out
