"""Builds the implementations of /repo's working tree as modules of the simulator, and the simulator itself.

Everything is built under /verif/build, keyed by the content of the sources, so that a build is only reused for
identical inputs. /repo is only read."""
import vfasm, glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
LEVELS = {"LightSaber": 2, "Saber": 3, "FireSaber": 4}
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def choose(text, macro, value):
    """Leaves exactly one '#define MACRO value' line active, however the others are written."""
    pat = re.compile(r"^[ \t]*(?://[ \t]*)?#[ \t]*define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, re.M)
    found = [m.group(1) for m in pat.finditer(text)]
    if value not in found:
        raise BuildError("no '#define %s %s' line" % (macro, value))
    return pat.sub(lambda m: ("" if m.group(1) == value else "// ") + "#define %s %s%s" % (macro, m.group(1), m.group(2)), text)


def switch(text, macro, on):
    pat = re.compile(r"^[ \t]*(?://[ \t]*)?#[ \t]*define[ \t]+%s[ \t]*$" % macro, re.M)
    if not pat.search(text):
        raise BuildError("no '#define %s' line" % macro)
    return pat.sub(("" if on else "// ") + "#define " + macro, text, count=1)


def host_configs():
    out = []
    for name, k in LEVELS.items():
        out.append(dict(id="ref-" + name, dir="Reference_Implementation_KEM", l=k, u=0, n=0, lanes=1,
                        edits={"SABER_params.h": [(choose, "SABER_L", str(k))]}, flags=[]))
        out.append(dict(id="avx-" + name, dir="AVX_Implementation_KEM", l=k, u=0, n=0, lanes=1,
                        edits={"api.h": [(choose, "SABER_TYPE", name)]}, flags=["-msse2avx", "-mavx2"]))
        for n in (0, 1):
            out.append(dict(id="uavx-" + name + ("-90s" if n else ""), dir="Variants/uSaber-90s/avx2", l=k, u=0, n=n, lanes=1,
                            edits={"api.h": [(choose, "SABER_TYPE", name)], "SABER_params.h": [(switch, "Saber90s", n)]},
                            flags=["-msse2avx", "-mavx2", "-fcommon"]))
            for u in (0, 1):
                out.append(dict(id="uref-" + ("u" if u else "") + name + ("-90s" if n else ""), dir="Variants/uSaber-90s/ref",
                                l=k, u=u, n=n, lanes=1,
                                edits={"SABER_params.h": [(choose, "SABER_L", str(k)), (switch, "uSaber", u), (switch, "Saber90s", n)]},
                                flags=[]))
    out.append(dict(id="x4-Saber", dir="Variants/SaberX4_avx2", l=3, u=0, n=0, lanes=4, edits={}, flags=["-msse2avx", "-mavx2", "-fcommon"]))
    return out


WRAP = ["randombytes", "abort", "exit", "malloc", "calloc", "free", "realloc", "aligned_alloc", "memalign",
        "posix_memalign", "_exit", "_Exit", "quick_exit", "__assert_fail"]
WRAP_LIB = re.findall(r"^LIB\((\w+)\)", open(os.path.join(SIM, "libcalls.h")).read(), re.M)
WRAP_INST = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strncmp", "strcmp", "strlen", "memchr", "pthread_mutex_lock"]
OPT = ["-O3", "-fomit-frame-pointer", "-march=native"]
FLAVOURS = {
    # as the project's Makefiles build it
    "plain": dict(cflags=OPT, shim=["-O2"], wrap=WRAP, link=[]),
    # with failing library calls
    "lib": dict(cflags=OPT, shim=["-O2", "-DSIM_LIB"], wrap=WRAP + WRAP_LIB, link=[]),
    # every memory access and basic block reports to the simulator
    "inst": dict(cflags=["-O2", "-march=native", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-fno-builtin-strncmp", "-fno-builtin-strcmp", "-fno-builtin-strlen", "-fno-builtin-memchr",
                         "-U_FORTIFY_SOURCE", "-fno-stack-protector",
                         "--param", "tsan-instrument-func-entry-exit=1"],
                 shim=["-O2", "-DSIM_INST", "-fno-builtin"], wrap=WRAP + WRAP_INST, link=[]),
    # the very machine code of "plain", every memory operand and branch reports (vfasm.py)
    "asm": dict(cflags=OPT + ["-U_FORTIFY_SOURCE"], asm=1, shim=["-O2", "-DSIM_INST", "-DSIM_ASM", "-fno-builtin"], wrap=WRAP + WRAP_INST, link=[]),
    "asan": dict(cflags=["-U_FORTIFY_SOURCE", "-O1", "-g", "-march=native", "-fsanitize=address", "-fsanitize-recover=address", "-fno-omit-frame-pointer"],
                 shim=["-O1", "-g", "-fsanitize=address", "-fsanitize-recover=address"], wrap=WRAP, link=["-fsanitize=address"]),
}


KNOWN_UNDEF = ("cpucycles", "malloc", "free", "realloc", "calloc", "memcpy", "memset", "memmove", "memcmp")


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")


SKIP = (".o", ".a", ".d", ".elf", ".bin", ".hex", ".map", ".lst", ".req", ".rsp", ".pyc")


def read_tree(d):
    """{relative path: bytes} of an implementation's directory, without tests and products."""
    root = os.path.join(REPO, d)
    files = {}
    for base, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("obj", "test"))
        for n in sorted(names):
            p = os.path.join(base, n)
            if n.startswith("._") or n.endswith(SKIP) or not os.path.isfile(p):
                continue
            with open(p, "rb") as f:
                data = f.read()
            if data[:4] != b"\x7fELF":
                files[os.path.relpath(p, root)] = data
    return files


def sources(files):
    """The translation units that the project's Makefile links (its SOURCES), with the generator."""
    text = files.get("Makefile", b"").decode(errors="replace").replace("\\\n", " ")
    m = re.search(r"^SOURCES[ \t]*=(.*)$", text, re.M)
    names = m.group(1).split() if m else []
    out = []
    for n in names + ["rng.o"]:
        n = re.sub(r"\.o$", ".c", n)
        if n in files and n not in out:
            out.append(n)
    if not out:
        raise BuildError("cannot find the list of sources")
    return out


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:20]


WIDE = re.compile(r"^(?:long long( unsigned)? int|(?:u)?int64_t|__u?int64_t)$")
HOSTWIDE = re.compile(r"^(?:long( unsigned)? int|size_t|ssize_t|ptrdiff_t|u?intptr_t|unsigned long)$")
NARROW = re.compile(r"^(?:(?:short |long )?(?:unsigned )?int|(?:short|long)( unsigned)? int|(?:signed |unsigned )?char|_Bool|bool|unsigned|u?int(?:_fast|_least)?(?:8|16|32)_t|size_t|ssize_t|ptrdiff_t|u?intptr_t)$")


def prototypes(paths, host):
    """{function: how it is called}, one letter per argument, from the declarations the compiler saw (gcc's -aux-info):
    p/c pointer to something writable/constant, L/I integer of 64 bits/less, ? unknown. '-': it is static. And the type of keystream contexts."""
    out, ctx = {}, None
    for path in paths:
        try:
            text = open(path, errors="replace").read()
        except OSError:
            continue
        for line in text.splitlines():
            m = re.match(r"/\* (\S+?):\d+:(\w\w) \*/ (extern|static) .*?(\w+) \((.*?)\);", line)
            if not m or m.group(1).startswith("/usr"):
                continue
            kind, cls, name, args = m.group(2), m.group(3), m.group(4), m.group(5)
            if cls == "static":
                out.setdefault(name, "-")
                continue
            if "???" in args:
                continue
            sig = ""
            for a in [] if args.strip() == "void" else args.split(","):
                a = a.strip()
                if "*" in a:
                    sig += "c" if re.match(r"(?:\w+ )*?const\b", a.split("*")[0]) else "p"
                    continue
                b = re.sub(r"\b(const|register|volatile|restrict)\b ?", "", a)
                b = b if NARROW.match(b) or WIDE.match(b) or HOSTWIDE.match(b) else re.sub(r" ?\b\w+$", "", b)
                sig += "L" if WIDE.match(b) or host and HOSTWIDE.match(b) else "I" if NARROW.match(b) else "?"
            if kind.endswith("F") or out.get(name, "-") == "-":
                out[name] = sig or "void"
            if name == "aes256ctr_init" and sig[:1] == "p":
                ctx = re.match(r"(\w+) \*", args)
                ctx = ctx and ctx.group(1)
    return out, ctx


def write_prototypes(path, protos):
    with open(path, "w") as f:
        for n in sorted(protos):
            f.write("%s %s\n" % (n, protos[n]))


_tool = None


def toolchain():
    global _tool
    if _tool is None:
        t = subprocess.run(["gcc", "-march=native", "-Q", "--help=target"], stdout=subprocess.PIPE).stdout
        _tool = digest(re.sub(rb"/tmp/\S+", b"", t))
    return _tool


def sim_file(name):
    with open(os.path.join(SIM, name), "rb") as f:
        return f.read()


def fresh_dir(path):
    tmp = tempfile.mkdtemp(dir=BUILD)
    return tmp


def publish(tmp, final):
    try:
        os.rename(tmp, final)
    except OSError:  # somebody else was faster
        shutil.rmtree(tmp, ignore_errors=True)


def build_module(conf, flavour):
    fl = FLAVOURS[flavour]
    files = read_tree(conf["dir"])
    if not files:
        raise BuildError(conf["dir"] + " is missing")
    for name, edits in conf["edits"].items():
        if name not in files:
            raise BuildError("%s/%s is missing" % (conf["dir"], name))
        text = files[name].decode("utf-8", "surrogateescape")
        for fn, *args in edits:
            text = fn(text, *args)
        files[name] = text.encode("utf-8", "surrogateescape")
    key = digest(3, toolchain(), sorted(files.items()), conf["flags"], fl, sim_file("shim.c"), sim_file("shim.h"), sim_file("libcalls.h"),
                 open(vfasm.__file__, "rb").read() if fl.get("asm") else None)
    final = os.path.join(BUILD, "%s.%s.%s" % (conf["id"], flavour, key))
    so = os.path.join(final, conf["id"] + ".so")
    if os.path.exists(so):
        return so
    tmp = fresh_dir(final)
    try:
        for name, data in files.items():
            p = os.path.join(tmp, "src", name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        src = os.path.join(tmp, "src")
        units = sources(files)
        vs = os.path.join(tmp, "exports")
        with open(vs, "w") as f:
            f.write("{ global: sim_module; local: *; };\n")
        out = os.path.join(tmp, conf["id"] + ".so")
        # C99 'inline' functions exist only where the optimiser inlines them: if one is left over, optimise as the project does
        for extra in ([], ["-O3"]):
            objs = []
            jobs = []
            for i, u in enumerate(units):
                o = os.path.join(tmp, "u%d.o" % i)
                objs.append(o)
                if fl.get("asm"):
                    a = os.path.join(tmp, "u%d.s" % i)
                    run(["gcc", "-fPIC", "-w", "-S", *fl["cflags"], *extra, *conf["flags"], u, "-o", a], cwd=src)
                    with open(a, encoding="latin1") as f:
                        text = vfasm.instrument(f.read())
                    with open(a, "w", encoding="latin1") as f:
                        f.write(text)
                    jobs.append(["gcc", "-c", a, "-o", o])
                else:
                    jobs.append(["gcc", "-fPIC", "-w", "-aux-info", os.path.join(tmp, "u%d.aux" % i), "-c", *fl["cflags"], *extra, *conf["flags"], u, "-o", o])
            for j in jobs:
                run(j, cwd=src)
            jobs = []
            protos, ctx = prototypes(sorted(glob.glob(os.path.join(tmp, "u*.aux"))), True)
            write_prototypes(os.path.join(tmp, "protos"), protos)
            o = os.path.join(tmp, "shim.o")
            objs.append(o)
            jobs.append(["gcc", "-fPIC", "-w", "-c", *fl["shim"], *(["-DAESCTX_TYPE=" + ctx] if ctx else []), "-I" + src, "-I" + SIM, os.path.join(SIM, "shim.c"), "-o", o])
            for j in jobs:
                run(j, cwd=src)
            run(["gcc", "-shared", "-o", out, *objs, *fl["link"], "-Wl,-Bsymbolic",
                 "-Wl,--version-script=" + vs, *["-Wl,--wrap=" + w for w in fl["wrap"]], "-lcrypto"])
            left = [x.split()[-1] for x in run(["nm", "-D", "--undefined-only", out]).splitlines() if " U " in x and "@" not in x]
            if not [x for x in left if not x.startswith(("__asan", "__tsan", "__sanitizer", "__ubsan")) and x not in KNOWN_UNDEF]:
                break
        shutil.rmtree(src)
        for o in objs:
            os.remove(o)
        for a in glob.glob(os.path.join(tmp, "u*.s")) + glob.glob(os.path.join(tmp, "u*.aux")):
            os.remove(a)
        publish(tmp, final)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return so


SIM_FLAGS = ["-std=c++17", "-O2", "-march=native", "-Wall", "-Wextra", "-Wno-unused-parameter", "-pthread"]


def build_sim(asan=False):
    srcs = sorted(glob.glob(os.path.join(SIM, "*.cc")))
    hdrs = sorted(glob.glob(os.path.join(SIM, "*.h")))
    flags = SIM_FLAGS + (["-fsanitize=address", "-fsanitize-recover=address", "-DSIM_ASAN", "-g"] if asan else [])
    key = digest(toolchain(), flags, [open(f, "rb").read() for f in srcs + hdrs])
    final = os.path.join(BUILD, "sim%s.%s" % ("-asan" if asan else "", key))
    exe = os.path.join(final, "sim")
    if os.path.exists(exe):
        return exe
    tmp = fresh_dir(final)
    try:
        def one(s):
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            opt = ["-O3"] if os.path.basename(s) in ("model.cc", "arm.cc") else []
            run(["g++", *flags, *opt, "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, srcs))
        run(["g++", *flags, "-rdynamic", *objs, "-o", os.path.join(tmp, "sim"), "-lcrypto", "-ldl"])
        publish(tmp, final)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


# ---------------------------------------------------------------- code for the simulated processors

ARM_CC = "arm-none-eabi-gcc"
M4_FLAGS = ["-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=hard", "-mfpu=fpv4-sp-d16", "-O3"]
M0_FLAGS = ["-mthumb", "-mcpu=cortex-m0", "-O3", "-g"]
M4_ROOT = "Cortex-M_Implementation_KEM/Cortex-M4/src"
M0_ROOT = "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem"


COMPRESS = re.compile(r"^[ \t]*(?://[ \t]*)?#[ \t]*define[ \t]+SABER_COMPRESS_SECRETKEY[ \t]*$", re.M)


SPEED = re.compile(r"^#[ \t]*define[ \t]+SPEED[ \t]*$", re.M)


def arm_jobs(kinds):
    jobs = []
    if "m4" in kinds:
        for name, k in LEVELS.items():
            for var in ("m4-striding", "m4-tc4kara"):
                d = "%s/%s/%s" % (M4_ROOT, name.lower(), var)
                jobs.append(("m4", "%s-%s" % (var, name), d, k, 0))
                # the documented build option that stores the secret as 4-bit values
                if COMPRESS.search(read_tree(d).get("SABER_params.h", b"").decode("utf-8", "surrogateescape")):
                    jobs.append(("m4", "%s-%s-4bit" % (var, name), d, k, 1))
    if "m0" in kinds:
        jobs.append(("m0", "m0-Saber", M0_ROOT, 3, 0))
    if "m0mem" in kinds:
        # the build that evaluate.py makes to measure the stack instead of the time
        if SPEED.search(read_tree(M0_ROOT).get("src/main.c", b"").decode("utf-8", "surrogateescape")):
            jobs.append(("m0mem", "m0mem-Saber", M0_ROOT, 3, 0))
    if "m0per" in kinds:
        # the build with neither: the test program for the peripherals
        if SPEED.search(read_tree(M0_ROOT).get("src/main.c", b"").decode("utf-8", "surrogateescape")):
            jobs.append(("m0per", "m0per-Saber", M0_ROOT, 3, 0))
    return jobs


def build_arm(kind, id, d, l, packed):
    files = read_tree(d)
    files.pop("Makefile", None) if kind == "m4" else None
    if not files:
        raise BuildError(d + " is missing")
    if packed:
        files["SABER_params.h"] = switch(files["SABER_params.h"].decode("utf-8", "surrogateescape"), "SABER_COMPRESS_SECRETKEY", 1).encode("utf-8", "surrogateescape")
    if kind in ("m0mem", "m0per"):
        files["src/main.c"] = SPEED.sub("#define MEMSIZE" if kind == "m0mem" else "", files["src/main.c"].decode("utf-8", "surrogateescape")).encode("utf-8", "surrogateescape")
    sup = {n: sim_file("arm/" + n) for n in ("fips202.h", "randombytes.h", "stubs.S", "m4.ld")} if kind == "m4" else {}
    key = digest(2, kind, M4_FLAGS, M0_FLAGS, sorted(files.items()), sorted(sup.items()))
    final = os.path.join(BUILD, "%s.%s" % (id, key))
    elf = os.path.join(final, id + ".elf")
    if os.path.exists(elf):
        return elf
    tmp = fresh_dir(final)
    try:
        src = os.path.join(tmp, "src")
        for name, data in files.items():
            p = os.path.join(src, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        out = os.path.join(tmp, id + ".elf")
        objs = []
        if kind == "m4":
            inc = os.path.join(SIM, "arm")
            units = sorted(n for n in files if n.endswith((".c", ".s", ".S")) and "/" not in n)
            for i, u in enumerate(units):
                o = os.path.join(tmp, "u%d.o" % i)
                run([ARM_CC, *M4_FLAGS, "-w", "-I" + inc, "-c", u, "-o", o], cwd=src)
                objs.append(o)
            o = os.path.join(tmp, "stubs.o")
            run([ARM_CC, *M4_FLAGS, "-c", os.path.join(inc, "stubs.S"), "-o", o], cwd=src)
            objs.append(o)
            run([ARM_CC, *M4_FLAGS, "-nostartfiles", "-specs=nosys.specs", "-Wl,-T," + os.path.join(inc, "m4.ld"), *objs, "-o", out], cwd=src)
        else:
            text = files["Makefile"].decode(errors="replace").replace("\\\n", " ")
            names = []
            for var in ("SRC", "SABER_SRC"):
                for m in re.finditer(r"^%s[ \t]*:?=(.*)$" % var, text, re.M):
                    names += m.group(1).split()
            units = []
            for n in names:
                n = n.replace("$(SDIR)/", "")
                n = "src/" + n
                if n in files and n not in units:
                    units.append(n)
            if not units:
                raise BuildError("cannot find the list of sources of the firmware")
            # the link order of the Makefile: board files first
            for i, u in enumerate(units):
                o = os.path.join(tmp, "u%d.o" % i)
                run([ARM_CC, *M0_FLAGS, "-w", "-I./include", "-aux-info", o + ".aux", "-c", u, "-o", o], cwd=src)
                objs.append(o)
            aux = [o + ".aux" for o in objs if os.path.exists(o + ".aux")]
            write_prototypes(os.path.join(tmp, "protos"), prototypes(aux, False)[0])
            for a in aux:
                os.remove(a)
            run([ARM_CC, *M0_FLAGS, "-o", out, *objs, "-Wl,-T,linker_script.ld", "-nostartfiles", "-lgcc"], cwd=src)
        shutil.rmtree(src)
        for o in objs:
            os.remove(o)
        publish(tmp, final)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return elf


def build_set(pairs, arm=()):
    """pairs: (configuration, flavour). Returns the directory with modules.txt and arm.txt."""
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(build_arm, *a) for a in arm]
        sos = list(ex.map(lambda p: build_module(*p), pairs))
        elfs = [f.result() for f in futs]
    lines = []
    for (c, fl), so in zip(pairs, sos):
        lines.append("%s %s %s %d %d %d %d\n" % (c["id"], fl, so, c["l"], c["u"], c["n"], c["lanes"]))
    alines = ["%s %s %s %d %d\n" % (a[0], a[1], e, a[3], a[4]) for a, e in zip(arm, elfs)]
    key = digest(lines, alines)
    d = os.path.join(BUILD, "set." + key)
    os.makedirs(d, exist_ok=True)
    for name, ls in (("modules.txt", lines), ("arm.txt", alines)):
        tmp = tempfile.NamedTemporaryFile("w", dir=d, delete=False)
        tmp.write("".join(ls))
        tmp.close()
        os.rename(tmp.name, os.path.join(d, name))
    return d
