#!/usr/bin/env python3
"""Builds the system under test from /repo's working tree, in the variants the checks use,
and links each with the simulator and the harness.  Output is cached under /verif/build by a
hash of everything that goes in, so an edit in /repo is always seen."""
import os, sys, hashlib, subprocess, glob, re, shutil, fcntl, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

# name: (label, index, distance, dmax, dmin, debug, optimisation, instrumentation)
VARIANTS = {
    "default": ("unsigned int", "unsigned int", "double", "DBL_MAX", "DBL_MIN", False, "-O0", "tsan"),
    "short":   ("unsigned short", "unsigned short", "float", "FLT_MAX", "FLT_MIN", False, "-O0", "tsan"),
    "long":    ("unsigned long", "unsigned long", "double", "DBL_MAX", "DBL_MIN", False, "-O0", "tsan"),
    "debug":   ("unsigned int", "unsigned int", "double", "DBL_MAX", "DBL_MIN", True, "-O0", "tsan"),
    "asan":    ("unsigned int", "unsigned int", "double", "DBL_MAX", "DBL_MIN", False, "-O0", "asan"),
    "asandebug": ("unsigned int", "unsigned int", "double", "DBL_MAX", "DBL_MIN", True, "-O0", "asan"),
    "asanshort": ("unsigned short", "unsigned short", "float", "FLT_MAX", "FLT_MIN", False, "-O0", "asan"),
    "asanlong": ("unsigned long", "unsigned long", "double", "DBL_MAX", "DBL_MIN", False, "-O0", "asan"),
}

RENAMES = {}
for n in ("malloc calloc realloc free memcpy memmove memset memcmp strlen strcpy strcat strncpy strncat strdup strcmp "
          "qsort time clock localtime localtime_r strftime ctime printf vprintf puts putchar fprintf vfprintf "
          "fputs fputc fwrite fopen fclose fflush ferror feof fgets remove rename snprintf vsnprintf sprintf vsprintf "
          "abort exit rand srand getenv pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock "
          "fseek ftell rewind fread putc setvbuf setbuf clearerr perror gmtime gmtime_r gettimeofday clock_gettime sched_yield usleep nanosleep strndup "
          "pthread_mutex_trylock pthread_once asprintf vasprintf reallocarray aligned_alloc posix_memalign").split():
    RENAMES[n] = "sim_" + n
RENAMES.update({"__assert_fail": "sim_assert_fail", "_Znwm": "sim_new", "_Znam": "sim_new_arr", "_ZdlPv": "sim_delete",
                "_ZdlPvm": "sim_delete_sz", "_ZdaPv": "sim_delete_arr", "_ZdaPvm": "sim_delete_arr_sz",
                "_ZnwmRKSt9nothrow_t": "sim_new_nt", "_ZnamRKSt9nothrow_t": "sim_new_arr_nt", 
                })

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(3)
    return r.stdout

def repo_sources():
    pats = ["src/*.c", "src/*.cpp", "modules/collections/src/*.c", "modules/utils/src/*.c"]
    return sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p)))
def repo_inputs():
    pats = ["include/**/*", "modules/*/include/**/*", "config.h.in", "modules/java/src/*.cpp", "modules/java/src/*.h", "modules/java/src/**/*.java", "modules/python/src/*.c"]
    return repo_sources() + sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p), recursive=True) if os.path.isfile(f))
def own_inputs():
    return sorted(f for f in glob.glob(VERIF + "/sim/*") + glob.glob(VERIF + "/harness/**/*", recursive=True) if os.path.isfile(f)) + [os.path.abspath(__file__)]

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:20]

def gen_config(dst, v):
    lab, idx, dist, dmax, dmin, debug, _, _ = v
    s = open(os.path.join(REPO, "config.h.in")).read()
    s = re.sub(r"#cmakedefine DEBUG\b.*", "#define DEBUG" if debug else "/* #undef DEBUG */", s)
    sub = {"LABEL_TYPE": lab, "INDEX_TYPE": idx, "DISTANCE_TYPE": dist, "D_MAX": dmax, "D_MIN": dmin,
           "HDBSCAN_MAJOR_VERSION": "1", "HDBSCAN_MINOR_VERSION": "0", "HDBSCAN_PATCH_VERSION": "0", "HDBSCAN_VERSION": "1.0.0"}
    for k, x in sub.items(): s = s.replace("@%s@" % k, x)
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(dst, "config.h"), "w") as f: f.write(s)

INC = ["-I" + os.path.join(REPO, "include")]
def includes(gen):
    return ["-I" + gen, "-I" + VERIF + "/harness", "-I" + os.path.join(REPO, "include")] + ["-I" + d for d in sorted(glob.glob(os.path.join(REPO, "modules/*/include"))) if "/cuda/" not in d]

def instr(v):
    base = [v[6], "-g", "-w", "-fopenmp", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-pie", "-fno-omit-frame-pointer", "-fno-ipa-sra"]
    if v[7] == "tsan": return base + ["-fsanitize=thread"]
    return base + ["-fsanitize=kernel-address", "-fasan-shadow-offset=0x7fff8000", "--param", "asan-instrumentation-with-call-threshold=0",
                   "--param", "asan-stack=1", "--param", "asan-globals=1", "--param", "asan-instrument-allocas=1", "-fsanitize-address-use-after-scope"]

def merge(objs, out):
    tmp = out + ".r.o"
    run(["ld", "-r", "-z", "muldefs", "--force-group-allocation", "-o", tmp] + objs)
    args = []
    for a, b in RENAMES.items(): args += ["--redefine-sym", "%s=%s" % (a, b)]
    run(["objcopy"] + args + [tmp])
    # weak (inline/template) symbols stay inside the object so that they cannot mix with the harness's own copies
    syms = run(["nm", tmp]).splitlines()
    weak = sorted({l.split()[-1] for l in syms if len(l.split()) == 3 and l.split()[1] in "WVu"})
    with open(out + ".weak", "w") as f: f.write("\n".join(weak) + "\n")
    run(["objcopy", "--localize-symbols=" + out + ".weak", tmp, out])
    os.unlink(tmp)

_objlocks = {}; _ol = threading.Lock()
def job(j):
    """a compile command, or one whose result is shared by the variants"""
    if j[0] != "cached": return run(j)
    _, cmd, o = j
    with _ol: lk = _objlocks.setdefault(o, threading.Lock())
    with lk:
        if os.path.exists(o): return
        os.makedirs(os.path.dirname(o), exist_ok=True); tmp = o + ".%d.tmp" % os.getpid(); run(cmd + ["-o", tmp]); os.rename(tmp, o)

def build_all(names):
    with ThreadPoolExecutor(len(names)) as ex: return dict(zip(names, ex.map(build_named, names)))

# a binding on top of a configuration
HOSTS = {"java": ("default", "java"), "python": ("default", "python"), "pyshort": ("short", "python"), "pylong": ("long", "python")}
def build_named(v): return build(*HOSTS.get(v, (v, "")))

def build(variant, host="", jobs=8):
    """returns the path of the executable"""
    v = VARIANTS[variant]
    with_java = host == "java"; with_py = host == "python"
    key = digest(repo_inputs() + own_inputs(), repr((variant, v, host)))
    d = os.path.join(OUT, "%s%s-%s" % (variant, "-" + host if host else "", key))
    exe = os.path.join(d, "simrun")
    if os.path.exists(exe): return exe
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock-" + variant + host), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        for old in glob.glob(os.path.join(OUT, "%s%s-*" % (variant, "-" + host if host else ""))):
            if re.search(r"/%s%s-[0-9a-f]{20}(\.tmp\d+)?$" % (variant, "-" + host if host else ""), old): shutil.rmtree(old, ignore_errors=True)
        t = d + ".tmp%d" % os.getpid()
        os.makedirs(t)
        gen = os.path.join(t, "gen"); gen_config(gen, v)
        inc = includes(gen); ins = instr(v)
        jobsl = []; sut = []
        for i, f in enumerate(repo_sources() + [VERIF + "/harness/client.cpp"] + (sorted(glob.glob(REPO + "/modules/java/src/*.cpp")) if with_java else []) + (sorted(glob.glob(REPO + "/modules/python/src/*.c")) if with_py else [])):
            o = os.path.join(t, "s%d.o" % i); sut.append(o)
            if "/modules/python/" in f: jobsl.append(["gcc", "-c", f, "-o", o] + ins + inc + py_inc())
            elif f.endswith(".c"): jobsl.append(["gcc", "-fgnu89-inline", "-c", f, "-o", o] + ins + inc)
            else: jobsl.append(["g++", "-std=gnu++17", "-c", f, "-o", o] + ins + inc + java_inc())
        own = []; hcpp = digest([f for f in own_inputs() if f.endswith(".hpp") or f.endswith(".h")])
        for f in sorted(glob.glob(VERIF + "/sim/*.cpp") + glob.glob(VERIF + "/harness/*.cpp") + glob.glob(VERIF + "/harness/*.c")):
            b = os.path.basename(f)
            if b == "client.cpp": continue
            if b == "jni_fake.cpp" and not with_java: continue
            if b == "py_host.cpp" and not with_py: continue
            if f.endswith(".c"):   # knows the repository's structures: compiled per variant
                o = os.path.join(t, "h_" + b + ".o"); own.append(o); jobsl.append(["gcc", "-fgnu89-inline", "-O1", "-g", "-w", "-fno-pie", "-c", f, "-o", o] + inc); continue
            defs = (["-DSIM_STACK_SHADOW"] if v[7] == "asan" and b == "rt.cpp" else []) + (["-DWITH_JAVA"] if with_java and b == "main.cpp" else []) + (["-DWITH_PYTHON"] if with_py and b == "main.cpp" else []) + (['-DVARIANT="%s"' % variant] if b == "main.cpp" else [])
            cmd = ["g++", "-std=c++17", "-O2" if b == "rt.cpp" else "-O1", "-fno-omit-frame-pointer", "-g1", "-w", "-fno-pie", "-I" + VERIF + "/sim", "-I" + VERIF + "/harness", "-c", f] + defs + (java_inc() + ['-DJAVA_SRC="%s"' % os.path.join(REPO, "modules/java/src/bw/co/roguesystems/Hdbscan.java")] if b == "jni_fake.cpp" else []) + (py_inc() if b == "py_host.cpp" else [])
            o = os.path.join(OUT, "obj", digest([f], hcpp + repr(cmd)) + ".o"); own.append(o); jobsl.insert(0, ("cached", cmd, o))
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(job, jobsl))
        merge(sut, os.path.join(t, "sut.o"))
        run(["g++", "-no-pie", "-g", "-z", "muldefs", "-o", os.path.join(t, "simrun"), os.path.join(t, "sut.o")] + own + (py_libs() if with_py else []) + ["-lm"])
        for o in sut: os.unlink(o)
        if with_java: build_classes(t)
        os.rename(t, d)
    return exe

def build_classes(t):
    """the Java class of the tree, its native methods leading to the simulator; without it the other Java cases still run"""
    src = []; out = os.path.join(t, "classes"); root = os.path.join(REPO, "modules/java/src")
    for f in sorted(glob.glob(root + "/**/*.java", recursive=True)):
        s = open(f, errors="replace").read()
        s = re.sub(r'"(?:\\.|[^"\\\n])*"|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' else " ", s, flags=re.S)
        s = re.sub(r"\bSystem\s*\.\s*load(Library)?\s*\(", "verif.Bridge.load(", s)
        def nat(m):
            mods, typ, name, par, thr = m.group(1) + " " + m.group(2), m.group(3), m.group(4), m.group(5), m.group(6) or ""
            args = ", ".join(re.findall(r"(\w+)\s*(?:\[\s*\]\s*)*$", p.strip())[0] for p in par.split(",") if p.strip())
            return "%s %s %s(%s) %s { %sverif.Bridge.call(%s, \"%s\", new Object[]{%s}); }" % (mods, typ, name, par, thr, "" if typ == "void" else "return (%s)" % typ, "null" if re.search(r"\bstatic\b", mods) else "this", name, args)
        mod = r"((?:(?:public|private|protected|static|final|synchronized)\s+)*)"
        s = re.sub(mod + r"\bnative\s+" + mod + r"([\w.<>]+(?:\s*\[\s*\])*)\s+(\w+)\s*\(([^)]*)\)\s*(throws\s+[\w.,\s]+)?;", nat, s)
        o = os.path.join(t, "java", os.path.relpath(f, root)); os.makedirs(os.path.dirname(o), exist_ok=True); open(o, "w").write(s); src += [o] if f.endswith("/Hdbscan.java") else []   # the only one in the jar
    os.makedirs(out); own = sorted(glob.glob(VERIF + "/harness/java/verif/*.java"))
    r = subprocess.run(["javac", "-nowarn", "-proc:none", "-encoding", "UTF-8", "-sourcepath", os.path.join(t, "java"), "-d", out] + own + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: shutil.rmtree(out); sys.stderr.write("note: the Java class is not run, as it could not be compiled for the simulator: %s\n" % r.stdout[-800:])

def java_inc():
    j = "/usr/lib/jvm/java-17-openjdk-amd64/include"
    return ["-I" + j, "-I" + j + "/linux"]

_py = None
def py_info():
    """headers and library of the system's own Python, the one the repository builds its module for"""
    global _py
    if not _py:
        o = run(["/usr/bin/python3", "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('LIBDIR'));print('python'+sysconfig.get_config_var('LDVERSION'))"])
        _py = o.split("\n")
    return _py
def py_inc(): return ["-I" + py_info()[0], "-I" + py_info()[1]]
def py_libs(): return ["-L" + py_info()[2], "-l" + py_info()[3]]

if __name__ == "__main__":
    names = sys.argv[1:] or list(VARIANTS)
    for n in names:
        t0 = time.time()
        print(build_named(n), "%.1fs" % (time.time() - t0))
