"""Builds the simulator from /repo's current working tree.  Objects are cached by content under /verif/.build."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
SIM = os.path.join(VERIF, "sim")

WRAP = """memcpy memmove memset memcmp memchr strlen strdup strcpy strcmp
sprintf snprintf vsprintf vsnprintf sscanf __isoc99_sscanf __isoc23_sscanf strtol strtoll strtoul strtoull
__isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull atoi strncpy strcat strncat strncmp strchr strrchr strstr
pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_mutex_trylock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast sem_wait sem_post
sched_yield nanosleep clock_nanosleep usleep sleep getrusage getcwd access sched_getcpu
pthread_spin_lock pthread_spin_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
time clock_gettime gettimeofday clock times getpid getppid gettid getuid geteuid gethostname uname sysconf get_nprocs
getenv secure_getenv rand random drand48 lrand48 getrandom getentropy _ZNSt13random_device9_M_getvalEv isatty
open open64 fopen fopen64 stat lstat localtime localtime_r setlocale exit _exit quick_exit dlopen dlsym dlclose dlerror
__cxa_throw __cxa_rethrow _Unwind_Resume
isalpha isdigit isupper islower isalnum isspace isprint isgraph ispunct iscntrl isblank isxdigit tolower toupper""".split()

# as shipped (a Debug build: no optimisation, gnu++11), plus a callback for every memory access
SUT = "g++ -std=gnu++11 -O0 -fPIC -w -fsanitize=thread -fno-stack-protector".split()
# the same with redzones around locals and globals
SUTS = ("g++ -std=gnu++11 -O0 -fPIC -w -fsanitize=kernel-address -fasan-shadow-offset=0x7fff8000 -fsanitize-address-use-after-scope "
        "--param asan-instrumentation-with-call-threshold=0 --param asan-stack=1 --param asan-globals=1 --param asan-use-after-return=0 -fno-stack-protector").split()
HOST = "g++ -std=gnu++17 -O2 -w".split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd)[:600] + "\n" + p.stdout.decode("utf-8", "replace")[-4000:])
    return p.stdout.decode("utf-8", "replace")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(pats):
    files = sorted(f for pat in pats for f in glob.glob(pat, recursive=True) if os.path.isfile(f))
    return sha(*[x for f in files for x in (f, read(f))])


def modules():
    r = REPO
    m = {"lib": sorted(glob.glob(f"{r}/lib/**/*.cpp", recursive=True))}
    for d in sorted(glob.glob(f"{r}/tools/*")) + sorted(glob.glob(f"{r}/examples/eni/*")):
        src = sorted(glob.glob(f"{d}/*.cpp"))
        if not src:
            continue
        n = os.path.basename(d)
        if n == "eni_cli":
            for prog in ("eni_gas", "eni_run"):
                m[prog] = [s for s in src if os.path.basename(s) == prog + ".cpp" or os.path.basename(s) not in ("eni_gas.cpp", "eni_run.cpp")]
        else:
            m[os.path.basename(os.path.dirname(d)) + "_" + n] = src
    return m


def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)


def _build(verbose):
    deps = os.path.join(OUT, "deps", "jsmn")
    os.makedirs(deps, exist_ok=True)
    link = os.path.join(deps, "jsmn.h")
    if not os.path.islink(link):
        os.symlink("/usr/include/jsmn.h", link)
    obj = os.path.join(OUT, "obj")
    os.makedirs(obj, exist_ok=True)
    inc = ["-I", f"{REPO}/include/eni", "-isystem", os.path.join(OUT, "deps")]
    hrepo = tree_hash([f"{REPO}/include/**/*", f"{REPO}/lib/**/*.h", f"{REPO}/tools/**/*.h", f"{REPO}/examples/**/*.h",
                       f"{REPO}/lib/**/*.inc", f"{REPO}/tools/**/*.inc"])
    hsim = tree_hash([f"{SIM}/*.h", f"{SIM}/*.inc"])
    jobs = []   # (object, command, module, images)
    for img, sut in (("t", SUT), ("s", SUTS)):
        for mod, srcs in modules().items():
            for s in srcs:
                cmd = sut + inc + ["-I", os.path.dirname(s)]
                # a source may include sources beside it
                near = tree_hash([os.path.dirname(s) + "/*"])
                o = os.path.join(obj, sha(" ".join(cmd), s, mod, read(s), near, hrepo) + ".o")
                jobs.append((o, cmd + ["-c", s, "-o", o], mod, img))
        for s in sorted(glob.glob(f"{SIM}/sc_*.cpp")):
            cmd = sut + inc + ["-I", SIM, "-I", f"{REPO}/tools/eni_crypto", "-I", f"{REPO}/tools/eni_scrypt"]
            o = os.path.join(obj, sha(" ".join(cmd), s, read(s), hsim, hrepo) + ".o")
            jobs.append((o, cmd + ["-c", s, "-o", o], "sim", img))
    for s in sorted(glob.glob(f"{SIM}/*.cpp")):
        if not os.path.basename(s).startswith("sc_"):
            cmd = HOST + ["-I", SIM]
            o = os.path.join(obj, sha(" ".join(cmd), s, read(s), hsim) + ".o")
            jobs.append((o, cmd + ["-c", s, "-o", o], "sim", "ts"))
    todo = [(o, c) for o, c, _, _ in jobs if not os.path.exists(o)]

    def comp(j):
        o, c = j
        t = o + ".tmp%d" % os.getpid()
        run(c[:-1] + [t])
        os.rename(t, o)

    if verbose and todo:
        print(f"compiling {len(todo)} of {len(jobs)} files")
    # big ones first
    todo.sort(key=lambda j: -os.path.getsize(j[1][-3]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, todo))
    key = sha(*sorted(o for o, _, _, _ in jobs), read(os.path.abspath(__file__)))
    exe = os.path.join(OUT, "sim-" + key)
    if all(os.path.exists(exe + x) for x in ("", "-b", "-s")):
        for x in ("", "-b", "-s"):
            os.utime(exe + x)
        return exe
    # strong global symbols that more than one module defines are made private to their module
    strong = {}
    for o, _, mod, _ in jobs:
        if mod == "sim":
            continue
        for l in run(["nm", "--defined-only", "-g", "-f", "posix", o]).splitlines():
            f = l.split()
            if len(f) >= 2 and f[1] in "TDBRGSC":
                strong.setdefault(f[0], set()).add(mod)
    clash = {n for n, ms in strong.items() if len(ms) > 1} | {"main"}
    stage = os.path.join(OUT, "stage%d" % os.getpid())
    shutil.rmtree(stage, ignore_errors=True)
    os.makedirs(stage)
    try:
        objs = {"t": [], "s": []}
        for o, _, mod, img in jobs:
            if mod not in ("sim", "lib") and clash:
                mp = os.path.join(stage, mod + ".syms")
                if not os.path.exists(mp):
                    with open(mp, "w") as f:
                        for n in sorted(clash):
                            f.write(f"{n} {mod}__{n}\n")
                p = os.path.join(stage, mod + "-" + os.path.basename(o))
                run(["objcopy", "--redefine-syms", mp, o, p])
                o = p
            for x in img:
                objs[x].append(o)
        t = exe + ".tmp%d" % os.getpid()
        # two images of the same program at different addresses, as address space randomisation gives to two nodes
        def link(base, to, img="t", more=()):
            run(["g++", "-static", "-no-pie", "-Wl,-Ttext-segment=" + base, "-Wl,-z,muldefs", "-o", t + base] + objs[img] + list(more)
                + ["-Wl,--wrap=" + w for w in WRAP] + ["-l:libcrypto.a", "-lpthread", "-ldl"])
            os.rename(t + base, to)
        with cf.ThreadPoolExecutor(3) as ex:
            b = [ex.submit(link, "0x7453d000", exe + "-b"), ex.submit(link, "0x71000000", exe + "-s", "s", ["-Wl,--defsym=sim_redzones=1"])]
            link("0x70000000", exe + ".a")
            for x in b:
                x.result()
        os.rename(exe + ".a", exe)
    finally:
        shutil.rmtree(stage, ignore_errors=True)
    # forget old products
    for pat, keep in ((OUT + "/sim-*", 18), (obj + "/*.o", 800)):
        old = sorted(glob.glob(pat), key=os.path.getmtime)
        for f in old[:-keep] if len(old) > keep else []:
            try:
                os.unlink(f)
            except OSError:
                pass
    return exe


if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print(e)
        sys.exit(2)
