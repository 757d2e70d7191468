"""Builds the simulator and rank.so (real GA/ComEx sources of /repo + a harness) into a scratch directory."""
import os, re, subprocess, sys, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GA_REPO", "/repo")
WRAPS = """gethostname gethostid getpid usleep sleep nanosleep sched_yield pause time exit _exit abort __assert_fail
shm_open shm_unlink ftruncate close mmap munmap msync sem_init sem_destroy sem_open sem_close sem_unlink sem_wait sem_trywait sem_post sem_getvalue
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_create pthread_join pthread_detach pthread_self pthread_exit
memcpy malloc free calloc realloc strdup posix_memalign memalign
pthread_setaffinity_np sched_setaffinity fstatfs signal sigaction
open read write lseek pread pwrite fsync unlink remove rename access stat fstat statfs sync fopen""".split()
PORTS = {"ts": "src-mpi", "mt": "src-mpi-mt", "pt": "src-mpi-pt", "pr": "src-mpi-pr", "mpi3": "src-mpi3"}

def gen(bdir):
    """generated headers, from the .in files and the same sed rules as Makefile.am"""
    inc = os.path.join(bdir, "inc"); os.makedirs(inc, exist_ok=True)
    def rd(p): return open(os.path.join(REPO, p), errors="surrogateescape").read()
    def wr(n, s):
        open(os.path.join(inc, n), "w", errors="surrogateescape").write(s)
    sub = {"F2C_GETARG": "f2c_getarg_", "F2C_IARGC": "f2c_iargc_", "F2C_INTEGER_C_TYPE": "long", "F2C_REAL_C_TYPE": "float",
           "F2C_DOUBLE_PRECISION_C_TYPE": "double", "C_POINTER_AS_INTEGER": "long", "MA_LONG_DOUBLE": "long double",
           "MA_ACCESS_INDEX_TYPE_C": "long", "MA_ACCESS_INDEX_TYPE": "integer*8", "GA_ACCESS_INDEX_TYPE": "integer*8"}
    for p in ["gaf2c/farg.h.in", "gaf2c/typesf2c.h.in", "global/src/global.fh.in", "ma/mafdecls.fh.in", "ma/matypes.h.in"]:
        wr(os.path.basename(p)[:-3], re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), m.group(0)), rd(p)))
    papi = rd("global/src/ga-papi.h")
    def wapi(s, P, W, p, w):
        return "\n".join(l for l in s.replace(P, W).replace(p, w).split("\n") if "typedef" not in l) + "\n"
    def defs(s, P, W, n):
        out = []
        for l in s.split("\n"):
            l = l.replace(P, W)
            l = re.sub(r"^.*p(%s_.*)\(.*$" % n, r"#define w\1 p\1", l)
            if re.match(r"^ ", l) or re.match(r"^/\*", l) or "typedef" in l: continue
            out.append(l)
        return "\n".join(out) + "\n"
    wr("ga-wapi.h", wapi(papi, "PAPI", "WAPI", "pnga_", "wnga_"))
    wr("ga-wapidefs.h", defs(papi, "PAPI", "WAPIDEFS", "nga"))
    gp = rd("gparrays/src/gp-papi.h")
    wr("gp-wapi.h", wapi(gp, "GPPAPI", "GPWAPI", "pgp_", "wgp_"))
    wr("gp-wapidefs.h", defs(gp, "GPPAPI", "GPWAPIDEFS", "gp"))
    shutil.copy(os.path.join(VERIF, "config/ga_config.h"), os.path.join(inc, "config.h"))
    shutil.copy(os.path.join(VERIF, "config/config.fh"), os.path.join(inc, "config.fh"))
    return inc

def ga_sources():
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    src = re.findall(r"^libga_la_SOURCES \+= (\S+\.[cfF])\s*$", mk, re.M)
    drop = {"global/src/ga_ckpt.c", "global/src/ga_diag.F", "global/src/scalapack.F", "global/src/rsg.F", "compat/random.c"}
    return [s for s in src if s not in drop and os.path.exists(os.path.join(REPO, s))]

def comex_sources(port):
    d = PORTS[port]
    inc = open(os.path.join(REPO, "comex", d, "Makefile.inc")).read()
    return ["comex/" + s for s in re.findall(r"libcomex_la_SOURCES \+= (\S+\.c)", inc)]
def armci_sources():
    inc = open(os.path.join(REPO, "comex/src-armci/Makefile.inc")).read()
    return ["comex/" + s for s in re.findall(r"libarmci_la_SOURCES \+= (\S+\.c)", inc)] + ["comex/src-armci/capi.c"]

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
class BuildError(Exception): pass

class Builder:
    def __init__(self, bdir, opt="-O1"):
        self.b = bdir; os.makedirs(bdir, exist_ok=True); self.opt = opt; self.jobs = []; self.objs = {}
        self.inc = gen(bdir)
        self.sim = os.path.join(bdir, "mpisim")
        S = os.path.join(VERIF, "sim")
        self.jobs.append((["gcc", "-O2", "-w", "-g", "-rdynamic", "-fno-strict-aliasing", "-I" + S, S + "/mpisim.c", S + "/simio.c", "-o", self.sim, "-ldl", "-lm"], None))
    def _gaflags(self, cm):
        R = REPO
        I = [self.inc] + [R + "/" + x for x in [".", "ma", "LinAlg/lapack+blas", "global/src", "global/testing", "pario/dra", "pario/eaf", "pario/elio", "pario/sf", "ga++/src", "gaf2c", "tcgmsg", "tcgmsg/tcgmsg-mpi", "comex/src-armci", "gparrays/src"]]
        return ["-DHAVE_CONFIG_H", "-I" + VERIF + "/sim"] + ["-I" + i for i in I]
    def _small(self):
        """gaconfig.h with room for 2048 arrays instead of 32768: keeps the process images small (included first; its guard hides the original)"""
        h = os.path.join(self.inc, "gasmall.h")
        if not os.path.exists(h):
            s = open(REPO + "/global/src/gaconfig.h", errors="surrogateescape").read()
            open(h, "w", errors="surrogateescape").write(re.sub(r"(?m)^(\s*#\s*define\s+MAX_(?:ARRAYS|MUTEXES)\s+)\d+", r"\g<1>2048", s))
        return ["-include", h]
    def _obj(self, src, flags, tag, base=REPO):
        o = os.path.join(self.b, tag + "_" + re.sub(r"[^A-Za-z0-9_]", "_", src) + ".o")
        if o in self.objs: return o
        self.objs[o] = 1
        p = src if os.path.isabs(src) else os.path.join(base, src)
        ext = src.rsplit(".", 1)[1]
        if ext in ("f", "F"):
            cmd = ["gfortran", self.opt, "-w", "-std=legacy", "-fallow-argument-mismatch", "-fPIC", "-fdefault-integer-8", "-DHAVE_CONFIG_H"] + [f for f in flags if f.startswith("-I")] + ["-c", p, "-o", o]
        elif ext == "cc":
            cmd = ["g++", self.opt, "-w", "-g1", "-fPIC", "-fno-gnu-unique"] + flags + ["-c", p, "-o", o]
        else:
            cmd = ["gcc", self.opt, "-w", "-g1", "-fPIC", "-std=gnu17", "-fno-builtin-memcpy", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-aggressive-loop-optimizations", "-fno-tree-slp-vectorize"] + flags + ["-c", p, "-o", o]
        self.jobs.append((cmd, o)); return o
    def comex(self, port, extra=()):
        d = PORTS[port]; tag = port + ("t" if extra else "")
        f = ["-DHAVE_CONFIG_H", "-I" + VERIF + "/sim", "-I" + VERIF + "/config/" + port, "-I" + REPO + "/comex", "-I" + REPO + "/comex/src-common", "-I" + REPO + "/comex/" + d] + list(extra)
        return [self._obj(s, f, tag) for s in comex_sources(port) + armci_sources()]
    def variant(self, src, subst, hdrs=(), texts=()):
        """a copy of a source file (and headers beside it) in which tuning constants are made small: {name: value}"""
        d = os.path.join(self.b, "var"); os.makedirs(d, exist_ok=True)
        for p in [src] + list(hdrs):
            s = open(os.path.join(REPO, p), errors="surrogateescape").read()
            for k, v in subst.items(): s = re.sub(r"(?m)^(\s*#\s*define\s+%s\s+)\S+" % k, r"\g<1>%s" % v, s)
            for a, b in texts: s = s.replace(a, b)
            open(os.path.join(d, os.path.basename(p)), "w", errors="surrogateescape").write(s)
        return self._obj(os.path.join(d, os.path.basename(src)), ["-I" + d, "-I" + os.path.join(REPO, os.path.dirname(src))] + self._gaflags(None) + (self._small() if src.startswith("global/src/") else []), "var")
    def ga(self, gp=False, without=()):
        f = self._gaflags(None)
        src = [s for s in ga_sources() if s not in without]
        if gp: src += ["gparrays/src/%s.c" % x for x in ("gpbase", "gpcapi", "gpfapi", "gponesided")]
        return [self._obj(s, f + (self._small() if s.startswith("global/src/") and s.endswith(".c") else []), "ga") for s in src]
    def gaxx(self):
        f = self._gaflags(None)
        return [self._obj("ga++/src/%s.cc" % s, f, "gaxx") for s in ("GAServices", "GlobalArray", "PGroup", "init_term", "overload", "services")]
    def ma(self):
        f = self._gaflags(None)
        return [self._obj(s, f, "ga") for s in ga_sources() if s.startswith("ma/")]
    def some(self, pats):
        f = self._gaflags(None)
        return [self._obj(s, f, "ga") for s in ga_sources() if any(re.match(p, s) for p in pats)]
    def harness(self, names, port=None, defs=()):
        f = self._gaflags(None) + ["-I" + VERIF + "/harness", "-I" + REPO + "/comex/src-common"] + list(defs)
        tag = "h" + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6]
        return [self._obj(VERIF + "/harness/" + n, f, tag) for n in names]
    def compile(self):
        syms = os.path.join(self.b, "wrap.syms")
        open(syms, "w").write("".join("%s simw_%s\n" % (w, w) for w in WRAPS))
        def one(j):
            run(j[0])
            if j[1]: run(["objcopy", "--redefine-syms=" + syms, j[1]])
        todo, self.jobs = self.jobs, []
        todo.sort(key=lambda j: -os.path.getsize(j[0][j[0].index("-c") + 1]) if "-c" in j[0] else -10**9)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(one, todo))
    def link(self, name, objs, libs=("-lgfortran", "-lm")):
        self.compile()
        so = os.path.join(self.b, name + ".so")
        run(["g++", "-shared", "-Wl,-Bsymbolic"] + objs + list(libs) + ["-o", so])
        return so
