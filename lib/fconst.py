"""C15: constants of the two bindings and the start-up verification, decided by compiling and
running Fortran programs against the repository's sources in many configurations."""
import os, random, re, shutil, signal, subprocess, threading
import build

FLAGS = [[], ["-fdefault-real-8"], ["-fdefault-real-8", "-fdefault-double-8"], ["-fdefault-real-16"], ["-fdefault-real-10"], ["-fdefault-integer-8"], ["-fdefault-integer-8", "-fdefault-real-8"], ["-freal-4-real-8"], ["-freal-8-real-4"], ["-fdefault-real-16", "-fdefault-double-8"]]
CONFIGS = [(None, None), (4, 8), (8, 16), (8, 8), (16, 16), (16, 8), (4, 16), (8, None), (None, 16), (4, 4), (16, 32), (None, 4), (2, 8), (4, 32)]
# constants whose value the Fortran side hands to start-up for verification
ALTER = ["MPI_COMM_WORLD", "MPI_ANY_SOURCE", "MPI_ANY_TAG", "MPI_PROC_NULL", "MPI_ROOT", "MPI_COMM_NULL", "MPI_REQUEST_NULL", "MPI_GROUP_NULL", "MPI_GROUP_EMPTY", "MPI_UNDEFINED",
         "MPI_MAX_ERROR_STRING", "MPI_MAX_PROCESSOR_NAME", "MPI_STATUS_SIZE", "MPI_SOURCE", "MPI_TAG", "MPI_ERROR", "MPI_INTEGER", "MPI_DOUBLE_PRECISION", "MPI_REAL", "MPI_LOGICAL", "MPI_COMPLEX"]
# name -> byte size of other named types, for altering a datatype constant to one of another size
OTHER = {"MPI_INTEGER": [-32, -33, -35, -38], "MPI_LOGICAL": [-32, -33, -35], "MPI_REAL": [-33, -38, -35, -18], "MPI_DOUBLE_PRECISION": [-37, -34, -41, -17], "MPI_COMPLEX": [-37, -41, -34]}

CHELP = r"""
#include "mpi.h"
#include <string.h>
#include <stdio.h>
#include <unistd.h>
void vxstarted_(void){ fclose(fopen("started","w")); }
void vxdone_(void){ _exit(42); }
void vxbad_(int*c){ _exit(*c); }
void vxfill_(unsigned char*p,int*n,int*seed){ unsigned s=(unsigned)*seed*2654435761u+1; for(int i=0;i<*n;i++){ s=s*1664525u+1013904223u; p[i]=(unsigned char)(s>>24); } }
void vxcmp_(unsigned char*a,unsigned char*b,int*n,int*c){ if(memcmp(a,b,*n)) _exit(*c); }
void vxguard_(unsigned char*a,int*n,int*c){ for(int i=0;i<*n;i++) if(a[i]!=0x5a) _exit(*c); }
void vxpaint_(unsigned char*a,int*n){ memset(a,0x5a,*n); }
void vxstat_(void*p){ MPI_Status*s=(MPI_Status*)p; s->MPI_SOURCE=1111; s->MPI_TAG=2222; s->MPI_ERROR=3333; }
"""

TYPES = [("REAL", "real", "MPI_REAL", 1), ("DP", "double precision", "MPI_DOUBLE_PRECISION", 1), ("CX", "complex", "MPI_COMPLEX", 1), ("DCX", "complex(kind(1d0))", "MPI_DOUBLE_COMPLEX", 1),
         ("R2", "real", "MPI_2REAL", 2), ("D2", "double precision", "MPI_2DOUBLE_PRECISION", 2), ("I2", "integer", "MPI_2INTEGER", 2), ("IN", "integer", "MPI_INTEGER", 1), ("LG", "logical", "MPI_LOGICAL", 1), ("CH", "character", "MPI_CHARACTER", 1)]

def transfer_program(module, thread, seed):
    """Initialises, then moves every default Fortran type; every failed expectation has its own exit status."""
    s = ["program p", "use mpi" if module else "", "implicit none", "" if module else "include 'mpif.h'", "integer ierr, prov, sz, cnt, req, pos, sb", "integer st(MPI_STATUS_SIZE+2)"]
    for n, t, c, k in TYPES: s.append("%s :: a%s(%d), b%s(%d)" % (t, n, 6 * k, n, 8 * k))
    s += ["character :: pk(4096)", "call mpi_init_thread(%d, prov, ierr)" % (seed % 4) if thread else "call mpi_init(ierr)", "if (ierr.ne.MPI_SUCCESS) call vxbad(50)", "call vxstarted()"]
    if thread: s.append("if (prov.lt.MPI_THREAD_SINGLE .or. prov.gt.MPI_THREAD_MULTIPLE) call vxbad(51)")
    for i, (n, t, c, k) in enumerate(TYPES):
        e = 60 + 10 * i
        s += ["sb = storage_size(a%s)/8" % n, "call mpi_type_size(%s, sz, ierr)" % c, "if (sz.ne.sb*%d) call vxbad(%d)" % (k, e),
              "call vxfill(a%s, %d*sb, %d)" % (n, 6 * k, seed % 100000 + i), "call vxpaint(b%s, %d*sb)" % (n, 8 * k), "call vxpaint(st, 4*(MPI_STATUS_SIZE+2))",
              "call mpi_irecv(b%s, 8, %s, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, req, ierr)" % (n, c), "call mpi_send(a%s, 6, %s, 0, 7, MPI_COMM_WORLD, ierr)" % (n, c), "call mpi_wait(req, st, ierr)",
              "call vxcmp(b%s, a%s, %d*sb, %d)" % (n, n, 6 * k, e + 1), "call vxguard(b%s(%d), %d*sb, %d)" % (n, 6 * k + 1, 2 * k, e + 2), "call vxguard(st(MPI_STATUS_SIZE+1), 8, %d)" % (e + 3),
              "if (st(MPI_SOURCE).ne.0 .or. st(MPI_TAG).ne.7) call vxbad(%d)" % (e + 4), "call mpi_get_count(st, %s, cnt, ierr)" % c, "if (cnt.ne.6) call vxbad(%d)" % (e + 5), "if (req.ne.MPI_REQUEST_NULL) call vxbad(%d)" % (e + 6),
              "pos = 0", "call mpi_pack(a%s, 5, %s, pk, 4096, pos, MPI_COMM_WORLD, ierr)" % (n, c), "if (pos.ne.5*%d*sb) call vxbad(%d)" % (k, e + 7), "call vxpaint(b%s, %d*sb)" % (n, 8 * k), "pos = 0", "call mpi_unpack(pk, 4096, pos, b%s, 5, %s, MPI_COMM_WORLD, ierr)" % (n, c),
              "call vxcmp(b%s, a%s, %d*sb, %d)" % (n, n, 5 * k, e + 8), "call vxguard(b%s(%d), %d*sb, %d)" % (n, 5 * k + 1, 3 * k, e + 9)]
    s += ["call vxstat(st)", "if (st(MPI_SOURCE).ne.1111 .or. st(MPI_TAG).ne.2222 .or. st(MPI_ERROR).ne.3333) call vxbad(53)", "call mpi_finalize(ierr)", "if (ierr.ne.MPI_SUCCESS) call vxbad(52)", "call vxdone()", "end program"]
    return "\n".join(x for x in s if x) + "\n"

def why(code):
    if code == 50: return "mpi_init returned an error"
    if code == 51: return "mpi_init_thread reported no thread level"
    if code == 52: return "mpi_finalize returned an error"
    if code == 53: return "status fields written in C are not found at the Fortran positions"
    if 60 <= code < 60 + 10 * len(TYPES):
        return TYPES[(code - 60) // 10][2] + ": " + ["size is not the compiler's", "elements not received", "bytes beyond the message written", "bytes beyond the status written", "status source or tag wrong", "count wrong", "request not null", "packed size wrong", "unpacked elements wrong", "bytes beyond the unpacked elements written"][(code - 60) % 10]
    return "exit status %d" % code

class Store:
    """Compiled pieces shared by the cases of a run."""
    def __init__(s, ctx):
        s.ctx = ctx; s.lock = threading.Lock(); s.keyed = {}; s.made = {}
    def get(s, key, make):
        with s.lock: k = s.keyed.setdefault(key, threading.Lock())
        with k:
            if key not in s.made: s.made[key] = make()
            return s.made[key]

_stores = {}
def store(ctx):
    return _stores.setdefault(id(ctx), Store(ctx))

def cfg_defs(cfg): return (["CONFIG_FORT_REAL=%d" % cfg[0]] if cfg[0] else []) + (["CONFIG_FORT_DOUBLE=%d" % cfg[1]] if cfg[1] else [])

def lib_objs(ctx, cfg):
    def make():
        d = os.path.join(ctx.tmp, "fc_%s_%s" % cfg); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "config.h"), "w").write(build.config_h(cfg_defs(cfg))); objs = []
        for f in build.lib_sources(ctx.repo):
            o = os.path.join(d, f[:-2].replace("/", "_") + ".o"); build.sh(["gcc", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + d, "-I" + ctx.repo, "-c", os.path.join(ctx.repo, f), "-o", o]); objs.append(o)
        c = os.path.join(d, "chelp.c"); open(c, "w").write(CHELP); o = os.path.join(d, "chelp_.o"); build.sh(["gcc", "-O1", "-w", "-I" + ctx.repo, "-c", c, "-o", o]); objs.append(o)
        return objs
    return store(ctx).get(("lib", cfg), make)

FC = ["gfortran", "-O0", "-w", "-fallow-argument-mismatch", "-ffree-line-length-none"]

def build_prog(ctx, d, cfg, flags, src, alter=None):
    """Library in one configuration, Fortran side and program with the given flags and mpif.h."""
    os.makedirs(d, exist_ok=True); lib = lib_objs(ctx, cfg)
    for f in ("mpif.h", "mpif.F90", "fort.F90"):
        t = open(os.path.join(ctx.repo, f)).read()
        if f == "mpif.h" and alter:
            t, n = re.subn(r"(?i)(\b%s\s*=\s*)([^,)\n]+)" % alter[0], lambda m: m.group(1) + str(alter[1]), t)
            if not n: return None
        open(os.path.join(d, f), "w").write(t)
    open(os.path.join(d, "config.h"), "w").write(build.config_h(cfg_defs(cfg))); open(os.path.join(d, "p.F90"), "w").write(src)
    for f in ("mpif", "fort", "p"): build.sh(FC + flags + ["-DHAVE_CONFIG_H", "-I" + d, "-J" + d, "-c", os.path.join(d, f + ".F90"), "-o", os.path.join(d, f + ".o")])
    exe = os.path.join(d, "p"); build.sh(["gfortran", "-o", exe] + [os.path.join(d, f + ".o") for f in ("mpif", "fort", "p")] + lib); return exe

def run(exe):
    import resource
    p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(exe), preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    try: o, e = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        p.kill(); o, e = p.communicate(); return "timeout", o, e
    return p.returncode, o, e

def sizes(ctx, flags):
    """(real, double, integer) storage of the compiler with these flags."""
    def make():
        d = os.path.join(ctx.tmp, "fs_" + "".join(flags).replace("-", "_")); os.makedirs(d, exist_ok=True); f = os.path.join(d, "s.f90")
        open(f, "w").write("program s\nreal r\ndouble precision d\ninteger i\ncomplex c\nprint *, storage_size(r)/8, storage_size(d)/8, storage_size(i)/8, storage_size(c)/8\nend program\n")
        build.sh(FC + flags + [f, "-o", os.path.join(d, "s")]); rc, o, e = run(os.path.join(d, "s")); return tuple(int(x) for x in o.split())
    return store(ctx).get(("size",) + tuple(flags), make)

def words(path): return set(re.findall(r"\bMPI_[A-Z0-9_]+\b", open(path).read().upper() if path.endswith("mpif.h") else open(path).read()))

def eval_names(names, make_src, cmd, d, base):
    """Values of those names the compiler accepts as constants."""
    names = sorted(names); src = os.path.join(d, base)
    for _ in range(40):
        if not names: return {}
        text, line_of = make_src(names); open(src, "w").write(text)
        p = subprocess.run(cmd + [src, "-o", os.path.join(d, "v")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d); out = p.stdout.decode("utf-8", "replace")
        if p.returncode == 0:
            r = subprocess.run([os.path.join(d, "v")], stdout=subprocess.PIPE, timeout=200).stdout.decode(); return {l.split()[0]: int(l.split()[1]) for l in r.splitlines() if len(l.split()) == 2}
        bad = {line_of[int(n)] for n in re.findall(r"%s:(\d+)[:.]" % re.escape(base), out) if int(n) in line_of}
        if not bad: raise build.BuildError("constants cannot be compiled: " + out[:1500])
        names = [n for n in names if n not in bad]
    raise build.BuildError("constants cannot be compiled")

def f_src(module):
    def mk(names):
        s = ["program v"] + (["use mpi"] if module else []) + ["implicit none"] + ([] if module else ["include 'mpif.h'"]); lo = {}
        for i, n in enumerate(names): s.append("integer, parameter :: k%d = %s" % (i, n)); lo[len(s)] = n
        for i, n in enumerate(names): s.append("print '(A,1X,I0)', '%s', k%d" % (n, i))
        return "\n".join(s + ["end program"]) + "\n", lo
    return mk
def c_src(names):
    s = ['#include "mpi.h"', "#include <stdio.h>", "int main(void){"]; lo = {}
    for n in names: s.append('{ enum { }; } printf("%%s %%lld\\n","%s",(long long)(%s));' % (n, n) if 0 else 'printf("%%s %%lld\\n","%s",(long long)(%s));' % (n, n)); lo[len(s)] = n
    return "\n".join(s + ["return 0; }"]) + "\n", lo

def constants(ctx, d, viol, ev, sample):
    os.makedirs(d, exist_ok=True); R = ctx.repo
    for f in ("mpif.h", "mpif.F90"): shutil.copy(os.path.join(R, f), d)
    open(os.path.join(d, "config.h"), "w").write(build.config_h([])); build.sh(FC + ["-DHAVE_CONFIG_H", "-I" + d, "-J" + d, "-c", os.path.join(d, "mpif.F90"), "-o", os.path.join(d, "m.o")])
    fn = words(os.path.join(R, "mpif.h")) | words(os.path.join(R, "mpif.F90")); cn = words(os.path.join(R, "mpi.h"))
    fv = eval_names(fn, f_src(False), FC + ["-I" + d], d, "fv.f90"); mv = eval_names(fn, f_src(True), FC + ["-I" + d, "-J" + d], d, "mv.f90"); cv = eval_names(cn, c_src, ["gcc", "-w", "-I" + R], d, "cv.c")
    both = sorted((set(fv) | set(mv)) & set(cv))
    for n in both:
        for nm, v in (("mpif.h", fv), ("the mpi module", mv)):
            if n in v:
                ev("constants compared", 1)
                if v[n] != cv[n]: viol("constant", "%s is %d in %s and %d in mpi.h" % (n, v[n], nm, cv[n]))
    for n in sorted(set(fv) & set(mv)):
        if fv[n] != mv[n]: viol("constant", "%s is %d in mpif.h and %d in the mpi module" % (n, fv[n], mv[n]))
    for n in sorted(set(fv) - set(mv)): viol("constant", "%s of mpif.h is missing from the mpi module" % n)
    sample("constants compared: " + ", ".join("%s=%d" % (n, cv[n]) for n in both[:40]) + ", ... (%d)" % len(both))
    # kinds and the status
    src = "program k\nuse mpi\nuse iso_c_binding\nimplicit none\nprint *, c_sizeof(1_MPI_ADDRESS_KIND), c_sizeof(1_MPI_OFFSET_KIND), MPI_STATUS_SIZE*storage_size(1)/8, storage_size(MPI_SUCCESS)/8\nend program\n".replace("1_MPI_ADDRESS_KIND", "int(1,MPI_ADDRESS_KIND)").replace("1_MPI_OFFSET_KIND", "int(1,MPI_OFFSET_KIND)")
    open(os.path.join(d, "k.f90"), "w").write(src); build.sh(FC + ["-I" + d, "-J" + d, os.path.join(d, "k.f90"), "-o", os.path.join(d, "k")]); _, o, _ = run(os.path.join(d, "k")); f = [int(x) for x in o.split()]
    open(os.path.join(d, "k.c"), "w").write('#include "mpi.h"\n#include <stdio.h>\nint main(void){ printf("%zu %zu %zu %zu\\n",sizeof(MPI_Aint),sizeof(MPI_Offset),sizeof(MPI_Status),sizeof(MPI_Fint)); return 0; }\n'); build.sh(["gcc", "-w", "-I" + R, os.path.join(d, "k.c"), "-o", os.path.join(d, "kc")]); _, o, _ = run(os.path.join(d, "kc")); c = [int(x) for x in o.split()]
    for n, a, b in zip(("address kind", "offset kind", "status size", "default integer"), f, c):
        ev("kinds compared", 1)
        if a != b: viol("kind", "%s: %d bytes in Fortran, %d in C" % (n, a, b))

def case_list(seed, n):
    l = [("constants",)]; r = random.Random(seed)
    full = [(c, f, m, t) for c in CONFIGS for f in FLAGS for m in (0, 1) for t in (0, 1)]; r.shuffle(full)
    # every default configuration first, then each alteration, then the rest of the matrix
    l += [("matrix", (None, None), f, i & 1, i >> 1 & 1) for i, f in enumerate(FLAGS)] + [("matrix", c, f, i & 1, 0) for i, (c, f) in enumerate([((8, 16), FLAGS[1]), ((8, 8), FLAGS[2]), ((16, 16), FLAGS[3]), ((4, 8), FLAGS[0]), ((8, None), FLAGS[2]), ((None, 16), FLAGS[0]), ((8, None), FLAGS[0]), ((4, 4), FLAGS[0]), ((16, 32), FLAGS[0]), ((16, 8), FLAGS[9])])]
    for a in ALTER + ["MPI_INTEGER:-34", "MPI_DOUBLE_PRECISION:-38"]: l.append(("alter", a, r.getrandbits(30)))   # the last two: another type of the same size
    rest = [("matrix",) + x for x in full]; more = [("alter", r.choice(ALTER), r.getrandbits(30)) for _ in range(n)]
    while len(l) < n: l.append(rest.pop() if rest and len(l) % 2 else (more.pop() if more else rest.pop()))
    return l[:n]

def script(ctx, res, job, lo, hi, tag):
    cases = case_list(job["seed"], job["n"])
    for i in range(lo, hi):
        c = cases[i]; d = os.path.join(ctx.tmp, "fcase_%s_%d" % (tag, i))
        def viol(key, detail, i=i):
            with res.lock: res.viols.append({"key": key, "case": i, "detail": detail, "job": job})
        def ev(n, k=1):
            with res.lock: res.ev[n] = res.ev.get(n, 0) + k
        def sample(s):
            with res.lock: res.samples.append(s)
        try:
            if c[0] == "constants": constants(ctx, d, viol, ev, sample)
            else: one(ctx, d, c, random.Random(job["seed"] * 1000 + i), viol, ev, sample)
            with res.lock: res.cases += 1; res.dist.add(repr(c[:4] if c[0] == "matrix" else c)); res.runs += 1
        except build.BuildError as e:
            with res.lock: res.errors.append("case %s: %s" % (c, e))
        except (subprocess.SubprocessError, OSError, ValueError) as e:
            with res.lock: res.errors.append("case %s: %r" % (c, e))
        finally: shutil.rmtree(d, ignore_errors=True)

def one(ctx, d, c, rnd, viol, ev, sample):
    if c[0] == "matrix":
        _, cfg, flags, mod, thr = c; alter = None; s = sizes(ctx, flags); ok = s[2] == 4 and (cfg[0] or 4) == s[0] and (cfg[1] or 8) == s[1]
        what = "library configured for real %s and double %s, compiler %s (real %d, double %d, integer %d)" % (cfg[0] or "default", cfg[1] or "default", " ".join(flags) or "defaults", s[0], s[1], s[2])
    else:
        cfg, flags, mod, thr = (None, None), [], rnd.getrandbits(1), rnd.getrandbits(1); (name, _, fixed) = c[1].partition(":"); r = random.Random(c[2]); t = open(os.path.join(ctx.repo, "mpif.h")).read(); m = re.search(r"(?i)\b%s\s*=\s*([-\d]+)" % name, t)
        if not m: ev("constants not found in mpif.h"); return
        old = int(m.group(1))
        if fixed: new = int(fixed)
        elif name in OTHER: new = r.choice(OTHER[name])
        elif name in ("MPI_SOURCE", "MPI_TAG", "MPI_ERROR"): new = r.choice([x for x in (1, 2, 3, 4) if x != old])
        elif name == "MPI_STATUS_SIZE": new = r.choice([v for v in (3, 4, 5, 6, 8, 10) if v != old])
        elif name.startswith("MPI_MAX"): new = r.choice([x for x in (16, 64, 127, 129, 256, 512, 1024, old + 256, old + 65536) if x != old])
        else: new = r.choice([x for x in (old + 1, old - 1, old + r.randint(2, 1000), old - r.randint(2, 1000), -old, old ^ (1 << r.randint(0, 30))) if x != old])
        alter = (name, new); ok = False; what = "%s altered from %d to %d in mpif.h" % (name, old, new)
    src = transfer_program(mod, thr, rnd.getrandbits(20)); exe = build_prog(ctx, d, cfg, flags, src, alter)
    if exe is None: ev("constants not found in mpif.h"); return
    rc, o, e = run(exe); txt = (o + e).decode("utf-8", "replace").strip()[:300]; ev("programs run"); what += ", " + ("mpi module" if mod else "mpif.h") + (", mpi_init_thread" if thr else "")
    if rc == "timeout": viol("hang", what + ": does not end"); return
    if ok:
        ev("matching configurations")
        if rc != 42: viol("start-up", "%s: should run, but ended with %s: %s" % (what, why(rc) if rc >= 0 else "signal %d" % -rc, txt)); return
        if txt: viol("noise-start", "%s: should be silent, but wrote: %s" % (what, txt)); return
    else:
        ev("altered constants" if alter else "mismatched configurations")
        if rc == 42: viol("start-up", "%s: should be stopped, but ran%s" % (what, ", writing " + txt if txt else "")); return
        if 50 <= rc < 60 + 10 * len(TYPES): viol("start-up", "%s: should be stopped at start-up, but went on and failed later: %s" % (what, why(rc))); return
        if os.path.exists(os.path.join(os.path.dirname(exe), "started")): viol("start-up", "%s: should be stopped at start-up, but was stopped later: %s" % (what, txt)); return
        if rc < 0 and -rc != signal.SIGABRT: viol("crash", "%s: crashed with signal %d" % (what, -rc)); return
        if rc == 0: viol("start-up", "%s: stopped with exit status 0" % what); return
        if not txt: viol("start-up", "%s: stopped without a diagnostic" % what); return
    sample("%s: %s" % (what, "ran silently, every default type moved" if ok else "stopped: " + txt.split("\n")[0][:120]))
