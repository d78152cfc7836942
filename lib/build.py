"""Builds the library from the repository's present sources plus the monitors, per variant."""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

class BuildError(Exception): pass

class Ctx:
    def __init__(s, here, repo):
        s.here = here; s.repo = repo; w = os.path.join(here, "work"); os.makedirs(w, exist_ok=True)
        s.tmp = tempfile.mkdtemp(prefix="run.", dir=w); s.built = {}
    def cleanup(s): shutil.rmtree(s.tmp, ignore_errors=True)

UB = "-fsanitize=address,undefined -fno-sanitize=pointer-overflow,nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # name: compiler family, flags for the library and the monitors, config.h defines, Fortran binding linked?
    "plain": dict(cc="gcc", cxx="g++", flags="-O2 -g", defs=[], fort=True),
    "asan":  dict(cc="gcc", cxx="g++", flags="-O1 -g " + UB, defs=[], fort=True),
    "tc":    dict(cc="gcc", cxx="g++", flags="-O2 -g", defs=["TYPE_CHECKING"], fort=True),
    "tcasan": dict(cc="gcc", cxx="g++", flags="-O1 -g " + UB, defs=["TYPE_CHECKING"], fort=True),
    "tsan":  dict(cc="gcc", cxx="g++", flags="-O1 -g -fsanitize=thread", defs=[], fort=True),
    "msan":  dict(cc="clang", cxx="clang++", flags="-O1 -g -fsanitize=memory -fno-sanitize-recover=all -fno-omit-frame-pointer", defs=[], fort=False),
    "alloc": dict(cc="gcc", cxx="g++", flags="-O2 -g", defs=[], fort=True, redefine=True),
}
REDEF = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "reallocarray", "aligned_alloc", "posix_memalign", "memalign", "valloc"]

def lib_sources(repo):
    src = []
    try:
        t = open(os.path.join(repo, "Makefile.am")).read()
        m = re.search(r"libmpi_serial_a_SOURCES\s*=((?:[^\n]*\\\n)*[^\n]*)", t)
        src = [w for w in re.split(r"[\s\\]+", m.group(1)) if w.endswith(".c")]
    except (OSError, AttributeError): pass
    src = list(dict.fromkeys(s for s in src if os.path.exists(os.path.join(repo, s))))
    if not src: src = sorted(os.path.basename(f) for f in glob.glob(repo + "/*.c"))
    return src

def config_h(defs):
    return "#define FC_FUNC(name,NAME) name ## _\n#define FC_FUNC_(name,NAME) name ## _\n" + "".join("#define %s\n" % d if "=" not in d else "#define %s %s\n" % tuple(d.split("=")) for d in defs)

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-3000:]))

def compile_cmds(ctx, name, d):
    v = VARIANTS[name]; R = ctx.repo; H = os.path.join(ctx.here, "harness"); fl = v["flags"].split(); cmds = []; objs = []
    nof = [] if v["fort"] else ["-DNO_FORTRAN"]
    for s in lib_sources(R):
        o = os.path.join(d, "lib_" + s[:-2].replace("/", "_") + ".o"); objs.append(o)
        c = [v["cc"]] + fl + ["-w", "-DHAVE_CONFIG_H", "-I" + d, "-I" + R, "-c", os.path.join(R, s), "-o", o]
        cmds.append([c] + ([["objcopy"] + sum([["--redefine-sym", "%s=vfa_%s" % (x, x)] for x in REDEF], []) + [o]] if v.get("redefine") else []))
    for s in sorted(glob.glob(H + "/*.cc")):
        o = os.path.join(d, "h_" + os.path.basename(s)[:-3] + ".o"); objs.append(o)
        # the monitors themselves are not the subject of the undefined-behaviour sanitizer
        opt = ["-O1" if f == "-O2" else f.replace("address,undefined", "address") for f in fl if not f.startswith("-fno-sanitize=")]
        cmds.append([[v["cxx"], "-std=c++17"] + opt + nof + ["-DVARIANT_" + name.upper(), "-I" + R, "-c", s, "-o", o]])
    if v["fort"]:
        seq = []
        for s in ("mpif.F90", "fort.F90"):
            o = os.path.join(d, "lib_" + s[:-4] + "_f.o"); objs.append(o)
            seq.append(["gfortran", "-O2", "-g", "-w", "-fallow-argument-mismatch", "-DHAVE_CONFIG_H", "-I" + d, "-I" + R, "-J" + d, "-c", os.path.join(R, s), "-o", o])
        o = os.path.join(d, "h_fhelp.o"); objs.append(o)
        seq.append(["gfortran", "-O2", "-g", "-w", "-fallow-argument-mismatch", "-I" + R, "-J" + d, "-c", os.path.join(H, "fhelp.F90"), "-o", o])
        cmds.append(seq)
    return cmds, objs

def build_all(ctx, names, nproc=8):
    names = list(dict.fromkeys(names)); work = []; info = {}
    for n in names:
        if n in ctx.built: continue
        d = os.path.join(ctx.tmp, "v_" + n); os.makedirs(d)
        with open(os.path.join(d, "config.h"), "w") as f: f.write(config_h(VARIANTS[n]["defs"]))
        cmds, objs = compile_cmds(ctx, n, d); info[n] = (d, objs)
        for seq in cmds: work.append(seq)
    def run_seq(seq):
        for c in seq: sh(c)
    # the slowest compilations first
    work.sort(key=lambda s: -(10 if "/harness/" in " ".join(s[0]) else 1))
    with ThreadPoolExecutor(nproc) as ex:
        for f in [ex.submit(run_seq, s) for s in work]: f.result()
    for n, (d, objs) in info.items():
        v = VARIANTS[n]; exe = os.path.join(d, "mon")
        sh([v["cxx"]] + v["flags"].split() + ["-o", exe] + objs + (["-lgfortran"] if v["fort"] else ["-Wl,--unresolved-symbols=ignore-all"]) + ["-lpthread"])
        for o in objs: os.unlink(o)
        ctx.built[n] = exe

def variant_exe(ctx, n): return ctx.built[n]
