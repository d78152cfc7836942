#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [quick|thorough]   (VERIF_SEED, VERIF_TIER=quick|thorough)
   run.py --replay FILE   repeats the execution recorded in a replay file.

Builds the library from /repo's present sources together with the monitors in
/verif/harness, runs the workloads of the property and judges what the monitors report.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no verdict."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
import build, jobs as J

NPROC = 8

class Harness(Exception):
    pass

def limits(cpu, stack_kb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if stack_kb: resource.setrlimit(resource.RLIMIT_STACK, (stack_kb * 1024, stack_kb * 1024))
    return f

SAN_RE = re.compile(rb"(ERROR: (Address|Leak|Thread|Memory)Sanitizer:? [^\n]*|WARNING: (Thread|Memory)Sanitizer:? [^\n]*|runtime error: [^\n]*|==\d+== (Invalid (read|write)[^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*))")

def san_env(d):
    e = dict(os.environ)
    for k in ("MALLOC_CHECK_", "MALLOC_PERTURB_", "LD_PRELOAD"): e.pop(k, None)
    e["ASAN_OPTIONS"] = "exitcode=76:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=76:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=76:second_deadlock_stack=1"
    e["MSAN_OPTIONS"] = "exitcode=76:halt_on_error=1"
    return e

class Result:
    def __init__(s):
        s.lock = threading.Lock(); s.cases = 0; s.dist = set(); s.ev = {}; s.samples = []; s.viols = []; s.notes = []
        s.inconclusive = []; s.errors = []; s.runs = 0; s.jobs = []

def run_once(ctx, job, lo, hi, tag, verbose=False, cpu=None, wall=None):
    """One process over cases lo..hi-1.  Returns (rc, lines, case, step, stdout, stderr, timed_out)."""
    d = ctx.tmp
    out = os.path.join(d, tag + ".out"); mark = os.path.join(d, tag + ".mark"); so = os.path.join(d, tag + ".so"); se = os.path.join(d, tag + ".se")
    for f in (out, mark, so, se):
        if os.path.exists(f): os.unlink(f)
    exe = build.variant_exe(ctx, job["variant"])
    cmd = [exe, job["engine"], "--seed", str(job["seed"]), "--from", str(lo), "--to", str(hi), "--lang", job.get("lang", "c"),
           "--profile", job.get("profile", "mixed"), "--out", out, "--mark", mark]
    if job.get("arg"): cmd += ["--arg", job["arg"]]
    if verbose: cmd.append("-v")
    if job.get("valgrind"):
        cmd = ["valgrind", "-q", "--error-exitcode=76", "--exit-on-first-error=yes", "--track-origins=no", "--leak-check=no"] + cmd
    env = san_env(d); env.update(job.get("env", {})); env["MON_TMP"] = d
    with open(so, "wb") as fo, open(se, "wb") as fe, open(os.devnull, "rb") as fi:
        p = subprocess.Popen(cmd, stdin=fi, stdout=fo, stderr=fe, env=env, cwd=d, preexec_fn=limits(cpu or job.get("cpu", 120), job.get("stack_kb")))
        timed = False
        try: rc = p.wait(wall or job.get("wall", 400))
        except subprocess.TimeoutExpired:
            timed = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        if timed: rc = p.wait()
    if rc in (-signal.SIGXCPU, -signal.SIGKILL) and not timed: timed = True
    lines = []
    if os.path.exists(out):
        with open(out, "rb") as f: lines = [l.decode("utf-8", "replace").rstrip("\n").split("\t") for l in f]
    case, step = None, ""
    try:
        m = open(mark, "rb").read()
        s = m[:64].split(b"\0")[0]
        if s: case = int(s)
        step = m[64:576].split(b"\0")[0].decode("utf-8", "replace")
    except (OSError, ValueError): pass
    def tail(fn, n=6000):
        with open(fn, "rb") as f: b = f.read()
        return b if len(b) <= n else b[:n // 2] + b"\n...\n" + b[-n // 2:]
    return rc, lines, case, step, tail(so), tail(se), timed

def absorb(res, lines):
    ended = False; v = None; inc = None
    with res.lock:
        for l in lines:
            k = l[0]
            if k == "CASES": res.cases += int(l[1])
            elif k == "EV":
                if l[1].startswith("max:"): res.ev[l[1]] = max(res.ev.get(l[1], 0), int(l[2]))
                else: res.ev[l[1]] = res.ev.get(l[1], 0) + int(l[2])
            elif k == "DIST": res.dist.update(l[1].split())
            elif k == "SAMPLE":
                if len(res.samples) < 400: res.samples.append(l[1])
            elif k == "VIOL": v = (l[1], int(l[2]), l[3])
            elif k == "NOTE": res.notes.append(l[1])
            elif k == "INCONCLUSIVE": inc = (int(l[1]), l[2])
            elif k == "END": ended = True
    return ended, v, inc

def text(b): return b.decode("utf-8", "replace").strip()

def crash_key(rc, so, se):
    m = SAN_RE.search(se) or SAN_RE.search(so)
    if m:
        s = text(m.group(0)); s = re.sub(r"0x[0-9a-f]+|==\d+==|\(pid=\d+\)", "", s)
        s = re.sub(r"(ERROR|WARNING): ", "", s)
        return "sanitizer", s
    if rc < 0:
        return "crash-" + signal.Signals(-rc).name if -rc != signal.SIGABRT else "abort", (text(se) or text(so))[-400:]
    return "exit", "exit status %d: %s" % (rc, (text(se) or text(so))[-400:])

def run_chunk(ctx, res, job, lo, hi, tag):
    restarts = 0
    while lo < hi:
        rc, lines, case, step, so, se, timed = run_once(ctx, job, lo, hi, tag)
        with res.lock: res.runs += 1
        ended, v, inc = absorb(res, lines)
        def record(key, c, detail):
            with res.lock: res.viols.append({"key": key, "case": c, "detail": detail, "job": job})
        if rc == 0 and ended:
            if (so or se) and not job.get("noisy"): record("noise", lo, "valid calls wrote to standard output or error: " + (text(so) + text(se))[:300])
            return
        if rc == 77 and v:
            record(*v); nxt = v[1] + 1
        elif rc == 78:
            with res.lock: res.inconclusive.append("%s case %s: %s" % (job["engine"], inc and inc[0], inc and inc[1]))
            nxt = (inc[0] if inc else hi) + 1
        elif rc in (97, 98, 99):
            with res.lock: res.errors.append("%s %s: harness error %d: %s" % (job["variant"], job["engine"], rc, text(se)[-300:]))
            return
        elif timed:
            # repeat the case alone; only a second excess of its own generous budget counts
            c = lo if case is None else case
            rc2, lines2, case2, step2, so2, se2, timed2 = run_once(ctx, job, c, c + 1, tag, cpu=job.get("cpu", 120), wall=job.get("wall", 400))
            if timed2: record("hang", c, "the call does not return [step: %s]" % step2)
            nxt = c + 1; restarts += 1
            if not timed2 and rc2 not in (0,):
                lo = c; hi2 = c + 1
                run_chunk(ctx, res, job, c, c + 1, tag)
        else:
            c = lo if case is None else case
            k, s = crash_key(rc, so, se)
            with res.lock: res.cases += max(0, c - lo)
            record(k, c, "%s [step: %s]" % (s, step)); nxt = c + 1
        restarts += 1
        if restarts >= 6: return
        lo = max(nxt, lo + 1)

# which properties a key belongs to; keys not listed belong to whatever property's workload met them
KEY_OWNER = {
    "noise": {"C17"}, "free-null": {"C12", "C11", "C17", "C14"}, "f2c": {"C11", "C14"},
}

def load_known():
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p):
        l = l.strip()
        m = re.match(r"finding: property=(\S+) key=(\S+) match=(.*)$", l)
        if m: known.append((m.group(1), m.group(2), re.compile(m.group(3))))
    return known

def main():
    t0 = time.time()
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    if not 2 <= len(sys.argv) <= 3 or sys.argv[1] not in J.PROPS: print(__doc__); return 2
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = J.PROPS[prop]
    res = Result(); ctx = build.Ctx(HERE, REPO)
    try:
        jl = [dict(j) for j in spec["jobs"](tier)]
        for i, j in enumerate(jl):
            j.setdefault("variant", "plain"); j["seed"] = (seed * 1000003 + i * 7919 + sum(prop.encode()) * 131) & 0x7fffffffffff
        build.build_all(ctx, [j["variant"] for j in jl if not j.get("script")], NPROC)
        # further rounds repeat the workloads with other seeds
        mult = J.ROUNDS[tier].get(prop, 1); allj = list(jl)
        for k in range(1, int(-(-mult // 1))):
            part = min(1.0, mult - k)
            for j in jl:
                if j.get("once") or j.get("cost") or (tier == "quick" and (j["n"] < 1600 or j.get("valgrind"))): continue
                q = dict(j); q["seed"] = j["seed"] + k * 104729 * 65537; q["n"] = max(1, int(j["n"] * part)); q["round"] = k; allj.append(q)
        chunks = []
        for i, j in enumerate(allj):
            n = j["n"]; k = j.get("chunks") or max(1, min(NPROC, n // max(1, j.get("min_chunk", 20))))
            for c in range(k):
                lo, hi = n * c // k, n * (c + 1) // k
                if hi > lo: chunks.append((j, lo, hi, "j%dc%d" % (i, c)))
        # big jobs first, later rounds last
        chunks.sort(key=lambda x: (x[0].get("round", 0), -x[0].get("cost", 1)))
        limit = float(os.environ.get("VERIF_BUDGET", "0")) or (420 if tier == "quick" else 660); skipped = [0]
        def go(j, lo, hi, tag):
            # enough time for this tier has gone, or a violation is known already
            el = time.time() - t0
            if (el > limit and j.get("round", 0)) or (res.viols and el > 60): skipped[0] += 1; return
            if j.get("script"): J.SCRIPTS[j["script"]](ctx, res, j, lo, hi, tag)
            else: run_chunk(ctx, res, j, lo, hi, tag)
        with ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(go, *x) for x in chunks]
            for f in fs: f.result()
    except build.BuildError as e:
        print("build failed: %s" % e); return 2
    finally:
        ctx.cleanup()
    known = load_known(); real = []; kf = []; foreign = []
    for v in res.viols:
        own = KEY_OWNER.get(v["key"])
        if own and prop not in own: foreign.append(v); continue
        k = [x for x in known if x[0] == prop and x[1] == v["key"] and x[2].search(v["detail"])]
        if k: kf.append(v)
        else: real.append(v)
    for v in {(x["key"], x["detail"]): x for x in kf}.values():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["key"], v["detail"][:300]))
    for v in foreign[:5]: print("note: %s (belongs to %s): %s" % (v["key"], ",".join(sorted(KEY_OWNER[v["key"]])), v["detail"][:200]))
    ev_missing = [e for e in spec.get("must_see", []) if not res.ev.get(e)]
    cov = {"evaluations": res.cases, "distinct_nontrivial": len(res.dist), "rule": spec["rule"],
           "samples": spread(res.samples, 6) or ["(none)"], "events": dict(sorted(res.ev.items())), "processes": res.runs,
           "workloads": ["%s %s/%s lang=%s n=%d%s" % (j.get("variant") if not j.get("script") else "script", j.get("engine", j.get("script")), j.get("profile", "-"), j.get("lang", "c"), j["n"],
                         (" arg=" + j["arg"]) if j.get("arg") else "") for j in jl], "rounds": mult, "chunks": len(chunks), "chunks_left_out": skipped[0]}
    evd = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
           "assumptions": spec.get("assumptions", []) + J.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(evd, f, indent=1)
    if real:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        shown = {}
        for v in real:
            if v["key"] in shown: continue
            rp = os.path.join("replays", "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", v["key"]), seed)); shown[v["key"]] = rp
            with open(os.path.join(HERE, rp), "w") as f: json.dump({"property": prop, **v}, f, indent=1)
            print("%s: %s" % (v["key"], v["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(HERE, rp)))
        return 1
    for e in res.errors[:5]: print("harness error: " + e[:1500])
    for e in res.inconclusive[:5]: print("inconclusive: " + e)
    if res.errors or res.inconclusive: return 2
    if foreign: ev_missing = []
    if not res.cases or ev_missing:
        print("nothing observed: cases=%d missing events %s" % (res.cases, ev_missing)); return 2
    print("%s held on %d cases (%d distinct non-trivial), %d events observed, %.1f s" % (prop, res.cases, len(res.dist), sum(v for k, v in res.ev.items() if not k.startswith("max:")), time.time() - t0))
    return 0

def spread(l, n):
    l = list(l)
    if len(l) <= n: return l
    return [l[i * (len(l) - 1) // (n - 1)] for i in range(n)]

def replay(path):
    d = json.load(open(path)); job = d["job"]; ctx = build.Ctx(HERE, REPO); res = Result()
    try:
        if job.get("script"):
            J.SCRIPTS[job["script"]](ctx, res, job, d["case"], d["case"] + 1, "replay")
        else:
            build.build_all(ctx, [job["variant"]], NPROC)
            rc, lines, case, step, so, se, timed = run_once(ctx, job, d["case"], d["case"] + 1, "replay", verbose=True)
            for l in lines: print("\t".join(l))
            sys.stdout.write(text(so) + text(se) + "\n"); print("exit status %d%s" % (rc, " (time limit)" if timed else ""))
            run_chunk(ctx, res, job, d["case"], d["case"] + 1, "replay2")
    finally: ctx.cleanup()
    for v in res.viols: print("%s: %s" % (v["key"], v["detail"][:1500]))
    if res.viols: print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
