#!/usr/bin/env python3
"""Entry point of every check:  check.py <property id>  [--keep]
Builds the monitors for one property from the working tree of the repository, runs them, applies the
known-findings list, writes evidence/<id>.json and prints VIOLATION lines.
Exit 0: held on everything observed; 1: violated; 2: the check itself could not decide (build or harness error)."""
import sys, os, json, time, subprocess, shutil, re, hashlib, random, fcntl, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
THOROUGH = TIER == "thorough"
JOBS = max(2, min(8, os.cpu_count() or 4))
H = os.path.join(HERE, "harness")

class Error(Exception): pass

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:halt_on_error=1:detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=77",
    "LC_ALL": "C",
}

class Build:
    def __init__(self, name, src, cxx="g++", std="17", flags=("-O2",), libs=(), defs=(), gen=None, violation_on_fail=True, obj_only=False):
        self.name, self.src, self.cxx, self.std = name, src, cxx, std
        self.flags, self.libs, self.defs, self.gen = list(flags), list(libs), list(defs), gen
        self.violation_on_fail, self.obj_only = violation_on_fail, obj_only
        self.ok, self.err = None, ""
        self.dialect = "-std=" + (std if std.startswith("gnu") else "c++" + std)

class Run:
    def __init__(self, build, args=(), env=None, timeout=300, group=None, wrap=(), out=True):
        self.build, self.args, self.env = build, [str(a) for a in args], dict(env or {})
        self.timeout, self.wrap = timeout, list(wrap)
        self.group = group if group is not None else build + " " + " ".join(self.args)
        self.out = out

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        # one run per build folder: a second run of the same check, at the same time, gets a folder of its own
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
        self.dir = os.path.join(HERE, "build", pid)
        self.lock = open(self.dir + ".lock", "w")
        try: fcntl.flock(self.lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError: self.dir += ".%d" % os.getpid()
        shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
        self.viol = []      # (key, message, extra)
        self.counters = {}; self.samples = []; self.groups = {}; self.evals = 0
        self.notes = []; self.builds = 0; self.runs = 0; self.configs = []
        self.t0 = time.time()
    def violation(self, key, msg, **extra):
        self.viol.append((key, msg, extra))

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        f = lambda s: (s.decode("utf8", "replace") if isinstance(s, bytes) else (s or ""))
        return None, f(x.stdout), f(x.stderr)

def compile_cmd(ctx, b):
    src = b.src if os.path.isabs(b.src) else os.path.join(H, b.src)
    cmd = [b.cxx, b.dialect, "-g0" if "-g1" not in b.flags else "-g1", "-w"] + b.flags + ["-D" + d for d in b.defs]
    cmd += ["-I" + H, "-I" + ctx.dir, "-I" + os.path.join(REPO, "include"), src]
    if b.obj_only: cmd += ["-c", "-o", os.path.join(ctx.dir, b.name + ".o")]
    else: cmd += ["-o", os.path.join(ctx.dir, b.name)] + b.libs
    return cmd

def do_build(ctx, b):
    cmd = compile_cmd(ctx, b)
    for attempt in (0, 1):
        rc, so, se = sh(cmd, 700)
        if rc == 0: b.ok = True; return
        if rc is not None and rc > 0 and not re.search(r"internal compiler error|Killed|[Cc]annot allocate|No space left|out of memory|virtual memory exhausted", se): break
    b.ok, b.err = False, ("timeout\n" if rc is None else "") + se
    b.env_problem = rc is None or rc < 0 or bool(re.search(r"internal compiler error|Killed|[Cc]annot allocate|No space left|out of memory", se))

SMOKE = """
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
int main(){}
"""
def smoke(ctx, b):
    f = os.path.join(ctx.dir, "smoke.cpp"); open(f, "w").write(SMOKE)
    s = Build("smoke_" + b.name, f, b.cxx, b.std, b.flags, [], b.defs)
    do_build(ctx, s); return s.ok

def build_all(ctx, builds):
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda b: do_build(ctx, b), builds))
    ctx.builds += len(builds)
    for b in builds:
        ctx.configs.append("%s: %s %s %s" % (b.name, b.cxx, b.dialect, " ".join(b.flags + ["-D" + d for d in b.defs])))
        if b.ok: continue
        errs = [l for l in b.err.splitlines() if "error" in l] or b.err.splitlines()
        first = errs[0] if errs else "?"
        if getattr(b, "env_problem", False) or not b.violation_on_fail or not smoke(ctx, b):
            raise Error("build of %s failed: %s\n%s" % (b.name, first, b.err[-3000:]))
        # the headers themselves compile, the documented use of them in the monitor no longer does
        key = "build %s %s" % (b.name, re.sub(r"^.*?error:", "error:", first)[:160])
        ctx.violation(key, "documented use of the library does not compile (%s): %s" % (b.name, "; ".join(errs[:6])), compile=" ".join(compile_cmd(ctx, b)))

def norm_san(se):
    m = re.search(r"SUMMARY: (\S+): (.*)", se)
    s = m.group(0) if m else ""
    u = re.search(r"([^\s:]+:\d+:\d+): runtime error: (.*)", se)
    if u: s = "UBSan " + os.path.basename(u.group(1)) + ": " + u.group(2)
    s = re.sub(r"0x[0-9a-f]+", "ADDR", s); s = re.sub(r"\(.*?\+ADDR\)", "", s)
    return s.strip()

def do_run(ctx, r):
    exe = os.path.join(ctx.dir, r.build)
    tag = hashlib.sha1((r.build + "|" + " ".join(r.args) + str(sorted(r.env.items()))).encode()).hexdigest()[:10]
    outf = os.path.join(ctx.dir, "out." + r.build + "." + tag)
    env = dict(SAN_ENV); env.update({"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "VERIF_OUT": outf}); env.update(r.env)
    for attempt in (0, 1):
        if os.path.exists(outf): os.unlink(outf)
        rc, so, se = sh(r.wrap + [exe] + r.args, r.timeout, env, cwd=ctx.dir)
        done = False; recs = []
        if os.path.exists(outf):
            for line in open(outf, errors="replace"):
                line = line.rstrip("\n")
                if line == "E done": done = True
                elif line: recs.append(line)
        if rc in (0, 1) and done: break
        if rc is not None and rc not in (-9,) : break   # crash: deterministic enough, no re-run; timeouts and kills are re-run once
    return r, rc, so, se, done, recs

def absorb(ctx, res):
    r, rc, so, se, done, recs = res
    ctx.runs += 1
    rep = dict(build=r.build, args=r.args, env=r.env)
    ev = dist = 0
    for l in recs:
        t, _, rest = l.partition(" ")
        if t == "V":
            k, _, m = rest.partition("\t"); ctx.violation(k, m, **rep)
        elif t == "C":
            k, _, v = rest.partition("\t"); v = int(v)
            if k == "evaluations": ev = v
            elif k == "distinct": dist = v
            else: ctx.counters[k] = ctx.counters.get(k, 0) + v
        elif t == "X":
            if len(ctx.samples) < 12: ctx.samples.append(rest)
    ctx.evals += ev
    ctx.groups[r.group] = max(ctx.groups.get(r.group, 0), dist)
    if rc in (0, 1) and done:
        if rc == 1 and not any(l.startswith("V ") for l in recs): raise Error("driver %s returned 1 without a violation record" % r.build)
        if ev == 0: raise Error("driver %s %s observed nothing" % (r.build, r.args))
        return
    if rc == 3: raise Error("harness error in %s %s: %s" % (r.build, r.args, se[-2000:]))
    if rc == -9: raise Error("driver %s %s was killed (memory?)" % (r.build, r.args))
    if rc is None:
        ctx.violation("hang %s %s" % (r.build, " ".join(r.args)), "driver did not terminate within %ds, twice" % r.timeout, **rep); return
    san = norm_san(se)
    tail = "\n".join((so[-300:] + se).strip().splitlines()[:40])[-3500:]
    ctx.violation("crash %s %s" % (r.build, san or ("exit status %d" % rc)), "abnormal termination (rc=%s) %s || %s" % (rc, san, tail), **rep)

def run_all(ctx, runs):
    good = [r for r in runs if os.path.exists(os.path.join(ctx.dir, r.build))]
    with ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(lambda r: do_run(ctx, r), good): absorb(ctx, res)

def known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)).get("findings", []) if os.path.exists(f) else []

def finish(ctx, rule, assumptions, exhaustive=False):
    kf = [k for k in known() if k["property"] == ctx.pid]
    seen_known, fresh = {}, {}
    for key, msg, extra in ctx.viol:
        m = next((k for k in kf if k["key"] == key), None)
        if m: seen_known[m["key"]] = m
        else: fresh.setdefault(key, (msg, extra))
    for k in seen_known.values(): print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for i, (key, (msg, extra)) in enumerate(sorted(fresh.items())):
        if i >= 12: print("... %d more distinct violations" % (len(fresh) - i)); break
        p = os.path.join(rdir, "%s-%s.json" % (ctx.pid, hashlib.sha1(key.encode()).hexdigest()[:8]))
        json.dump(dict(property=ctx.pid, seed=SEED, tier=TIER, key=key, witness=msg, where=extra,
                       how="VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s" % (SEED, TIER, HERE, ctx.pid)), open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, p))
        print("   %s: %s" % (key, msg[:600]))
    distinct = sum(ctx.groups.values())
    evd = dict(property=ctx.pid, tier=TIER, seed=SEED, level="exploration",
               coverage=dict(evaluations=ctx.evals, distinct_nontrivial=distinct, rule=rule, samples=ctx.samples or ["(none)"],
                             counters=ctx.counters, builds=ctx.builds, runs=ctx.runs, configurations=ctx.configs[:60], exhaustive=exhaustive),
               assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(fresh))
    if ctx.notes: evd["coverage"]["notes"] = ctx.notes
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w"), indent=1)
    shutil.rmtree(ctx.dir, ignore_errors=True) if "--keep" not in sys.argv else None
    print("%s: %d evaluations, %d distinct cases, %d violations, %.1fs" % (ctx.pid, ctx.evals, distinct, len(fresh), time.time() - ctx.t0))
    return 1 if fresh else 0

def main():
    if len(sys.argv) < 2: print("usage: check.py <property>"); return 2
    pid = sys.argv[1]
    sys.path.insert(0, HERE)
    import checks
    if pid not in checks.CHECKS: print("no check for " + pid); return 2
    if not os.path.isdir(os.path.join(REPO, "include", "boost", "hash2")): print("no repository at " + REPO); return 2
    ctx = Ctx(pid)
    fn, rule, assumptions = checks.CHECKS[pid]
    try:
        exh = fn(ctx)
        return finish(ctx, rule, assumptions, bool(exh))
    except Exception as e:
        if not isinstance(e, Error): traceback.print_exc()
        # a violation already observed stands; otherwise the check could not decide
        if ctx.viol:
            rc = finish(ctx, rule, assumptions)
            if rc == 1: return rc
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr); print("CHECK-ERROR property=%s %s" % (pid, str(e)[:2000]))
        return 2

if __name__ == "__main__":
    # make `import check` inside checks.py refer to this very module
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
