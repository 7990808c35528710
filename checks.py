"""One function per property: which monitors to build from the working tree, how, and which workloads to run."""
from check import Build, Run, Error, build_all, run_all, THOROUGH, SEED, REPO, H, HERE, JOBS, sh
import os, random, sys
sys.path.insert(0, H)

Q = not THOROUGH
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CRYPTO = ["-lcrypto"]
ALG_NAMES = []

def parts(name, n, group=None, **kw):
    return [Run(name, [i, n], group="%s %d/%d" % (name, i, n), **kw) for i in range(n)]

def c01(ctx):
    b = [Build("c01_o2", "c01.cpp", flags=["-O2"]), Build("c01_clang", "c01.cpp", cxx="clang++", std="14", flags=["-O1"])]
    if not Q: b.append(Build("c01_o3", "c01.cpp", std="23", flags=["-O3", "-march=native"]))
    build_all(ctx, b)
    run_all(ctx, [r for x in b for r in parts(x.name, 8, timeout=600)])

def c02(ctx):
    b = [Build("c02_o2", "c02.cpp", flags=["-O2"]), Build("c02_clang", "c02.cpp", cxx="clang++", std="20", flags=["-O1"])]
    build_all(ctx, b + [Build("c02_o3", "c02.cpp", flags=["-O3"])])
    run_all(ctx, [Run("c02_o3", [i, 26, "large"], timeout=600) for i in range(26)] + [r for x in b for r in parts(x.name, 8, timeout=600)])

def c03(ctx):
    b = [Build("c03_o2", "c03.cpp", flags=["-O2"]), Build("c03_clang", "c03.cpp", cxx="clang++", std="14", flags=["-O1"])]
    build_all(ctx, b + [Build("c04", "c04.cpp", flags=["-O3"], libs=CRYPTO), Build("c03u", "c03u.cpp", flags=["-O1"]), Build("c03u_clang", "c03u.cpp", cxx="clang++", std="20", flags=SAN)])
    run_all(ctx, [r for x in b for r in parts(x.name, 4, timeout=600)] + [Run("c03u", timeout=300), Run("c03u_clang", timeout=300)] + [Run("c04", [n, "keys"], timeout=300, group="huge keys " + n) for n in HUGE if n[:5] == "hmac_" and (not Q or n in ("hmac_sha2_512", "hmac_sha1_160", "hmac_md5_128", "hmac_sha2_384"))])

HUGE = """spooky2_128 murmur3_128 sha2_512 hmac_sha2_512 md5_128 sha1_160 sha2_256 sha2_224 sha2_384 sha2_512_256 sha2_512_224 ripemd_160 ripemd_128
hmac_md5_128 hmac_sha1_160 hmac_sha2_256 hmac_sha2_224 hmac_sha2_384 hmac_sha2_512_256 hmac_sha2_512_224 hmac_ripemd_160 hmac_ripemd_128
siphash_32 siphash_64 fnv1a_32 fnv1a_64 xxhash_32 xxhash_64 murmur3_32""".split()
def c04(ctx):
    build_all(ctx, [Build("c04", "c04.cpp", flags=["-O3"], libs=CRYPTO)])
    run_all(ctx, [Run("c04", [n, "blocks"], timeout=600, group="c04 blocks " + n) for n in (["siphash_32", "murmur3_32"] if Q else ["siphash_32", "murmur3_32", "siphash_64", "xxhash_32", "xxhash_64"])] + [Run("c04", [n], timeout=400) for n in HUGE] + [Run("c04", [n, "keys"], timeout=300, group="c04 keys " + n) for n in HUGE if not Q or n[:5] != "hmac_" or n in ("hmac_sha2_512", "hmac_sha1_160", "hmac_md5_128")])

def c05(ctx):
    b = [Build("c05_o2", "c05.cpp", flags=["-O2"]), Build("c04", "c04.cpp", flags=["-O3"], libs=CRYPTO)]
    build_all(ctx, b); run_all(ctx, parts("c05_o2", 8, timeout=600) + [Run("c04", [n, "keys"], timeout=300, group="huge keys " + n) for n in HUGE if n[:5] != "hmac_"])

def c06(ctx):
    b = [Build("c06_o2", "c06.cpp", flags=["-O2"]), Build("c06_clang", "c06.cpp", cxx="clang++", std="20", flags=["-O1"])]
    build_all(ctx, b); run_all(ctx, [r for x in b for r in parts(x.name, 4, timeout=300)] + [Run("c06_o2", [n, "huge"], timeout=300, group="huge " + n) for n in HUGE])

def c07(ctx):
    b = [Build("c07_o2", "c07.cpp", flags=["-O2"]), Build("c07_clang", "c07.cpp", cxx="clang++", std="14", flags=["-O1"])]
    build_all(ctx, b); run_all(ctx, [r for x in b for r in parts(x.name, 4, timeout=300)])

def c08(ctx):
    b = [Build("c08_o2", "c08.cpp", flags=["-O2"]), Build("c08_o0", "c08.cpp", flags=["-O0"]), Build("c08_clang", "c08.cpp", cxx="clang++", std="20", flags=["-O3"])]
    build_all(ctx, b); run_all(ctx, [r for x in b for r in parts(x.name, 4, timeout=300)])

def ser(ctx, lists, cases, extra=()):
    b = [Build("cser_" + l.lower(), "cser.cpp", flags=["-O1" if Q else "-O2"], defs=["VF_LIST=VF_" + l, "VF_CASES=%d" % cases]) for l in lists] + list(extra)
    build_all(ctx, b); return b

def c13(ctx):
    ser(ctx, ["INTS", "ENUMS", "PTRS"], 40, [Build("c13_o2", "c13.cpp", flags=["-O2"], std="20"), Build("c13_o0", "c13.cpp", flags=["-O0"], std="14")])
    run_all(ctx, [Run(n, timeout=300) for n in ("cser_ints", "cser_enums", "cser_ptrs", "c13_o2", "c13_o0")])

def c14(ctx):
    ser(ctx, ["FLOATS", "FLOATC"], 40, [Build("c14_o2", "c14.cpp", flags=["-O2", "-frounding-math"]), Build("c14_o0", "c14.cpp", flags=["-O0"]), Build("c14_clang", "c14.cpp", cxx="clang++", std="20", flags=["-O2", "-frounding-math"])])
    run_all(ctx, [Run("cser_floats", timeout=300), Run("cser_floatc", timeout=300)] + parts("c14_o2", 8, timeout=400) + [Run("c14_o0", [i, 4, 64], timeout=400) for i in range(4)] + [Run("c14_clang", [i, 4, 8], timeout=400) for i in range(4)])

def c15(ctx):
    b = [Build("c15x_o0", "c15x.cpp", std="20", flags=["-O0"]), Build("c15_huge", "c15x.cpp", std="20", flags=["-O2"], defs=["VF_HUGE"])]
    if not Q: b.append(Build("c15x_o2", "c15x.cpp", std="20", flags=["-O2"]))
    b += [Build("c15f_%d" % g, "c15f.cpp", std="20", flags=["-O0"], defs=["VF_GROUP=%d" % g]) for g in range(6)]
    ser(ctx, ["SEQ_A", "SEQ_B"], 12, b)
    run_all(ctx, [Run("cser_seq_a", timeout=400), Run("cser_seq_b", timeout=400), Run("c15x_o0", timeout=300)] + ([Run("c15x_o2", timeout=300)] if not Q else []) + [Run("c15_huge", [i], timeout=200) for i in range(4)] + [Run("c15f_%d" % g, timeout=300) for g in range(6)])

def c16(ctx):
    ser(ctx, ["UNORD"], 15, [Build("c16_o0", "c16.cpp", flags=["-O0"]), Build("c16_o1", "c16.cpp", flags=["-O1"])] + [Build("c15f_%d" % g, "c15f.cpp", std="20", flags=["-O0"], defs=["VF_GROUP=%d" % g]) for g in (3, 4)])
    run_all(ctx, [Run("c16_o1", [100], timeout=300), Run("cser_unord", timeout=400)] + [Run("c16_o1", [i], timeout=300) for i in range(6)] + [Run("c16_o0", [i + 6], timeout=300) for i in range(3)] + [Run("c15f_%d" % g, timeout=300) for g in (3, 4)])

def c17(ctx):
    sh_ = [Build("c17_gcc14", "c17.cpp", std="14", flags=["-O2"]), Build("c17_gcc17", "c17.cpp", std="17", flags=["-O0"]), Build("c17_clang20", "c17.cpp", cxx="clang++", std="20", flags=["-O1"])]
    if not Q: sh_.append(Build("c17_san", "c17.cpp", std="17", flags=SAN))
    ser(ctx, ["AGG"], 15, sh_)
    run_all(ctx, [Run("cser_agg", timeout=400)] + [Run(b.name, timeout=300) for b in sh_])

def c09(ctx):
    AH = ["BOOST_ENABLE_ASSERT_HANDLER"]; S = dict(VERIF_SCALE="1" if Q else "6")
    b, r = [], []
    def add(name, src, args=((),), env=None, timeout=600, wrap=(), **kw):
        b.append(Build(name, src, **kw)); r.extend(Run(name, a, env=dict(S, **(env or {})), timeout=timeout, wrap=wrap) for a in args)
    P4 = [(i, 4) for i in range(4)]
    # the memory monitor itself, plain, under both compilers' sanitizers, and under valgrind; the MemorySanitizer driver
    add("c09_plain", "c09.cpp", flags=["-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2", "-D_GLIBCXX_ASSERTIONS"], defs=AH + ["VF_COUNT_NEW"])
    add("c09_gsan", "c09.cpp", flags=SAN, defs=AH, env=dict(VF_MULT="4"))
    add("c09_csan", "c09.cpp", cxx="clang++", std="20", flags=SAN, defs=AH, env=dict(VF_MULT="4"))
    add("c09_msan", "c09m.cpp", cxx="clang++", flags=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all"])
    add("c09_vg", "c09.cpp", flags=["-O1", "-g1"], defs=["VF_VALGRIND"], env=dict(VF_MULT="1", VERIF_SCALE="1"), wrap=["valgrind", "-q", "--error-exitcode=77", "--child-silent-after-fork=yes"])
    # the behavioural monitors of the other properties, watched by the sanitizers
    for src in ("c02", "c06", "c07", "c03"): add(src + "_gsan", src + ".cpp", args=P4, flags=SAN, defs=AH, env=dict(VF_LIGHT="1"))
    add("c22_gsan", "c22.cpp", flags=SAN, defs=AH)
    add("c19_gsan", "c19.cpp", args=[(0,)], flags=["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"])
    add("c20_gsan", "c20.cpp", flags=SAN)
    add("c14_gsan", "c14.cpp", args=[(0, 4, 256)], flags=SAN)
    add("c15x_gsan", "c15x.cpp", std="20", flags=["-O0"] + SAN[1:])
    add("c17_gsan", "c17.cpp", flags=["-O0"] + SAN[1:])
    add("c16_gsan", "c16.cpp", args=[(0,)], flags=["-O0"] + SAN[1:])
    for l, n in (("INTS", 6), ("FLOATS", 20), ("FLOATC", 4), ("ENUMS", 10), ("PTRS", 10), ("SEQ_A", 2), ("SEQ_B", 2), ("AGG", 2), ("UNORD", 2)):
        add("cser_" + l.lower() + "_gsan", "cser.cpp", flags=["-O0"] + SAN[1:], defs=["VF_LIST=VF_" + l, "VF_CASES=%d" % n])
    if not Q:
        add("c02_csan", "c02.cpp", cxx="clang++", args=P4, flags=SAN, defs=AH)
        add("c07_vg", "c07.cpp", args=[(i, 8) for i in range(8)], flags=["-O1", "-g1"], defs=["VF_VALGRIND"], env=dict(VERIF_SCALE="1"), wrap=["valgrind", "-q", "--error-exitcode=77"], timeout=800)
        add("cser_agg_csan", "cser.cpp", cxx="clang++", flags=SAN, defs=["VF_LIST=VF_AGG", "VF_CASES=5"])
        add("cser_seqb_csan", "cser.cpp", cxx="clang++", flags=SAN, defs=["VF_LIST=VF_SEQ_B", "VF_CASES=5"])
    build_all(ctx, b); run_all(ctx, r)

def c10(ctx):
    T = ["-O1", "-fsanitize=thread", "-pthread"]
    b = [Build("c10_gtsan", "c10.cpp", flags=T), Build("c10_ctsan", "c10.cpp", cxx="clang++", std="14", flags=T), Build("c10_o2", "c10.cpp", flags=["-O2", "-pthread"])]
    build_all(ctx, b)
    wrap = ["setarch", "-R"] if sh(["setarch", "-R", "true"], 20)[0] == 0 else []      # ThreadSanitizer wants a conventional address space
    r = []
    for p in range(6 if Q else 24):
        for x in b:
            tsan = "tsan" in x.name
            r.append(Run(x.name, [p, 8 if p % 3 else 3], env=dict(VERIF_SEED=str(SEED * 1000 + p), VF_MULT="3" if tsan else "12"), timeout=400, wrap=wrap if tsan else ()))
    run_all(ctx, r)

def c11(ctx):
    import gen11
    GL = ["-O1", "-fconstexpr-ops-limit=150000000"]; CL = ["-O1", "-fconstexpr-steps=20000000", "-fbracket-depth=4000"]
    cfg = [("plain", "g++", "14"), ("plain", "clang++", "20"), ("md", "g++", "17"), ("md", "clang++", "14"), ("hmac", "g++", "20"), ("hmac", "clang++", "17"),
           ("append", "g++", "14"), ("append", "g++", "17"), ("append", "g++", "20"), ("append", "clang++", "14"), ("append", "clang++", "17"), ("append", "clang++", "20"), ("append", "g++", "23"),
           ("misc", "g++", "14"), ("misc", "clang++", "20"), ("misc", "g++", "20"), ("misc", "clang++", "14"), ("plain", "g++", "23"), ("md", "g++", "14"), ("md", "clang++", "20")]
    big = [("big", "g++", "14"), ("big", "g++", "20"), ("big", "clang++", "17"), ("big", "clang++", "20"), ("big", "clang++", "14"), ("big", "g++", "17")]
    b = []
    for rep in range(3 if Q else 12):
        for k, cc, std in cfg + (big[:4] if rep == 0 else [] if Q else big):
            n = "c11_%s_%s%s_%d" % (k, cc.strip("+"), std, rep); f = os.path.join(ctx.dir, n + ".cpp")
            open(f, "w").write(gen11.make(k, "%d.%d" % (SEED, rep), std)); b.append(Build(n, f, cxx=cc, std=std, flags=GL if cc == "g++" else CL))
    build_all(ctx, b)
    for x in b:   # name the program the compiler refused
        if not x.ok: ctx.notes.append("%s was not accepted: %s" % (x.name, "; ".join([l for l in x.err.splitlines() if "note:" in l or "error:" in l][:6])))
    run_all(ctx, [Run(x.name, timeout=200) for x in b])

C12_CFG = """g++ 11 -O0|g++ 11 -O2|g++ 14 -O1 -fno-inline -pthread -fopenmp|g++ 17 -O2|g++ 17 -O2 -funsigned-char|g++ 17 -O3 -march=native|g++ 17 -Os -DNDEBUG -D_GLIBCXX_USE_CXX11_ABI=0|g++ 20 -O0 -fno-builtin -fno-strict-aliasing -funsigned-char|g++ 23 -O3 -funroll-loops -D_GLIBCXX_ASSERTIONS -fno-pie -no-pie -fstack-protector-all
g++ gnu++17 -O2 -mavx2 -mbmi -mbmi2 -mfma -fno-rtti -fno-exceptions -fPIC -DBOOST_DISABLE_ASSERTS|g++ gnu++20 -O1 -D_GLIBCXX_DEBUG -D_FORTIFY_SOURCE=2 -fsanitize=address -fwrapv
clang++ gnu++17 -O2 -mavx2 -mbmi -mbmi2 -fno-rtti -fno-exceptions -DBOOST_DISABLE_ASSERTS -D_FORTIFY_SOURCE=2|clang++ 17 -O1 -mno-avx -mno-sse4 -fsanitize=undefined -fno-sanitize-recover=all
clang++ 11 -O1|clang++ 14 -O2 -march=native|clang++ 17 -Os -DNDEBUG -ftrivial-auto-var-init=pattern|clang++ 20 -O0 -funsigned-char|clang++ 23 -O1 -fno-builtin -pthread -fno-pie -no-pie
g++ gnu++23 -O2 -msse4.2 -mpopcnt -mpclmul -maes -fno-char8_t -fstack-protector-all -mfpmath=387 -D_DEBUG -DDEBUG|clang++ gnu++20 -O3 -msse4.1 -fsanitize=address -D_GLIBCXX_ASSERTIONS -ffp-contract=off"""
C12_MORE = """g++ 14 -O3 -flto|g++ 17 -O1 -fsanitize=thread|g++ 17 -O2 -fno-ipa-cp -fno-tree-vrp -mno-sse3|g++ 17 -O1 -fsanitize=address|g++ 17 -O1 -fsanitize=undefined|g++ 17 -O1 -D_GLIBCXX_DEBUG|g++ 20 -O2 -ftrivial-auto-var-init=pattern|g++ 11 -O3 -mavx2 -ftree-vectorize|clang++ 14 -O3 -fno-strict-aliasing|clang++ 20 -O2 -funsigned-char|clang++ 17 -O2 -fwrapv|clang++ 11 -O0 -fno-elide-constructors"""
def c12(ctx):
    cfgs = [c.strip() for c in (C12_CFG + ("" if Q else "\n" + C12_MORE)).replace("\n", "|").split("|") if c.strip()]
    b = []
    for i, c in enumerate(cfgs):
        w = c.split(); b.append(Build("c12_%d" % i, "c12.cpp", cxx=w[0], std=w[1], flags=w[2:]))
    build_all(ctx, b)
    runs, files = [], {}
    def run(x, tag, env, wrap=()):
        f = os.path.join(ctx.dir, "tr.%s.%s" % (x.name, tag)); files[f] = "%s [%s]" % (ctx_name(x), tag); runs.append(Run(x.name, env=dict(env, VF_TRANSCRIPT=f), timeout=300, wrap=wrap))
    ctx_name = lambda x: "%s %s %s" % (x.cxx, x.dialect, " ".join(x.flags))
    ns = sh(["setarch", "-R", "true"], 20)[0] == 0
    for x in b:
        if not x.ok: continue
        run(x, "plain", {})
        for e in ("shuffle twice heap", "up stack", "down shuffle", "zero locale", "trap twice", "locale heap stack"):
            if not Q or b.index(x) in (3, 14) or (b.index(x) + len(e)) % 5 == 0: run(x, e.replace(" ", "-"), dict(VF_ENV=e, MALLOC_PERTURB_="165" if "heap" in e else "0", VF_PADDING="x" * 3000 if "stack" in e else ""))
        if ns: run(x, "noaslr", {}, ["setarch", "-R"])
    run_all(ctx, runs)
    # the comparison: every key has one value over all transcripts that contain it
    val = {}; n = 0
    for f, name in files.items():
        if not os.path.exists(f): continue
        for line in open(f):
            k, _, v = line.rstrip("\n").partition("\t"); n += 1
            val.setdefault(k, {}).setdefault(v, []).append(name)
    ctx.counters["transcript entries compared"] = n; ctx.counters["transcripts"] = len(files); ctx.evals += n
    for k, d in val.items():
        if len(d) > 1:
            names = sorted(d.values(), key=len); ctx.violation("divergence " + k.split(" #")[0], "%s has %d values over the configurations; the minority: %s; the majority e.g.: %s" % (k, len(d), "; ".join(names[0][:4]), names[-1][0]))

def c18(ctx):
    build_all(ctx, [Build("c18_%d" % g, "c18.cpp", flags=["-O2" if g == 4 else "-O1"], defs=["VF_GROUP=%d" % g]) for g in range(5)])
    run_all(ctx, [Run("c18_4", timeout=600)] + [Run("c18_%d" % g, env=dict(VERIF_SEED=str(SEED + 7919 * i)), timeout=400, group="c18 %d.%d" % (g, i)) for g in range(4) for i in range(2 if Q else 4)])

def c19(ctx):
    build_all(ctx, [Build("c19_o2", "c19.cpp", flags=["-O2"]), Build("c19_clang", "c19.cpp", cxx="clang++", std="20", flags=["-O2"]), Build("c19_ubsan", "c19.cpp", std="14", flags=["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"])])
    run_all(ctx, [Run(n, [p], timeout=500) for n in ("c19_o2", "c19_clang") for p in range(4)] + [Run("c19_ubsan", [0], timeout=300)])

def c20(ctx):
    build_all(ctx, [Build("c20_o2", "c20.cpp", flags=["-O2"]), Build("c20_clang", "c20.cpp", cxx="clang++", std="20", flags=["-O1"]), Build("c20_asan", "c20.cpp", std="14", flags=SAN)])
    run_all(ctx, [Run(n, timeout=300) for n in ("c20_o2", "c20_clang", "c20_asan")])

def c21(ctx):
    build_all(ctx, [Build("c21_%d" % g, "c21.cpp", flags=["-O1"], defs=["VF_GROUP=%d" % g]) for g in range(6)])
    run_all(ctx, [Run("c21_%d" % g, timeout=400) for g in range(6)])

def c22(ctx):
    build_all(ctx, [Build("c22_o2", "c22.cpp", flags=["-O2"]), Build("c22_clang", "c22.cpp", cxx="clang++", std="14", flags=["-O1"]), Build("c22_o0", "c22.cpp", std="11", flags=["-O0"]), Build("c22_asan", "c22.cpp", std="20", flags=SAN)])
    run_all(ctx, [Run(n, [p], timeout=400) for n in ("c22_o2", "c22_clang", "c22_o0", "c22_asan") for p in range(3)])

def c23(ctx):
    b = [Build("c23_g14", "c23.cpp", flags=["-O2"]), Build("c23_g17", "c23.cpp", std="17", flags=["-O0"]), Build("c23_c20", "c23.cpp", cxx="clang++", std="20", flags=["-O1"]), Build("c23_g20san", "c23.cpp", std="20", flags=["-O0"] + SAN[1:]), Build("c23_uc", "c23.cpp", cxx="clang++", std="17", flags=["-O2", "-funsigned-char", "-fshort-enums"])]
    build_all(ctx, b); run_all(ctx, [Run(x.name, env=dict(VERIF_SEED=str(SEED * 100 + i)), timeout=400) for i, x in enumerate(b)])

def c24(ctx):
    import re, hashlib, hmac
    ex = os.path.join(REPO, "example"); names = ["md5sum", "hash2sum", "compile_time", "compile_time_2", "hash_without_seed", "hash_with_uint64_seed", "hash_with_byte_seed", "hash_with_any_seed", "hash_32_64", "xxh128_from_xxh64"]
    b = [Build(n, os.path.join(ex, n + ".cpp"), flags=["-O2"]) for n in names] + [Build("c24_tool", "c24tool.cpp", flags=["-O2"])]
    b += [Build("c24", "c24.cpp", flags=["-O2"], libs=CRYPTO)]
    build_all(ctx, b)
    # what the compile-time programs must print, from the data in their sources
    args = []
    def arr(name, t):
        m = re.search(name + r"\[\]\s*=\s*\{([^}]*)\}", t); return bytes(int(x, 16) for x in re.findall(r"0x[0-9a-fA-F]{1,2}", m.group(1))) if m else None
    t = open(os.path.join(ex, "compile_time.cpp")).read(); d = arr("resource", t)
    if d: args += ["compile_time", hashlib.md5(d).hexdigest()]
    t = open(os.path.join(ex, "compile_time_2.cpp")).read(); k = arr("secret", t); m = re.search(r"license\[\]\s*=(.*?)\n\s*;", t, re.S)
    if k and m:
        text = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))).replace("\\n", "\n").replace('\\"', '"')
        args += ["compile_time_2", hmac.new(k, text.encode(), hashlib.sha256).hexdigest()]
    H10 = "sha2_512 sha2_384 sha2_512_256 sha2_512_224 sha2_256 sha2_224 ripemd_160 ripemd_128 sha1_160 md5_128".split()
    run_all(ctx, [Run("c24", [ctx.dir, "huge", n], timeout=600) for n in H10] + [Run("c24", [ctx.dir, "outputs"] + args, timeout=100), Run("c24", [ctx.dir, "many"], timeout=600)])

def c25(ctx):
    b = [Build("c25_g%d" % g, "c25.cpp", flags=["-O1"], defs=["VF_GROUP=%d" % g]) for g in range(4)] + [Build("c25_c%d" % g, "c25.cpp", cxx="clang++", std="20", flags=["-O1"], defs=["VF_GROUP=%d" % g]) for g in ((0, 3) if Q else range(4))]
    b.append(Build("c25_11", "c25.cpp", std="11", flags=["-O0"], defs=["VF_GROUP=0"]))
    build_all(ctx, b); run_all(ctx, [Run(x.name, env=dict(VERIF_SEED=str(SEED * 100 + i), VERIF_SCALE="3" if Q else "60"), timeout=800) for i, x in enumerate(b)])

A_STD = ["the oracle's own reference implementations (harness/ref.hpp), themselves compared with OpenSSL, libxxhash and published vectors by harness/selftest.cpp in setup_cmd", "x86-64 Linux, little-endian host; gcc 13 and clang 18 as installed"]
A_SER = ["the independent serializer harness/ser.hpp, written from the documentation, is the statement of the expected message", "x86-64 Linux, little-endian host"]

CHECKS = {
 "C01": (c01, "a case is (algorithm, parameters, message, overload), the message built by length sweep over whole blocks, structured contents and seeded random contents at random alignment; distinct by content fingerprint", A_STD),
 "C02": (c02, "a case is (algorithm, construction, message, split into updates incl. empty ones, overloads); distinct by fingerprint of message and split", A_STD),
 "C03": (c03, "a case is (HMAC algorithm, key, message, construction route and feeding); every key length 0..3 blocks, long keys, key ending in zeros; distinct by fingerprint", A_STD),
 "C04": (c04, "a case is (algorithm, message longer than 2^29 or 2^32 bytes, chunking), fed through a small physical buffer mapped repeatedly; distinct by algorithm, length and chunking", A_STD + ["message lengths of 2^61 bytes and more (and the high 64 bits of SHA-512's length field) cannot be executed"]),
 "C05": (c05, "a case is a construction (algorithm, seed or seed bytes) whose observable behaviour is compared with the documented equivalents and with all others of its family; distinct by construction", A_STD),
 "C06": (c06, "a case is an operation history over a pool of objects (construct, update, copy, assign, self-assign, result) replayed against models; distinct by history fingerprint", A_STD),
 "C07": (c07, "a case is a history of updates and several result() calls compared with the documented state machine; distinct by history fingerprint", A_STD),
 "C08": (c08, "a case is a history shape executed 9 times with independent random inputs; object bytes are searched for bytes that follow the input in all runs; distinct by (algorithm, shape)", ["registers, stack copies and compiler-made temporaries are not observed; only the object's own storage is"]),
 "C13": (c13, "a case is (type, value, flavor) for integers, bool, enumerations and pointers; 8/16 bit types exhausted; distinct by type and value", A_SER),
 "C14": (c14, "a case is (floating type, value, rounding mode, flavor); all 2^32 float bit patterns are swept with a stride and dense neighbourhoods of special values; distinct by bit pattern class", A_SER),
 "C15": (c15, "a case is (sequence type or iterator kind, contents, flavor); distinct by fingerprint of the recorded message and type", A_SER),
 "C16": (c16, "a case is (unordered container or range, iteration order, algorithm); families of equal containers with different orders; distinct by order fingerprint and algorithm", A_SER),
 "C17": (c17, "a case is (tuple, described or customized type, value, flavor); distinct by fingerprint of the recorded message and type", A_SER),
 "C09": (c09, "a case is an operation history or an appended value executed under an instrumented build (guard pages and canaries, gcc and clang AddressSanitizer+UBSan, MemorySanitizer, valgrind, assertion handler, allocation counting); distinct by history or message fingerprint per build", ["uninitialized reads are seen by MemorySanitizer and valgrind in the workloads driven there; 32-bit and big-endian builds cannot be executed here"]),
 "C10": (c10, "a case is a round in which all threads run all jobs; distinct by the observed order of thread switches", ["ThreadSanitizer sees the executed accesses; the container and string operations underneath are the standard library's"]),
 "C11": (c11, "a case is a generated program over the constexpr interface, evaluated by the compiler and again at run time from heap data; distinct by program and result", ["the run-time side is judged by the other properties; MSVC is not available"]),
 "C12": (c12, "a case is one result in one configuration and environment; all results with the same key are compared over all configurations", ["gcc 13 and clang 18 with libstdc++ on x86-64 little-endian; other targets, libc++ and MSVC are not available"]),
 "C18": (c18, "a case is a value of one of the supported types; all values of a type are grouped by message, and by equality", A_SER),
 "C19": (c19, "a case is (result type, target type, result value); 8, 16 and 32 bit results are enumerated completely for narrowing, 64 bit ones structured and random", ["x86-64 widths of the standard integer types"]),
 "C20": (c20, "a case is (digest size, contents, buffer size and placement, stream state)", ["x86-64 Linux"]),
 "C21": (c21, "a case is (algorithm, value type, value, flavor); the result is compared with feeding the recorded message to the algorithm", A_SER),
 "C22": (c22, "a case is (legacy algorithm, seed, message, split); distinct by fingerprint", A_STD),
 "C24": (c24, "a case is a run of a program over files: distinct by program, way of reading, algorithm and file contents", A_STD),
 "C25": (c25, "a case is (algorithm, construction, key type, key value) or a container history; distinct by algorithm, key type and hash value", A_SER),
 "C23": (c23, "a case is (type, value or pair of values, flavor): each claim of a trait about the type is confronted with storage bytes, equality, element counts and messages; distinct by type, flavor and bytes", A_SER),
}

_M = "reference-model monitor over recorded executions"
_N = "Held on every execution observed (counts in the evidence file); says nothing about inputs not driven. "
_REF = _N + "Trusts the independent references in harness/ref.hpp (validated against OpenSSL and libxxhash in setup)."
_SER = _N + "Trusts the independent serializer in harness/ser.hpp, written from the documentation."
TECH = {
 "C01": (_M + " (published algorithms), exhaustive over lengths and structured over contents", _REF),
 "C02": (_M + ": split histories against whole-message references", _REF),
 "C03": (_M + " (RFC 2104 over independent digests)", _REF),
 "C04": ("monitored multi-gigabyte executions against incremental OpenSSL/reference oracles", _REF + " Lengths of 2^61 bytes and more cannot be executed."),
 "C05": ("trace-equivalence and pairwise-distinctness monitor over constructions", _REF),
 "C06": ("history monitor: object pools replayed against per-object executable models", _REF),
 "C07": ("history monitor: result sequences against the documented state machine", _REF),
 "C08": ("memory-remnant monitor: object bytes correlated with inputs over repeated executions", _N + "Observes the object's own storage only."),
 "C13": ("recording hash algorithm + independent serializer oracle", _SER),
 "C14": ("recording hash algorithm + independent serializer oracle, value sweeps under every rounding mode", _SER),
 "C15": ("recording hash algorithm + independent serializer oracle, counting iterators", _SER),
 "C16": ("metamorphic order monitor over all algorithms + independent serializer oracle", _SER),
 "C17": ("recording hash algorithm + independent serializer oracle", _SER),
 "C09": ("AddressSanitizer, UBSan, MemorySanitizer, valgrind, guard pages and canaries over random and hostile histories", _N + "Covers the code paths the workloads reach, on this platform."),
 "C10": ("ThreadSanitizer plus result comparison over concurrent jobs on distinct and shared constant objects", _N + "Schedules are those the system and the injected delays produced; race detection is schedule-insensitive for executed accesses."),
 "C11": ("differential monitor: generated constexpr programs against their own run-time execution", _N + "Programs are generated; both installed compilers, C++14 to C++23."),
 "C12": ("differential transcript monitor across build configurations and run-time environments", _N + "Only the installed compilers and this target."),
 "C18": ("message-grouping monitor: recorded messages of pools of values against equality", _SER),
 "C19": ("counting monitor over complete and structured result images", _N + "64-bit results are sampled."),
 "C20": ("reference-model monitor with guard bytes and hostile stream states", _N),
 "C21": ("differential monitor: algorithm on value against algorithm on the recorded message", _SER),
 "C22": (_M + " (published MurmurHash3 and SpookyHash V2), plus history determinism", _REF),
 "C24": ("end-to-end output monitor: checksum programs over generated files, sparse huge files and dribbling pipes against OpenSSL and references", _REF),
 "C25": ("model and history monitor of hash function objects: values against algorithm models, container histories against lists, bucket statistics", _SER),
 "C23": ("claim monitor: trait values confronted with observed storage bytes, equality, element counts and recorded messages", _SER),
}
