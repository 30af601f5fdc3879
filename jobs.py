"""Which generated-input searches decide which property, and on which builds of the library."""
import random

PROPS = ["C%02d" % i for i in range(1, 22)]
LEVEL = "exploration"

# Alignment: the arena hands out unaligned blocks by design. Null-pointer arithmetic with offset zero, nonnull
# attributes and indirect-call types are not memory errors and could be introduced by harmless edits.
ASAN_FLAGS = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,function,vptr,pointer-overflow,nonnull-attribute",
              "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

ASSUMPTIONS = [
    "single documents and texts stay below the range of the size type, less the library's bookkeeping",
    "the system allocator does not fail",
    "handles are used as documented: no handle into content that was replaced, no move of a value into itself or its own descendants",
    "tuning: growth factor at least 2, positive initial sizes; locales with decimal points '.', ',' and U+066B",
]

# ---------------------------------------------------------------------------------------- surfaces
SURFACES = {
    "c_long": dict(lang="c", surface="C_LONG"),
    "c_short": dict(lang="c", surface="C_SHORT"),
    "cpp_free": dict(lang="cpp", surface="CPP_FREE"),
    "cpp_long": dict(lang="cpp", surface="CPP_LONG"),
    "cpp_member": dict(lang="cpp", surface="CPP_MEMBER"),
    "hpp": dict(lang="cpp", surface="HPP"),
    "beta_long": dict(lang="c", surface="BETA_LONG"),
    "beta_short": dict(lang="c", surface="BETA_SHORT"),
    "beta_tiny": dict(lang="c", surface="BETA_LONG", defs=["-Dz_DELTA=3", "-Dz_ALLOCATORINITMEMSIZE=1", "-Dz_STRINGINITMEMSIZE=1", "-Dz_STRINGCACHEINITMEMSIZE=1"]),
    "beta_small": dict(lang="cpp", surface="BETA_LONG", defs=["-Dz_DELTA=5", "-Dz_ALLOCATORINITMEMSIZE=70", "-Dz_STRINGINITMEMSIZE=13", "-Dz_STRINGCACHEINITMEMSIZE=2", "-Dz_EXPECT_MODE=2"]),
    "beta_mode2": dict(lang="c", surface="BETA_SHORT", defs=["-DSURFACE_MODE2", "-Dz_MEMORY_MODE=2", "-Dz_STRINGINITMEMSIZE=60"]),
    "beta_mode3": dict(lang="c", surface="BETA_LONG", defs=["-DSURFACE_BETA_MODE3", "-Dz_MEMORY_MODE=3", "-Dz_EXPECT_MODE=3", "-Dz_DELTA=9"]),
    "beta_cpp": dict(lang="cpp", surface="BETA_LONG"),
    # "mix<k>": each entry of the table taken from c_long or c_short, as two translation units of one program would
    # tuning configurations
    "tiny": dict(lang="c", surface="C_LONG", defs=["-Dzj_DELTA=3", "-Dzj_ALLOCATOR_INIT_MEMSIZE=1", "-Dzj_STRING_INIT_MEMSIZE=1", "-Dzj_STRING_CACHE_INIT_MEMSIZE=1"]),
    "small": dict(lang="c", surface="C_SHORT", defs=["-Dzj_ALLOCATOR_INIT_MEMSIZE=64", "-Dzj_STRING_INIT_MEMSIZE=16", "-Dzj_STRING_CACHE_INIT_MEMSIZE=3", "-Dzj_EXPECT_MODE=2"]),
    "wide": dict(lang="c", surface="C_LONG", defs=["-Dzj_SIZE_TYPE=uint64_t", "-Dzj_ALLOCATOR_INIT_MEMSIZE=100", "-Dzj_STRING_INIT_MEMSIZE=7"]),
    "narrow": dict(lang="c", surface="C_LONG", vflags=["VF_FLAG_NARROW"], defs=["-Dzj_SIZE_TYPE=uint16_t"]),
    "narrow_tiny": dict(lang="cpp", surface="CPP_MEMBER", vflags=["VF_FLAG_NARROW"], defs=["-Dzj_SIZE_TYPE=uint16_t", "-Dzj_ALLOCATOR_INIT_MEMSIZE=5", "-Dzj_STRING_INIT_MEMSIZE=2", "-Dzj_DELTA=7"]),
    "mode2": dict(lang="c", surface="C_LONG", defs=["-DSURFACE_MODE2", "-Dzj_MEMORY_MODE=2"]),
    "mode2_cpp": dict(lang="cpp", surface="CPP_FREE", defs=["-DSURFACE_MODE2", "-Dzj_MEMORY_MODE=2", "-Dzj_DELTA=4"]),
    "mode3": dict(lang="c", surface="C_LONG", defs=["-DSURFACE_MODE3", "-Dzj_MEMORY_MODE=3", "-Dzj_EXPECT_MODE=3", "-Dzj_SIZE_TYPE=uint32_t"]),
    "mode3_cpp": dict(lang="cpp", surface="CPP_MEMBER", defs=["-DSURFACE_MODE3", "-Dzj_MEMORY_MODE=3", "-Dzj_EXPECT_MODE=3", "-Dzj_SIZE_TYPE=uint32_t", "-Dzj_STRING_INIT_MEMSIZE=33"]),
    "clang_o3": dict(lang="c", surface="C_SHORT", cc="clang", opt="-O3", defs=["-Dzj_DELTA=10"]),
    "gcc_o0": dict(lang="c", surface="C_LONG", opt="-O0", defs=["-Dzj_EXPECT_MODE=2", "-Dzj_STRING_INIT_MEMSIZE=8"]),
}
CC_ALL = ["c_long", "c_short", "cpp_free", "cpp_long", "cpp_member", "hpp"]


def surface_spec(name):
    if name in SURFACES:
        return SURFACES[name]
    assert name.startswith("rnd:"), name
    # rnd:<surface>:<size bits>:<delta>:<alloc>:<string>:<cache>:<expect>
    _, surf, bits, delta, al, st, ca, ex = name.split(":")
    d = ["-Dzj_SIZE_TYPE=uint%s_t" % bits, "-Dzj_DELTA=" + delta, "-Dzj_ALLOCATOR_INIT_MEMSIZE=" + al, "-Dzj_STRING_INIT_MEMSIZE=" + st,
         "-Dzj_STRING_CACHE_INIT_MEMSIZE=" + ca, "-Dzj_EXPECT_MODE=" + ex]
    spec = dict(SURFACES[surf])
    spec["defs"] = d
    if bits == "16":
        spec["vflags"] = ["VF_FLAG_NARROW"]
    return spec


def random_config(rng):
    surf = rng.choice(["c_long", "c_short", "cpp_member", "cpp_free"])
    bits = rng.choice(["16", "32", "32", "64"])
    mx = 3000 if bits == "16" else 20000
    def size():
        return str(rng.choice([rng.randint(1, 9), rng.randint(1, 70), rng.randint(1, 1100), rng.randint(1, mx)]))
    return "rnd:%s:%s:%d:%s:%s:%s:%d" % (surf, bits, rng.choice([2, 2, 3, 5, 8, 16]), size(), size(), size(), rng.choice([1, 2]))


def job(engine, param, surfaces, flavour, quick, thorough=None, **kw):
    if isinstance(surfaces, str):
        surfaces = [surfaces]
    d = dict(engine=engine, param=param, surfaces=surfaces, flavour=flavour, quick=quick, thorough=thorough)
    d.update(kw)
    return d


ALL = 0  # every case of an indexed engine
NO = None

TEXT_SWEEPS = ["struct", "tokens", "inarr", "inobj", "numtext", "numarr", "strtext", "surr", "keytext", "bytes2", "bytesin", "bytesarr"]
LIT_SWEEPS = ["lit", "num", "numbytes", "numtail", "str", "strsurr", "strbytes", "key", "keysurr", "keybytes"]


def fuzz(engine, param, surfaces, quick, thorough, **kw):
    return job(engine, param, surfaces, "fuzz", quick, thorough, **kw)


def _spec(prop, seed):
    rng = random.Random("%s/%d" % (prop, seed))
    P, A = "plain", "asan"
    R = "asanraw"  # ASan on the library's own blocks as they are (no exact-block hook)
    # every other interface, and the beta header: one is drawn per case
    SIDE = ["c_short", "cpp_free", "cpp_member", "hpp", "beta_long"]
    if prop == "C01":
        return ([job("doc", "f=verdict", "c_long", P, 60000, 3000000)] +
                [job("sweep", "w=" + w, "c_long", P, ALL, ALL) for w in TEXT_SWEEPS] +
                [job("unicode", "only=parse", "c_long", P, ALL, ALL), job("trunc", "", "c_long", P, ALL, ALL),
                 job("doc", "f=bytes", "c_long", P, 40000, 2000000), job("lens", "max=600", "c_long", P, ALL, ALL),
                 job("deep", "k=16", "c_long", P, ALL, ALL),
                 job("doc", "f=verdict", "c_long", A, 4000, 200000), job("trunc", "", "c_long", A, ALL, ALL),
                 fuzz("doc", "f=bytes", ["c_long"], NO, 400000)]) + [
            job("doc", "f=verdict", SIDE, P, 20000, 1000000), job("trunc", "", SIDE, P, ALL, ALL), job("doc", "f=verdict", ["tiny", "small"], P, 20000, 500000), job("sweep", "w=struct", SIDE, P, ALL, ALL), job("trunc", "", "small", P, ALL, ALL),
            job("lenient", "", "c_long", P, ALL, ALL), job("lenient", "", SIDE, P, ALL, ALL), job("lenient", "", "c_long", A, ALL, ALL),
            job("near", "", "c_long", P, 50000, 3000000), job("near", "", SIDE, P, 10000, 600000), job("near", "", "c_long", A, 3000, 100000), job("twins", "", "c_long", P, 8000, 500000), job("big", "", "c_long", P, 60, 20000), job("big", "k=16", "c_long", P, 160, 50000)]
    if prop == "C02":
        return [job("doc", "f=read", "c_long", P, 60000, 3000000), job("hist", "p=parse", "c_long", P, 15000, 500000),
                job("lens", "max=400", "c_long", P, ALL, ALL), job("sweep", "w=keytext", "c_long", P, ALL, ALL), job("sweep", "w=inobj", "c_long", P, ALL, ALL),
                job("unicode", "", "c_long", P, ALL, ALL), job("doc", "f=read", "tiny", P, 10000, 500000), job("doc", "f=read", "c_long", A, 4000, 200000),
                job("hist", "p=read", "c_long", P, 8000, 300000)] + [
            job("wide", "", "c_long", P, 12000, 300000), job("doc", "f=read", SIDE, P, 20000, 1000000), job("wide", "", SIDE, P, 3000, 100000), job("trunc", "", "c_long", P, ALL, ALL), job("cycle", "", "c_long", P, 6000, 300000), job("twins", "", "c_long", P, 10000, 500000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C03":
        return [job("doc", "f=text", "c_long", P, 50000, 3000000), job("lens", "max=4500", "c_long", P, ALL, ALL), job("lens", "max=700", "tiny", P, ALL, ALL),
                job("doc", "f=text", "tiny", P, 10000, 500000), job("hist", "p=edit", "c_long", P, 15000, 500000), job("deep", "k=16", "c_long", P, ALL, ALL),
                job("sweep", "w=tokens", "c_long", P, ALL, ALL), job("doc", "f=text", "c_long", A, 4000, 200000), job("lens", "max=1100", "c_long", A, ALL, ALL)] + [
            job("wide", "", "c_long", P, 6000, 300000), job("doc", "f=text", SIDE, P, 20000, 1000000), job("unicode", "", "c_long", P, ALL, ALL), job("hist", "p=long", "c_long", P, 2000, 100000),
            job("doc", "f=text", "c_long", R, 3000, 100000), job("trunc", "", "c_long", P, ALL, ALL), job("twins", "", "c_long", P, 8000, 500000), job("twins", "", SIDE, P, 4000, 200000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C04":
        return [job("into", "", "c_long", P, 40000, 2000000), job("trunc", "", "c_long", P, ALL, ALL), job("hist", "p=parse", "c_long", P, 30000, 1500000),
                job("into", "", "tiny", P, 8000, 400000), job("into", "", "c_long", A, 4000, 150000), job("sweep", "w=inarr", "c_long", P, ALL, ALL),
                job("hist", "p=parse", "c_long", A, 2000, 100000)] + [
            job("into", "", SIDE, P, 10000, 500000), job("trunc", "", SIDE, P, ALL, ALL), job("wide", "", "c_long", P, 6000, 200000), job("hist", "p=parse", SIDE, P, 6000, 300000),
            job("near", "", "c_long", P, 20000, 1000000), job("near", "", SIDE, P, 6000, 300000), job("twins", "", "c_long", P, 8000, 400000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C05":
        return [job("hist", "p=edit", "c_long", P, 60000, 3000000), job("shorthist", "len=3", "c_long", P, ALL, ALL), job("shorthist", "len=4", "c_long", P, NO, ALL),
                job("hist", "p=mix", "c_long", P, 20000, 1000000), job("hist", "p=small", "c_long", P, 30000, 1500000), job("moves", "", "c_long", P, ALL, ALL),
                job("hist", "p=edit", "tiny", P, 8000, 400000), job("hist", "p=edit", "c_long", A, 3000, 150000), fuzz("hist", "p=edit", ["c_long"], NO, 150000, max_len=400)] + [
            job("hist", "p=long", "c_long", P, 6000, 300000), job("wide", "", "c_long", P, 12000, 500000), job("hist", "p=edit", SIDE, P, 15000, 700000), job("shorthist", "len=3", SIDE, P, ALL, ALL),
            job("hist", "p=lits", "c_long", P, 10000, 400000), job("hist", "p=parse", "c_long", P, 10000, 400000), job("cycle", "", "c_long", P, 8000, 400000), job("twins", "", "c_long", P, 8000, 400000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C06":
        return [job("hist", "p=copy", "c_long", P, 60000, 3000000), job("hist", "p=copy", "c_long", A, 6000, 250000), job("hist", "p=mix", "c_long", P, 10000, 500000),
                job("shorthist", "len=3", "c_long", P, ALL, ALL), job("shorthist", "len=3", "c_long", A, 60000, ALL), job("hist", "p=copy", "tiny", P, 10000, 400000),
                job("reads", "", "c_long", P, 8000, 300000)] + [
            job("wide", "", "c_long", P, 6000, 300000), job("hist", "p=copy", SIDE, P, 10000, 500000), job("hist", "p=long", "c_long", P, 2000, 100000), job("lens", "max=600", "c_long", P, ALL, ALL),
            job("doc", "f=read", "c_long", P, 10000, 400000), job("hist", "p=mem", "c_long", P, 10000, 400000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C07":
        return [job("hist", "p=move", "c_long", P, 60000, 3000000), job("moves", "", "c_long", P, ALL, ALL), job("shorthist", "len=3", "c_long", P, ALL, ALL),
                job("shorthist", "len=4", "c_long", P, NO, ALL), job("hist", "p=move", "c_long", A, 4000, 200000), job("hist", "p=small", "c_long", P, 20000, 1000000),
                job("hist", "p=mix", "c_long", P, 10000, 500000)] + [
            job("wide", "", "c_long", P, 8000, 300000), job("hist", "p=long", "c_long", P, 4000, 200000), job("hist", "p=move", SIDE, P, 10000, 500000), job("moves", "", SIDE, P, ALL, ALL), job("hist", "p=move", "tiny", P, 8000, 300000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C08":
        return ([job("hist", "p=lits", "c_long", P, 50000, 2500000)] + [job("sweep", "w=" + w, "c_long", P, ALL, ALL) for w in LIT_SWEEPS] +
                [job("unicode", "", "c_long", P, ALL, ALL), job("hist", "p=lits", "c_long", A, 3000, 150000), job("num", "", "c_long", P, 20000, 500000),
                 job("lens", "max=1200", "c_long", P, ALL, ALL), job("hist", "p=edit", "c_long", P, 10000, 500000)]) + [
            job("hist", "p=lits", SIDE, P, 10000, 500000), job("hist", "p=mix", "c_long", P, 10000, 500000), job("sweep", "w=strsurr", SIDE, P, ALL, ALL), job("sweep", "w=num", SIDE, P, ALL, ALL),
            job("esc", "", "c_long", P, 10000, 400000), job("numlen", "", "c_long", P, ALL, ALL), job("lenient", "only=set", "c_long", P, ALL, ALL), job("lenient", "only=set", SIDE, P, ALL, ALL), job("twins", "", "c_long", P, 10000, 500000), job("twins", "", SIDE, P, 4000, 200000), job("big", "", "c_long", P, 100, 20000), job("big", "k=16", "c_long", P, 266, 50000), job("hist", "p=lits", "c_long", P, 5000, 200000, locale="comma")]
    if prop == "C09":
        return [job("esc", "", "c_long", P, 80000, 4000000), job("escbytes", "", "c_long", P, ALL, ALL), job("unicode", "", "c_long", P, ALL, ALL),
                job("lens", "max=1500", "c_long", P, ALL, ALL), job("esc", "", "tiny", P, 15000, 500000), job("esc", "", "c_long", A, 6000, 250000),
                job("hist", "p=lits", "c_long", P, 8000, 400000), job("sweep", "w=strsurr", "c_long", P, ALL, ALL)] + [
            job("esc", "", SIDE, P, 15000, 700000), job("unicode", "", SIDE, P, ALL, ALL), job("esc", "", "c_long", R, 3000, 100000), job("escbytes", "", SIDE, P, ALL, ALL), job("twins", "", "c_long", P, 10000, 500000), job("twins", "", SIDE, P, 4000, 200000), job("big", "", "c_long", P, 60, 20000), job("big", "k=16", "c_long", P, 160, 50000)]
    if prop == "C10":
        return [job("num", "", "c_long", P, 120000, 5000000), job("ints", "", "c_long", P, ALL, ALL), job("numlen", "", "c_long", P, ALL, ALL),
                job("numlen", "", "tiny", P, ALL, ALL), job("num", "", "tiny", P, 15000, 500000), job("num", "", "c_long", A, 8000, 300000), job("ints", "", "c_long", A, ALL, ALL),
                job("num", "", "hpp", P, 15000, 500000)] + [
            job("num", "", SIDE, P, 20000, 700000), job("ints", "", SIDE, P, ALL, ALL), job("doc", "f=read", "c_long", P, 10000, 400000), job("twins", "", "c_long", P, 12000, 600000), job("twins", "", SIDE, P, 4000, 200000), job("big", "", "c_long", P, 60, 20000), job("big", "k=16", "c_long", P, 160, 50000), job("num", "", ["c_long"] + SIDE, P, 15000, 500000, locale="comma"), job("num", "", "c_long", P, 5000, 200000, locale="arab"), job("num", "", "c_long", A, 3000, 100000, locale="arab"), job("numlen", "", "c_long", P, ALL, ALL, locale="comma"), job("doc", "f=read", "c_long", P, 4000, 100000, locale="comma")]
    if prop == "C11":
        js = [job("doc", "f=" + f, "c_long", A, 5000, 250000) for f in ("verdict", "read", "text", "bytes")]
        js += [job("hist", "p=" + p, "c_long", A, 2500, 150000) for p in ("edit", "copy", "move", "mem", "read", "lits", "parse", "mix")]
        js += [job("sweep", "w=" + w, "c_long", A, ALL, ALL) for w in ("bytes2", "bytesin", "strbytes", "numbytes", "keybytes", "lit")]
        js += [job("sweep", "w=" + w, "c_long", A, NO, ALL) for w in TEXT_SWEEPS + LIT_SWEEPS]
        js += [job("into", "", "c_long", A, 2500, 150000), job("trunc", "", "c_long", A, ALL, ALL), job("moves", "", "c_long", A, 20000, ALL), job("shorthist", "len=3", "c_long", A, 40000, ALL),
               job("num", "", "c_long", A, 5000, 250000), job("numlen", "", "c_long", A, ALL, ALL), job("esc", "", "c_long", A, 4000, 250000), job("escbytes", "", "c_long", A, ALL, ALL),
               job("unicode", "", "c_long", A, ALL, ALL), job("lens", "max=1100", "c_long", A, ALL, ALL), job("hist", "p=mix", "tiny", A, 1500, 100000), job("lens", "max=300", "tiny", A, ALL, ALL),
               job("hist", "p=mix", "hpp", A, 1500, 100000), job("deep", "k=14", "c_long", A, ALL, ALL),
               job("doc", "f=verdict", "c_long", P, 20000, 500000), job("hist", "p=mix", "c_long", P, 10000, 500000), job("doc", "f=read", "c_long", P, 10000, 500000, fill=0),
               job("hist", "p=mix", "c_long", "vg", 240, 20000), job("doc", "f=read", "c_long", "vg", 240, 20000), job("num", "", "c_long", "vg", 80, 4000),
               fuzz("doc", "f=bytes", ["c_long"], 15000, 600000), fuzz("hist", "p=mix", ["c_long"], 3000, 250000, max_len=400)]
        js += [job("wide", "", "c_long", A, 500, 30000), job("hist", "p=long", "c_long", A, 250, 15000), job("hist", "p=mix", "c_long", R, 2500, 150000), job("doc", "f=read", "c_long", R, 2500, 150000), job("esc", "", "c_long", R, 2000, 100000),
               job("num", "", "c_long", R, 2000, 100000), job("lens", "max=1100", "c_long", R, ALL, ALL), job("hist", "p=mix", SIDE, A, 2500, 150000), job("doc", "f=verdict", SIDE, A, 2500, 150000),
               job("near", "", "c_long", A, 2500, 150000)]
        js += [job("twins", "", "c_long", A, 3000, 150000)]
        js += [job("big", "k=17", "c_long", A, 200, 8000), job("big", "", "c_long", A, 80, 4000), job("big", "k=15", "c_long", R, 200, 8000), job("big", "", "c_long", R, 80, 4000)]
        return js
    if prop == "C12":
        return [job("hist", "p=mem", "c_long", P, 50000, 2500000), job("hist", "p=mem", "c_long", A, 6000, 250000), job("hist", "p=copy", "c_long", A, 3000, 150000),
                job("hist", "p=lits", "c_long", P, 10000, 400000), job("hist", "p=mem", "tiny", P, 8000, 400000), job("hist", "p=mem", "hpp", P, 8000, 400000),
                job("hist", "p=mem", "mode2", P, 8000, 400000), job("growth", "", "narrow", P, ALL, ALL), job("lens", "max=1500", "c_long", P, ALL, ALL)] + [
            job("hist", "p=mem", SIDE, P, 10000, 500000), job("hist", "p=mem", "c_long", R, 4000, 200000), job("hist", "p=mem", "tiny", R, 2000, 100000), job("wide", "", "c_long", P, 3000, 100000), job("hist", "p=long", "c_long", P, 2000, 80000),
            job("num", "", "c_long", P, 10000, 400000), job("esc", "", "c_long", P, 10000, 400000), job("into", "", "c_long", P, 8000, 300000), job("hist", "p=mem", "mode3", P, 8000, 400000), job("cycle", "", "c_long", P, 15000, 600000), job("cycle", "", SIDE, P, 5000, 250000), job("twins", "", "c_long", P, 15000, 800000), job("twins", "", SIDE, P, 5000, 250000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C13":
        cfgs = ["c_long", "tiny", "small", "wide", "narrow", "narrow_tiny", "mode2", "mode2_cpp", "mode3", "mode3_cpp", "clang_o3", "gcc_o0"]
        rnd = [random_config(rng) for _ in range(6)]
        js = [job("histall", "", cfgs, P, 6000, 200000), job("histall", "", ["c_long"] + rnd, P, 8000, 300000)]
        js += [job("lens", "max=1300", c, P, ALL, ALL) for c in ("tiny", "small", "narrow", "clang_o3", "mode3", "wide", rnd[0])]
        js += [job("doc", "f=text", c, P, 4000, 200000) for c in ("tiny", "narrow", "wide", "mode3_cpp", rnd[1], rnd[2])]
        js += [job("num", "", c, P, 4000, 200000) for c in ("narrow", "wide", "small", rnd[3])]
        js += [job("esc", "", c, P, 4000, 200000) for c in ("narrow", "tiny", "small", rnd[4])]
        js += [job("unicode", "", c, P, ALL, ALL) for c in ("narrow", "wide")]
        js += [job("growth", "", c, P, ALL, ALL) for c in ("narrow", "narrow_tiny")]
        js += [job("hist", "p=mem", c, P, 3000, 150000) for c in ("mode2", "mode3", "mode2_cpp", "mode3_cpp", rnd[5])]
        js += [job("hist", "p=mix", c, A, 1200, 60000) for c in ("tiny", "narrow_tiny", rnd[0])]
        # thorough: many more configurations
        for k in range(40):
            c = random_config(rng)
            js += [job("hist", "p=mix", c, P, NO, 30000), job("doc", "f=text", c, P, NO, 20000), job("lens", "max=400", c, P, NO, ALL)]
        js += [job("wide", "", cfgs, P, 4000, 100000), job("hist", "p=long", cfgs, P, 1500, 60000), job("cycle", "", cfgs, P, 5000, 200000), job("hist", "p=mix", rnd, A, 1200, 60000), job("hist", "p=mix", ["tiny", "small", "wide", rnd[2]], R, 2000, 100000), job("trunc", "", ["tiny", "narrow", "small"], P, ALL, ALL),
               job("near", "", cfgs, P, 12000, 400000), job("lenient", "", cfgs, P, ALL, ALL), job("brim", "", ["narrow", "narrow_tiny"], P, 500, 20000)]
        js += [job("twins", "", cfgs, P, 6000, 200000)]
        js += [job("big", "k=17", cfgs[1:4] + cfgs[6:], P, 400, 20000), job("big", "", ["narrow", "narrow_tiny"], P, 300, 10000)]
        return js
    if prop == "C14":
        js = [job("histall", "", CC_ALL, P, 15000, 600000)]
        for s in CC_ALL[1:]:
            js += [job("hist", "p=mix", s, P, 4000, 200000), job("num", "", s, P, 4000, 200000), job("esc", "", s, P, 3000, 150000), job("doc", "f=read", s, P, 3000, 150000),
                   job("ints", "", s, P, ALL, ALL), job("sweep", "w=lit", s, P, ALL, ALL), job("hist", "p=lits", s, P, 3000, 150000)]
        js += [job("hist", "p=mem", s, P, 4000, 150000) for s in ("hpp", "cpp_member")]
        js += [job("hist", "p=mix", s, A, 1500, 80000) for s in ("cpp_member", "hpp")]
        js += [job("moves", "", s, P, 30000, ALL) for s in ("hpp", "cpp_member", "c_short", "cpp_free")]
        js += [job("wide", "", CC_ALL[1:], P, 4000, 100000), job("unicode", "", CC_ALL[1:], P, ALL, ALL), job("trunc", "", CC_ALL[1:], P, ALL, ALL), job("lens", "max=600", CC_ALL[1:], P, ALL, ALL), job("near", "", CC_ALL[1:], P, 8000, 300000),
               job("lenient", "", CC_ALL[1:], P, ALL, ALL), job("lenient", "only=set", CC_ALL[1:], P, ALL, ALL)]
        # calls alternating between two separately compiled copies of the header
        MIX = ["mix1", "mix2", "mix3", "mix4"]
        js += [job("cycle", "", CC_ALL[1:], P, 10000, 400000), job("cycle", "", MIX, P, 3000, 100000)]
        js += [job("hist", "p=mix", MIX, P, 10000, 400000), job("doc", "f=read", MIX, P, 6000, 200000), job("num", "", MIX, P, 3000, 150000), job("esc", "", MIX, P, 3000, 150000), job("hist", "p=mix", MIX, A, 1000, 60000)]
        js += [job("twins", "", CC_ALL[1:], P, 10000, 400000), job("twins", "", MIX, P, 3000, 100000)]
        js += [job("big", "k=17", CC_ALL[1:], P, 400, 20000)]
        js += [job("big", "m=17;kind=4", ["c_short", "cpp_free", "cpp_member", "hpp"], P, 120, 6000)]
        return js
    if prop == "C15":
        js = [job("hist", "p=" + p, "go", P, q, 40 * q) for p, q in (("mix", 8000), ("edit", 5000), ("move", 4000), ("copy", 4000), ("lits", 4000), ("parse", 3000), ("read", 3000))]
        js += [job("doc", "f=" + f, "go", P, 6000, 200000) for f in ("verdict", "read", "text")]
        js += [job("sweep", "w=" + w, "go", P, ALL, ALL) for w in ("struct", "lit", "num", "strsurr", "str", "key", "bytesin")]
        js += [job("esc", "", "go", P, 8000, 300000), job("unicode", "", "go", P, ALL, ALL), job("escbytes", "", "go", P, ALL, ALL), job("shorthist", "len=3", "go", P, 60000, ALL),
               job("moves", "", "go", P, 30000, ALL), job("lens", "max=600", "go", P, ALL, ALL), job("into", "", "go", P, 3000, 150000), job("hist", "p=mem", "go", P, 3000, 120000),
               job("num", "", "go", P, 6000, 200000), job("histall", "", ["c_long", "go"], P, 3000, 100000)]
        js += [job("threads", "", "go", P, 500, 20000), job("cycle", "", "go", P, 4000, 200000), job("deep", "k=18", "go", P, ALL, ALL), job("wide", "", "go", P, 1200, 40000), job("hist", "p=long", "go", P, 400, 20000), job("near", "", "go", P, 5000, 200000), job("lenient", "", "go", P, ALL, ALL), job("lenient", "only=set", "go", P, ALL, ALL), job("ints", "", "go", P, ALL, ALL)]
        js += [job("twins", "", "go", P, 4000, 200000)]
        js += [job("big", "k=17", "go", P, 400, 20000), job("big", "", "go", P, 100, 5000)]
        js += [job("big", "m=17;kind=4", "go", P, 80, 4000)]
        return js
    if prop == "C16":
        b = "beta_long"
        js = [job("hist", "p=" + p, b, P, 12000, 600000) for p in ("edit", "copy", "move", "lits", "parse", "mem", "read", "mix")]
        js += [job("doc", "f=" + f, b, P, 12000, 600000) for f in ("verdict", "read", "text")]
        js += [job("sweep", "w=" + w, b, P, ALL, ALL) for w in TEXT_SWEEPS + LIT_SWEEPS]
        js += [job("unicode", "", b, P, ALL, ALL), job("trunc", "", b, P, ALL, ALL), job("into", "", b, P, 8000, 400000), job("shorthist", "len=3", b, P, ALL, ALL),
               job("moves", "", b, P, ALL, ALL), job("num", "", b, P, 15000, 600000), job("numlen", "", b, P, ALL, ALL), job("ints", "", b, P, ALL, ALL), job("esc", "", b, P, 8000, 400000),
               job("lens", "max=1500", b, P, ALL, ALL), job("deep", "k=16", b, P, ALL, ALL), job("reads", "", b, P, 6000, 300000),
               job("hist", "p=mix", "beta_short", P, 5000, 300000), job("hist", "p=mix", "beta_cpp", P, 5000, 300000),
               job("hist", "p=mix", b, A, 4000, 200000), job("hist", "p=mem", b, A, 2000, 100000), job("doc", "f=verdict", b, A, 4000, 200000), job("trunc", "", b, A, ALL, ALL), job("num", "", b, A, 3000, 150000),
               job("lens", "max=600", b, A, ALL, ALL), job("huge", "n=90000000", b, P, ALL, ALL, **{"as": 14000, "mem": 16, "cpu": 60, "wall": 200}),
               job("large", "n=2147483653;k=0", b, P, ALL, ALL, **{"as": 0, "mem": 22, "workers": 1, "cpu": 120, "wall": 300}),
               fuzz("doc", "f=bytes", ["beta_long"], NO, 300000), fuzz("hist", "p=mix", ["beta_long"], NO, 120000, max_len=400)]
        js += [job("cycle", "", b, P, 8000, 300000), job("wide", "", b, P, 8000, 200000), job("hist", "p=long", b, P, 3000, 100000), job("escbytes", "", b, P, ALL, ALL), job("hist", "p=mix", b, R, 2500, 100000),
               job("doc", "f=read", ["beta_short", "beta_cpp"], P, 6000, 200000), job("num", "", ["beta_short", "beta_cpp"], P, 4000, 200000), job("esc", "", ["beta_short", "beta_cpp"], P, 4000, 200000),
               job("threads", "", b, "tsan", 200, 8000), job("near", "", b, P, 40000, 1500000), job("lenient", "", b, P, ALL, ALL), job("lenient", "only=set", b, P, ALL, ALL)]
        # its own tuning configurations
        BT = ["beta_tiny", "beta_small", "beta_mode2", "beta_mode3"]
        js += [job("hist", "p=mix", BT, P, 6000, 300000), job("hist", "p=mem", BT, P, 4000, 200000), job("doc", "f=text", BT, P, 6000, 300000), job("lens", "max=400", BT, P, ALL, ALL), job("hist", "p=mix", BT, R, 1500, 60000), job("num", "", BT, P, 3000, 100000)]
        js += [job("twins", "", b, P, 10000, 400000), job("twins", "", BT, P, 4000, 150000)]
        js += [job("big", "", b, P, 200, 15000), job("big", "k=16", b, P, 600, 40000), job("big", "k=15", BT, P, 300, 15000)]
        js += [job("num", "", b, P, 8000, 300000, locale="comma"), job("num", "", b, A, 2000, 100000, locale="arab"), job("hist", "p=lits", b, P, 2000, 100000, locale="comma")]
        return js
    if prop == "C17":
        return [job("deep", "k=21", "c_long", P, ALL, ALL, **{"as": 6000}), job("deep", "k=17", "tiny", P, ALL, ALL), job("deep", "k=15", "c_long", A, ALL, ALL), job("growth", "", "narrow", P, ALL, ALL),
                job("growth", "", "narrow_tiny", P, ALL, ALL), job("deep", "k=17", "hpp", P, ALL, ALL), job("lens", "max=4500", "c_long", P, ALL, ALL), job("deep", "k=23;from=21", "c_long", P, NO, ALL, **{"as": 10000, "workers": 3, "cpu": 300, "wall": 400}),
                job("huge", "n=90000000", "c_long", P, ALL, ALL, **{"as": 14000, "mem": 16, "cpu": 60, "wall": 200})] + [
            job("wide", "", "c_long", P, 6000, 300000), job("deep", "k=17", "beta_long", P, ALL, ALL), job("deep", "k=17", "cpp_member", P, ALL, ALL), job("growth", "", "rnd:c_long:16:2:1:1:1:1", P, ALL, ALL),
            job("large", "n=134217731", "c_long", P, ALL, ALL, **{"as": 0, "workers": 4, "cpu": 120, "wall": 300}), job("large", "n=536870917", "c_long", P, NO, ALL, **{"as": 0, "workers": 1, "cpu": 300, "wall": 600}),
            job("brim", "", ["narrow", "narrow_tiny", "rnd:c_short:16:2:1:1:1:1", "rnd:cpp_free:16:3:200:30:5:2"], P, 1500, 60000), job("brim", "", ["narrow", "narrow_tiny"], A, 200, 6000),
            job("large", "n=2147483653;k=0", "c_long", P, ALL, ALL, **{"as": 0, "mem": 22, "workers": 1, "cpu": 120, "wall": 300}),
            job("large", "n=20000003", ["hpp", "beta_long", "cpp_free", "wide"], P, ALL, ALL, **{"as": 0, "workers": 4}), job("big", "", "c_long", P, 100, 20000), job("big", "k=16", "c_long", P, 266, 50000)]
    if prop == "C18":
        return [job("threads", "", "c_long", "tsan", 600, 30000), job("threads", "", "hpp", "tsan", 300, 15000), job("threads", "", "c_long", P, 8000, 300000), job("threads", "", "hpp", P, 4000, 150000),
                job("threads", "", "c_long", A, 800, 40000), job("threads", "", "tiny", "tsan", 200, 10000)] + [
            job("threads", "", "beta_long", "tsan", 150, 8000), job("threads", "", ["c_short", "cpp_member", "cpp_free"], P, 3000, 100000)]
    if prop == "C19":
        return [job("hist", "p=read", "c_long", P, 40000, 2000000), job("reads", "", "c_long", P, 25000, 1200000), job("reads", "", "c_long", A, 2500, 120000), job("hist", "p=lits", "c_long", P, 15000, 600000),
                job("hist", "p=mix", "c_long", P, 15000, 600000), job("into", "", "c_long", P, 15000, 600000), job("sweep", "w=lit", "c_long", P, ALL, ALL), job("hist", "p=read", "c_long", A, 2000, 100000),
                job("doc", "f=read", "c_long", P, 10000, 400000)] + [
            job("reads", "", SIDE, P, 5000, 300000), job("hist", "p=read", SIDE, P, 8000, 400000), job("wide", "", "c_long", P, 5000, 200000), job("esc", "", "c_long", P, 8000, 300000), job("num", "", "c_long", P, 8000, 300000), job("twins", "", "c_long", P, 6000, 300000)]
    if prop == "C20":
        return [job("hist", "p=mix", "c_long", P, 50000, 2500000), job("shorthist", "len=3", "c_long", P, ALL, ALL), job("shorthist", "len=4", "c_long", P, NO, ALL), job("moves", "", "c_long", P, ALL, ALL),
                job("hist", "p=move", "c_long", P, 15000, 800000), job("hist", "p=small", "c_long", P, 25000, 1000000), job("doc", "f=read", "c_long", P, 15000, 500000), job("hist", "p=mix", "tiny", P, 5000, 300000),
                job("lens", "max=400", "c_long", P, ALL, ALL), job("hist", "p=mix", "c_long", A, 2500, 100000)] + [
            job("wide", "", "c_long", P, 10000, 500000), job("hist", "p=long", "c_long", P, 5000, 250000), job("hist", "p=mix", SIDE, P, 8000, 400000), job("wide", "", SIDE, P, 3000, 100000), job("into", "", "c_long", P, 8000, 300000), job("cycle", "", "c_long", P, 6000, 300000), job("twins", "", "c_long", P, 8000, 400000), job("big", "", "c_long", P, 150, 20000), job("big", "k=16", "c_long", P, 400, 50000)]
    if prop == "C21":
        N = "count"
        return [job("cost", "", "c_long", N, 40000, 400000), job("cost", "", SIDE, N, 20000, 200000), job("cost", "", ["small", "wide"], N, 10000, 100000), job("cost", "", "beta_long", N, 15000, 150000),
                job("cost", "n=6000", "c_long", N, 2000, 20000), job("cost", "n=6000", SIDE, N, 1500, 15000), job("cost", "n=60000", "c_long", N, 300, 3000),
                job("deep", "k=19", "c_long", P, ALL, ALL)]
    raise KeyError(prop)


# properties that also promise that the surface builds at all
BUILD_IS_PART = {"C13": True, "C14": True, "C15": True, "C16": True}


# how much of the sampled plain jobs the quick tier takes (times the numbers above)
QUICK_FACTOR = {"C01": 5, "C02": 2, "C03": 2, "C04": 2, "C05": 2, "C06": 2, "C07": 2, "C08": 3, "C09": 5, "C10": 5, "C12": 2, "C17": 3, "C19": 2, "C20": 2}


def jobs_for(prop, tier, seed):
    out = []
    for j in _spec(prop, seed):
        n = j["quick"] if tier == "quick" else (j["thorough"] if j["thorough"] is not None else j["quick"])
        if n is None:
            continue
        if tier == "quick" and j["flavour"] == "plain":
            n *= QUICK_FACTOR.get(prop, 1)
        d = dict(j)
        d["cases"] = n
        if tier == "thorough":
            d.setdefault("maxsec", 900)
        out.append(d)
    return out


def fuzz_seeds(engine, seed):
    rng = random.Random(seed)
    out = []
    if engine == "doc":
        texts = [b'{"a":[1,2.5e-3,"x\\u00e9\\ud83d\\ude00\\n"],"b":{"":null,"a":true,"a":false}}', b"[]", b"{}", b' [ -0.1E+20 , "" ] ', b'"\\"\\\\\\/\\b\\f\\n\\r\\t"',
                 b"[[[[[[]]]]]]", b'{"k":{"k":{"k":[]}}}', b"true", b"null", b"-12345678901234567890", b'["\xc3\xa9\xff",{"z":0}]']
        for t in texts:
            n = len(t)
            out.append(bytes([0]) + n.to_bytes(2, "big") + t + bytes(rng.randrange(256) for _ in range(12)))
    for n in (8, 40, 120, 300):
        out.append(bytes(rng.randrange(256) for _ in range(n)))
    return out
