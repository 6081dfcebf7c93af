"""Build pipeline: /repo's current source + the harness -> one optimised LLVM module (text) for the
symbolic executor, and native replay binaries (dev-like and release profiles)."""
import glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMEX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable"


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, quiet=True):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(str, cmd))[:600], r.stdout[-6000:]))
    return r.stdout


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = run(["rustc", "--print", "sysroot"]).strip()
    return _sys


def rl(*p):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu", *p)


def tool(n):
    return rl("bin", n)


def textcode_src():
    c = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/textcode-0.2*/src/lib.rs")))
    if not c:
        out = run(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", REPO + "/Cargo.toml"])
        m = re.search(r'"src_path":"([^"]*textcode-0\.2[^"]*lib\.rs)"', out)
        if not m:
            raise BuildError("textcode source not found")
        return m.group(1)
    return c[-1]


def features():
    """All features of the crate, and those of its default set, read from its manifest."""
    import tomllib
    d = tomllib.load(open(REPO + "/email-parser/Cargo.toml", "rb"))
    f = dict(d.get("features", {}))
    alls = set(f)
    for n, v in d.get("dependencies", {}).items():
        if isinstance(v, dict) and v.get("optional"):
            alls.add(n)
    dflt, todo = set(), ["default"]
    while todo:
        x = todo.pop()
        if x in dflt:
            continue
        dflt.add(x)
        todo += [y for y in f.get(x, [])]
    return sorted(alls), sorted(dflt), d.get("package", {}).get("edition", "2018")


def std_bitcode():
    """Bitcode of the precompiled std crates (embedded in the rlibs), extracted once per toolchain."""
    v = run(["rustc", "-vV"]) + tool("")
    d = os.path.join(BUILD, "std-" + hashlib.sha1(v.encode()).hexdigest()[:12])
    if os.path.exists(d + "/done"):
        return sorted(glob.glob(d + "/*.bc"))
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for l in ["std", "alloc", "core", "hashbrown", "memchr", "panic_abort"]:
        libs = glob.glob(rl("lib", "lib%s-*.rlib" % l))
        if not libs:
            raise BuildError("no rlib for " + l)
        x = os.path.join(tmp, "x_" + l)
        os.makedirs(x)
        run(["ar", "x", libs[0]], cwd=x)
        for i, o in enumerate(sorted(glob.glob(x + "/*.o"))):
            run([tool("llvm-objcopy"), "--dump-section=.llvmbc=%s/%s.%d.bc" % (tmp, l, i), o])
        shutil.rmtree(x)
    open(tmp + "/done", "w").write("ok")
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return sorted(glob.glob(d + "/*.bc"))


IRFLAGS = ["-C", "opt-level=2", "-C", "panic=abort", "-C", "debug-assertions=on", "-C", "overflow-checks=on",
           "-C", "codegen-units=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--cap-lints", "allow",
           "-C", "no-prepopulate-passes"]
DEV = ["-C", "opt-level=1", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "--cap-lints", "allow"]
REL = ["-C", "opt-level=3", "-C", "codegen-units=1", "--cap-lints", "allow"]


def cfgs(fs):
    o = []
    for f in fs:
        o += ["--cfg", 'feature="%s"' % f]
    return o


def rustc(args, cwd):
    return run(["rustc"] + args, cwd=cwd)


def compile_set(out, flags, emit_bc, kind):
    """textcode + crate (all features, default features, none, default and MIME alone) + harness into directory out."""
    os.makedirs(out, exist_ok=True)
    alls, dflt, edition = features()
    emit = ["--emit=link,llvm-bc"] if emit_bc else ["--emit=link"]
    lib = REPO + "/email-parser/src/lib.rs"

    def tc():
        rustc(["--edition", "2018", "--crate-type", "rlib", "--crate-name", "textcode", textcode_src(), "-C", "metadata=tc"] + flags + emit, out)

    def a():
        rustc(["--edition", edition, "--crate-type", "rlib", "--crate-name", "epa", lib, "-C", "metadata=epa", "--cfg", "email_parser_verif"] + cfgs(alls) +
              ["--extern", "textcode=libtextcode.rlib", "-L", "."] + flags + emit, out)

    def d():
        rustc(["--edition", edition, "--crate-type", "rlib", "--crate-name", "epd", lib, "-C", "metadata=epd", "--cfg", "email_parser_verif"] + cfgs(dflt) +
              ["-L", "."] + flags + emit, out)

    def n():
        rustc(["--edition", edition, "--crate-type", "rlib", "--crate-name", "epn", lib, "-C", "metadata=epn", "--cfg", "email_parser_verif"] + ["-L", "."] + flags + emit, out)

    def m():
        rustc(["--edition", edition, "--crate-type", "rlib", "--crate-name", "epm", lib, "-C", "metadata=epm", "--cfg", "email_parser_verif"] + cfgs(sorted(set(dflt + ["mime", "textcode"]))) +
              ["--extern", "textcode=libtextcode.rlib", "-L", "."] + flags + emit, out)

    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(d), ex.submit(n)]
        tc()
        fs += [ex.submit(a), ex.submit(m)]
        for f in fs:
            f.result()
    h = ["--edition", "2021", "-L", "."]
    for c in ("epa", "epd", "epn", "epm"):
        h += ["--extern", "%s=lib%s.rlib" % (c, c)]
    if emit_bc:
        rustc([VERIF + "/harness/src/lib.rs", "--crate-type", "lib", "--crate-name", "harness", "--emit=llvm-bc", "-o", "harness.bc"] + h + flags, out)
    else:
        rustc([VERIF + "/harness/src/lib.rs", "--crate-type", "bin", "--crate-name", "replay", "--cfg", "native", "-o", "replay"] + h + flags, out)


PANICS = re.compile(r"^define [^\n]*@\"?(_RN[A-Za-z0-9_$.]*4core9panicking(?:9panic_fmt|18panic_nounwind_fmt|19panic_cannot_unwind|18panic_no_alloc_fmt)[A-Za-z0-9_$.]*)\"?\(", re.M)


def stub_module(text):
    """Replace panic plumbing and random hashing by engine intrinsics in the pre-optimisation module."""
    out = []
    lines = text.split("\n")
    i = 0
    n = {"panic": 0, "hash": 0, "rand": 0}
    while i < len(lines):
        l = lines[i]
        if l.startswith("define "):
            m = re.search(r"@\"?([A-Za-z0-9_$.]+)\"?\(", l)
            name = m.group(1) if m else ""
            body = None
            if re.search(r"4core9panicking(9panic_fmt|18panic_nounwind_fmt)", name) :
                # (fmt::Arguments, [bool,] &Location)
                params = split_params(l[m.end():])
                loc = [p for p in params if p.startswith("ptr")][-1]
                reg = re.search(r"(%[A-Za-z0-9_.$\"]+)\s*$", loc)
                body = ["  call void @__sym_panic(ptr %s)" % reg.group(1), "  unreachable"]
                n["panic"] += 1
            elif re.search(r"RandomState.*BuildHasher8hash_one", name):
                # insertion order, or (hash mode) an order given by the keys: the value of a small integer, the length of a string
                ps = split_params(l[m.end():])[1:]
                regs = [re.search(r"(%[A-Za-z0-9_.$\"]+)\s*$", x).group(1) for x in ps]
                tys = [x.split()[0] for x in ps]
                body = ["  %hm = load i64, ptr @__sym_hash_mode"]
                if tys == ["ptr", "i64"]:
                    body.append("  %%hv = xor i64 %s, -1" % regs[1])
                elif re.search(r"hash_oneR*h", name) and tys == ["ptr"]:
                    body += ["  %%hb = load i8, ptr %s" % regs[0], "  %hc = zext i8 %hb to i64", "  %hv = xor i64 %hc, -1"]
                elif re.search(r"hash_oneR*INt.*3Cow", name) and tys == ["ptr"]:
                    body += ["  %%hp = getelementptr i8, ptr %s, i64 16" % regs[0], "  %hc = load i64, ptr %hp", "  %hv = xor i64 %hc, -1"]
                else:
                    body.append("  %hv = add i64 0, 0")
                body += ["  %hr = and i64 %hm, %hv", "  ret i64 %hr"]
                n["hash"] += 1
            elif re.search(r"3std9panicking|3std12backtrace|3std9backtrace|18handle_alloc_error|5alloc5alloc18handle_alloc|3std3sys.*abort|3std7process5abort|3rt12abort", name):
                body = ["  call void @__sym_panic(ptr null)", "  unreachable"]
            elif name in ("rust_eh_personality", "__rust_start_panic", "__rust_panic_cleanup"):
                j = i
                while lines[j] != "}":
                    j += 1
                out.append("declare i32 @%s(...)" % name)
                i = j + 1
                continue
            elif re.search(r"hashmap_random_keys", name):
                body = ["  ret { i64, i64 } zeroinitializer"] if "{ i64, i64 }" in l.split("@")[0] else None
                n["rand"] += 1
            if body is not None:
                j = i
                while lines[j] != "}":
                    j += 1
                # strip attributes such as personality
                hdr = re.sub(r" personality ptr @[A-Za-z0-9_$.]+", "", l)
                out.append(hdr)
                out.append("start:")
                out += body
                out.append("}")
                i = j + 1
                continue
        out.append(l)
        i += 1
    out.append("declare void @__sym_panic(ptr) noreturn nounwind")
    out = [l for l in out if not l.startswith("@__sym_hash_mode =")] + ["@__sym_hash_mode = internal global i64 0"]
    return "\n".join(out), n


def split_params(s):
    depth, cur, res = 0, "", []
    for ch in s:
        if ch in "([{<":
            depth += 1
        if ch in ")]}>":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            res.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        res.append(cur.strip())
    return res


def build_ir(out, entries):
    t0 = time.time()
    compile_set(out, IRFLAGS, True, "ir")
    t1 = time.time()
    bcs = [os.path.join(out, x) for x in ["harness.bc", "epa.bc", "epd.bc", "epn.bc", "epm.bc", "textcode.bc"]]
    run([tool("llvm-link"), *bcs, *std_bitcode(), "-o", "all.bc"], cwd=out)
    run([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), "all.bc", "-S", "-o", "pre.ll"], cwd=out)
    text, n = stub_module(open(os.path.join(out, "pre.ll")).read())
    open(os.path.join(out, "stub.ll"), "w").write(text)
    run([tool("opt"), "-passes=globaldce,function(lower-atomic),default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-threshold=3000", "stub.ll", "-S", "-o", "mod.ll"], cwd=out)
    t2 = time.time()
    return os.path.join(out, "mod.ll"), {"compile_s": round(t1 - t0, 2), "link_opt_s": round(t2 - t1, 2), "stubs": n}
