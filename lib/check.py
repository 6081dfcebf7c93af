#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property of email-parser by symbolic execution of its compiled code.

 1. compile /repo's current source (all features and default features), its dependency and the harness to LLVM IR, link
    them with the standard library's bitcode and optimise (pipeline.py); compile the same sources natively (debug-like
    and release) for replay;
 2. run the symbolic executor (engine/, z3) over the property's input templates: every value of every symbolic byte is
    decided, path by path;
 3. replay a sample of the explored paths against the native builds (same output required);
 4. replay every counterexample natively; only a confirmed one is reported as a violation.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline as P
import templates as T
import known as K

VERIF = P.VERIF
BUILD = P.BUILD
ENGINE = os.path.join(BUILD, "engine", "release", "symex")
ENTRIES = ["e%02d" % i for i in range(1, 28) if i not in (25, 26)] + ["e01d", "e13m", "e14m", "e26b", "e26q", "e27h", "e27s", "e27b", "e28", "e29", "e23n", "e23m"]
IDS = {64: "entity result", 65: "number of parts", 90: "base64 result", 91: "quoted-printable result", 92: "string is UTF-8", 93: "no raw control characters",
       94: "borrowed string lies in the input", 95: "copied string appears contiguously in the input", 130: "both configurations agree on acceptance", 160: "TryFrom agrees", 161: "borrowed positions agree", 162: "hash map order does not matter", 163: "earlier parses do not matter",
       186: "copy equals the original", 187: "composite types", 188: "owned value equals the original", 189: "owned value does not borrow"}
SECS = ["status", "date", "addresses", "sender", "ids", "text headers", "keywords/MIME version/encoding", "trace", "unknown headers", "recognised headers",
        "content type", "disposition", "description", "content id", "decoded value", "body"]


def describe(i):
    for base, n in ((110, "configurations differ: "), (170, "copy differs: "), (140, "second parse differs: "), (70, "part: "), (32, "default features: "), (0, "")):
        if i in IDS:
            return IDS[i]
        if base <= i < base + 16:
            return n + SECS[i - base]
    return "encoder check %d" % (i - 96) if 96 <= i < 110 else "assertion %d" % i


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def files(root, *pats):
    r = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        r += [os.path.join(d, f) for f in fs if any(f.endswith(p) for p in pats)]
    return r


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_engine():
    with Lock("engine"):
        P.run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], cwd=os.path.join(VERIF, "engine"))


def build_code():
    """Everything that depends on /repo's sources, cached by their content."""
    src = files(os.path.join(P.REPO, "email-parser", "src"), ".rs") + [os.path.join(P.REPO, "email-parser", "Cargo.toml")]
    src += files(os.path.join(VERIF, "harness", "src"), ".rs") + files(os.path.dirname(P.textcode_src()), ".rs")
    src += [os.path.join(VERIF, "lib", "pipeline.py")]
    key = sha(src, P.run(["rustc", "-vV"]) + " ".join(ENTRIES))
    d = os.path.join(BUILD, "code", key)
    with Lock("code"):
        if os.path.exists(d + "/info.json"):
            os.utime(d)
            return d, json.load(open(d + "/info.json"))
        shutil.rmtree(d, ignore_errors=True)
        old = sorted(glob.glob(os.path.join(BUILD, "code", "*")), key=os.path.getmtime)
        for o in old[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        with cf.ThreadPoolExecutor(3) as ex:
            a = ex.submit(P.build_ir, d + "/ir", ENTRIES)
            b = ex.submit(P.compile_set, d + "/dev", P.DEV, False, "n")
            c = ex.submit(P.compile_set, d + "/rel", P.REL, False, "n")
            err = None
            for f in (a, b, c):
                try:
                    f.result()
                except P.BuildError as x:
                    err = err or x
            if err:
                raise err
            _, info = a.result()
        for p in glob.glob(d + "/ir/*"):
            if not p.endswith("mod.ll"):
                os.unlink(p)
        json.dump(info, open(d + "/info.json", "w"))
        return d, info


def native(d, prof):
    return os.path.join(d, prof, "replay")


def replay(binary, lines, timeout, stack=None):
    """Run the native harness; returns (results, how it ended). One result (hash, panicked, failed ids) per completed line."""
    with tempfile.NamedTemporaryFile("w", suffix=".replay", delete=False) as f:
        f.write("".join(l + "\n" for l in lines))

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        if stack:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))
    try:
        try:
            r = subprocess.run([binary, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre)
            out, err, end = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, err, end = x.stdout or b"", x.stderr or b"", "timeout"
    finally:
        os.unlink(f.name)
    res = []
    for l in out.decode(errors="replace").split("\n"):
        m = re.match(r"^([0-9a-f]{16}) ([01]) ([0-9,]*)$", l)
        if m:
            res.append((m.group(1), m.group(2) == "1", [int(x) for x in m.group(3).split(",") if x]))
    return res, end, err.decode(errors="replace")[-1500:]


def amplify(data, n):
    """Repeat the long runs of the input n times: a recursion that follows them gets as deep."""
    out, i = bytearray(), 0
    for m in re.finditer(rb"(?s)(.{1,90}?)\1{29,}", data):
        out += data[i:m.start()]
        out += m.group(1) * n
        i = m.end()
    out = bytes(out + data[i:])
    # a run of numbered constructs: number more of them
    num = [m for m in re.finditer(rb"1[0-9]{4}", data)]
    num = [a for a, b in zip(num, num[1:]) if int(b.group()) == int(a.group()) + 1]
    if len(num) > 29:
        a, b = num[0], num[-1]
        sep = data[a.end():num[1].start()]
        out = data[:a.start()] + sep.join(b"%d" % k for k in range(100000, 100000 + n)) + data[b.end():]
    return out


def confirm(d, entry, v):
    """Show a violation against the native builds; returns (line, text) or None."""
    if entry == "e29" and v["what"] in ("cost", "hang"):
        return confirm_growth(d, entry, v)
    line = "%s\t%s" % (entry, v["input"])
    for prof in ("dev", "rel"):
        res, end, err = replay(native(d, prof), [line], 60)
        if end == "timeout":
            return line, "%s build: does not return within 60 s" % prof
        if not res:
            return line, "%s build: process died (%s) %s" % (prof, end, err.strip()[-300:])
        if res[0][1]:
            return line, "%s build: panic %s" % (prof, err.strip()[-300:])
        if res[0][2]:
            return line, "%s build: fails: %s" % (prof, ", ".join(describe(i) for i in res[0][2]))
    if v["what"] == "stack":
        for n, lim in ((20000, None), (100000, None)):
            data = amplify(bytes.fromhex(v["input"]), n)
            l2 = "%s\t%s" % (entry, data.hex())
            for prof in ("dev", "rel"):
                res, end, err = replay(native(d, prof), [l2], 120, lim)
                if not res and end != "timeout":
                    return l2, "%s build: stack exhausted (%s) %s" % (prof, end, err.strip()[-200:])
    if v["what"] in ("memory", "unreachable", "trap"):
        asan = os.path.join(d, "asan")
        if not os.path.exists(asan + "/replay"):
            tc = P.TOOLCHAIN
            try:
                P.TOOLCHAIN = "nightly"
                P.compile_set(asan, ["-Zsanitizer=address", "-C", "opt-level=1", "--cap-lints", "allow"], False, "n")
            except P.BuildError as x:
                print("note: no address-sanitizer build: %s" % str(x)[-300:])
                return None
            finally:
                P.TOOLCHAIN = tc
        with tempfile.TemporaryDirectory() as td:
            f = os.path.join(td, "in")
            open(f, "w").write(line + "\n")
            r = subprocess.run([asan + "/replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            if r.returncode != 0:
                m = re.search(r"ERROR: AddressSanitizer[^\n]*", r.stdout)
                return line, "address sanitizer: " + (m.group(0) if m else r.stdout[-300:])
    return None


def growth(done):
    """Pairs of templates that differ only in size, the second twice as long: the work may at most double (plus slack)."""
    by = {}
    for x in done:
        if x["name"].startswith("cost:"):
            n, k = x["name"].rsplit("@", 1)
            by.setdefault(n, []).append((int(k), x))
    out = []
    for n, l in sorted(by.items()):
        if len(l) == 2:
            (_, a), (_, b) = sorted(l, key=lambda y: y[0])
            if b["maxsteps"] > 2.15 * a["maxsteps"] + 50000:
                out.append((b, {"what": "cost", "where": "%d instructions for one size, %d for twice the size" % (a["maxsteps"], b["maxsteps"]), "input": b["maxinput"], "count": 1}))
    return out


def cpu(binary, line, limit):
    """CPU seconds of one native run (None: killed by the limit)."""
    with tempfile.NamedTemporaryFile("w", suffix=".replay", delete=False) as f:
        f.write(line + "\n")
    try:
        p = subprocess.Popen([binary, f.name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (limit, limit)))
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = st
        return None if os.WIFSIGNALED(st) else ru.ru_utime + ru.ru_stime
    finally:
        os.unlink(f.name)


def confirm_growth(d, entry, v):
    """Scale the repeated parts of the input until the run is long enough to time: linear work grows like the input."""
    data = bytes.fromhex(v["input"])
    last = None
    for n in (500, 2000, 8000, 32000, 128000, 512000):
        x = amplify(data, n)
        if len(x) > 24 << 20:
            break
        line = "%s\t%s" % (entry, x.hex())
        t = cpu(native(d, "rel"), line, 40)
        if t is None or (last and last[0] > 0.2 and t > 2.2 * last[0] * len(x) / last[1]):
            if t is None and not last:
                return line, "release build: more than 40 s of CPU for %d bytes" % len(x)
            if t is None and 40 < 2.2 * last[0] * len(x) / last[1]:
                break
            return line, "release build: %.2f s of CPU for %d bytes, %s for %d bytes" % (last[0], last[1], "%.2f s" % t if t is not None else "more than 40 s", len(x))
        last = (t, len(x))
    return None


BP = b"From:a@b\r\nDate:1 Jan 2000 00:00 +0000\r\n"


def findings(prop, d):
    """Replay the recorded findings of this property; prints the ones that still fail."""
    n = 0
    for k in K.load():
        if k["property"] != prop:
            continue
        lines = ["e16\t" + (BP + b"Content-Type:text/plain;charset=" + k["charset"].encode() + b"\r\n\r\n" + bytes(p)).hex() for p in sorted(k["pairs"])]
        res, end, err = replay(native(d, "dev"), lines, 300)
        bad = sum(1 for r in res if r[1] or r[2]) + (len(lines) - len(res))
        n += len(lines)
        if bad:
            print("KNOWN-FINDING: property=%s %s: %s (%d of %d recorded inputs fail)" % (prop, k["id"], k["what"], bad, len(lines)))
    return n


def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "--setup":
        build_engine()
        build_code()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    limit = float(os.environ.get("SYMEX_SECONDS", "560" if tier == "quick" else "6000"))
    threads = int(os.environ.get("SYMEX_THREADS", str(os.cpu_count() or 4)))
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            fe = ex.submit(build_engine)
            fc = ex.submit(build_code)
            fe.result()
            d, info = fc.result()
    except P.BuildError as x:
        print("ERROR build: %s" % x)
        return 2
    tb = time.time() - t0
    ts = T.templates(prop, tier)
    if tier == "quick":
        limit = min(limit, max(120.0, 700 - tb))
    work = tempfile.mkdtemp(prefix="symex-%s-" % prop)
    try:
        tf, of = os.path.join(work, "t"), os.path.join(work, "o")
        open(tf, "w").write("\n".join(ts) + "\n")
        t1 = time.time()
        r = subprocess.run([ENGINE, d + "/ir/mod.ll", tf, of, str(threads), str(limit), "3", "stop=6"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        ts_s = time.time() - t1
        recs = []
        if os.path.exists(of):
            for l in open(of):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
    finally:
        shutil.rmtree(work, ignore_errors=True)
    mods = [x for x in recs if x["kind"] == "module"]
    tpl = [x for x in recs if x["kind"] == "template"]
    funcs = [x for x in recs if x["kind"] == "func"]
    ended = any(x["kind"] == "end" and not x["crashed"] for x in recs)
    errors = ["%s: %s" % (x["name"], x["error"]) for x in tpl if x["error"]]
    if mods and mods[0]["unknown"]:
        print("note: external functions without a model (an error if reached): %s" % ", ".join(mods[0]["unknown"][:10]))
    if not ended:
        errors.append("executor ended abnormally (%s): %s" % (r.returncode, r.stderr[-600:]))
    late = [x["name"] for x in tpl if x["timeout"]]
    done = [x for x in tpl if not x["timeout"] and not x["error"]]
    viol = [(x, v) for x in tpl for v in x["violations"]]
    if prop == "C29":
        viol += growth(done)

    # replay a sample of the explored paths natively
    samp = []
    for x in done:
        for h, hs in x["samples"]:
            samp.append((x["entry"], h, hs, x["name"]))
    validated, mismatch, native_viol = 0, [], None
    for prof in ("dev", "rel"):
        todo = list(samp)
        while todo:
            res, end, err = replay(native(d, prof), ["%s\t%s" % (s[0], s[1]) for s in todo], 600)
            for s, q in zip(todo, res):
                if q[1] or q[2]:
                    # the real code fails where the encoding did not: still a concrete failure of the real code
                    native_viol = native_viol or ("%s\t%s" % (s[0], s[1]), "%s build: %s" % (prof, "panic" if q[1] else ", ".join(describe(i) for i in q[2])))
                elif q[0] != s[2]:
                    mismatch.append((prof, s))
                else:
                    validated += 1
            if len(res) < len(todo):
                s = todo[len(res)]
                native_viol = native_viol or ("%s\t%s" % (s[0], s[1]), "%s build: ended with %s %s" % (prof, end, err[-300:]))
                todo = todo[len(res) + 1:]
            else:
                todo = []

    status, report = 0, None
    unconfirmed = []
    # one candidate of every kind and place first
    viol.sort(key=lambda xv: (xv[1]["what"] == "hang", len(xv[1]["input"])))
    tried = {}
    for x, v in viol:
        k = (v["what"], v["where"])
        if tried.get(k, 0) >= 3:
            continue
        tried[k] = tried.get(k, 0) + 1
        c = confirm(d, x["entry"], v)
        if c:
            report = c + ("template %s: %s %s" % (x["name"], v["what"], describe(int(v["where"])) if v["what"] == "assert" and v["where"].isdigit() else v["where"]),)
            break
        if v["what"] == "cost" or (prop == "C29" and v["what"] == "hang"):
            # the work grows in proportion after all (a larger constant, or an effect of the encoding such as the constant hasher)
            print("note: %s: %s; the native build's time grows in proportion" % (x["name"], v["where"]))
            continue
        unconfirmed.append("%s: %s %s input=%s" % (x["name"], v["what"], v["where"], v["input"][:400]))
    if not report and native_viol:
        report = native_viol + ("replay of an explored path",)
    nk = 0 if report else findings(prop, d)
    tot = lambda k: sum(x[k] for x in tpl)
    covers = {}
    for x in tpl:
        for a, b in x["covers"].items():
            covers[a] = covers.get(a, 0) + b
    crate = [f for f in funcs if re.search(r"(epa|epd|textcode)", f["name"])]
    sam = []
    step = max(1, len(done) // 8)
    for x in done[::step][:8]:
        sam.append({"template": x["name"], "entry": x["entry"], "symbolic_bytes": template_vars(ts, x["name"]), "paths": x["paths"], "queries": x["queries"],
                    "example_input": repr(bytes.fromhex(x["samples"][0][0]))[:300] if x["samples"] else None})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instrs"),
            "traces_validated_against_impl": validated,
            "samples": sam,
            "rule": "states = complete symbolic paths (each stands for every input value that follows it), transitions = IR instructions executed symbolically, "
                    "traces_validated = witness inputs of explored paths whose native debug and release runs gave the identical result log",
            "templates": len(ts), "templates_decided": len(done), "templates_not_finished": late[:50],
            "branch_forks_decided_by_solver": tot("forks"), "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"),
            "queries_answered_from_cache": tot("cached"), "solver_seconds": round(tot("solver_us") / 1e6, 3),
            "assertions_evaluated": tot("asserts"), "assertions_with_symbolic_condition": tot("sym_asserts"),
            "functions_encoded": len(funcs), "crate_functions_encoded": len(crate),
            "crate_functions": sorted(demangle(f["name"]) for f in crate)[:400],
            "crate_branch_edges": sum(f["edges"] for f in crate), "crate_branch_edges_hit": sum(f["hit"] for f in crate),
            "bounds": {"max_symbolic_bytes": max([template_vars_line(l) for l in ts] or [0]), "max_input_bytes": max([template_len(l) for l in ts] or [0]),
                       "max_instructions_per_path": max([int(l.split("\t")[2]) for l in ts] or [0]), "max_call_depth": max([int(l.split("\t")[3]) for l in ts] or [0]),
                       "deepest_path_instructions": max([x["maxsteps"] for x in tpl] or [0]), "deepest_call_stack": max([x["maxdepth"] for x in tpl] or [0])},
            "cover_points": covers,
            "known_finding_inputs_replayed": nk,
            "encoding": info, "build_s": round(tb, 2), "executor_s": round(ts_s, 2),
        },
        "assumptions": [
            "inputs are the templates of lib/templates.py with every value of their symbolic bytes; other inputs are outside the bounds",
            "the optimised LLVM IR of rustc is the code (checked against native debug and release runs on the witnesses)",
            "HashMap's hasher is replaced by a constant; panics end the path; allocation never fails",
            "the executor (engine/), z3 4.8.12 and the reference model (harness/src/model.rs) are trusted",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if report else 0,
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    print("%s %s: %d templates (%d decided), %d paths, %d instructions, %d solver queries (%.1f s), %d witnesses validated, build %.1f s, executor %.1f s" % (
        prop, tier, len(ts), len(done), tot("paths"), tot("instrs"), tot("queries"), tot("solver_us") / 1e6, validated, tb, ts_s))
    if report:
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % prop)
        open(rp, "w").write(report[0] + "\n")
        e, h = report[0].split("\t")
        print("input (%s): %s" % (e, repr(bytes.fromhex(h))[:1500]))
        print("%s; %s" % (report[2], report[1]))
        print("replay with: %s %s" % (native(d, "dev"), rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    for u in unconfirmed[:10]:
        print("UNCONFIRMED %s" % u)
    for p, s in mismatch[:5]:
        print("MISMATCH %s build, template %s: %s\t%s" % (p, s[3], s[0], s[1]))
    for e in errors[:10]:
        print("ERROR %s" % e)
    if late:
        print("note: %d templates not decided within %.0f s: %s" % (len(late), limit, ", ".join(late[:8])))
    if errors or unconfirmed or mismatch or len(done) * 2 < len(ts):
        return 2
    return 0


def template_vars_line(l):
    return len(set(s.split(":")[0] for s in l.split("\t")[4].split(" ") if s.startswith("v")))


def template_len(l):
    n = 0
    for s in l.split("\t")[4].split(" "):
        if s.startswith("x"):
            n += (len(s) - 1) // 2
        elif s.startswith("v"):
            n += 1
        elif s.startswith("r"):
            k, h = s[1:].split(":")
            n += int(k) * len(h) // 2
    return n


def template_vars(ts, name):
    for l in ts:
        if l.split("\t")[0] == name:
            return template_vars_line(l)


def demangle(n):
    parts, i = [], 0
    m = re.match(r"_RN?[A-Za-z]*", n)
    for k in re.finditer(r"(?<![0-9])([0-9]+)_?([A-Za-z_][A-Za-z0-9_]*)", n):
        ln = int(k.group(1))
        parts.append(k.group(2)[:ln])
    return "::".join(parts)[:120] or n[:120]


if __name__ == "__main__":
    sys.exit(main())
