#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup           build the symbolic executor and the dependencies
  run.py check C01       decide a property on /repo's working tree
  run.py replay FILE     run a saved counterexample against the real code
  run.py list            the properties and their entry points
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(V, "target")
HARNESS = os.path.join(V, "harness")
REPLAY = os.path.join(V, "replay")
SYMX = os.path.join(TARGET, "symx", "release", "symx")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
MAX_ALLOC = 1 << 20
T0 = time.time()


class Trouble(Exception):
    """The check could not give an answer (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(rustflags, target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target,
             RUSTFLAGS=rustflags, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


def cargo(cwd, features, rustflags, target):
    cmd = ["cargo", "build", "--release", "--offline", "--locked"]
    if features:
        cmd += ["--features", features]
    p = subprocess.run(cmd, cwd=cwd, env=env(rustflags, target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        err = "\n".join(l for l in p.stdout.splitlines() if not l.startswith("warning"))
        raise Trouble("build of %s failed:\n%s" % (cwd, err[-4000:]))


def build_symx():
    cargo(os.path.join(V, "symx"), None, "", os.path.join(TARGET, "symx"))


def forget(target, names):
    """Makes cargo rebuild these crates whatever the time stamps say."""
    for n in names:
        for d in glob.glob(os.path.join(target, "release", ".fingerprint", n + "-*")):
            shutil.rmtree(d, ignore_errors=True)


SYM_FLAGS = "-C save-temps -C no-vectorize-loops -C no-vectorize-slp --cfg indexer_verif_map"


def build_symbolic(feature, out):
    t = os.path.join(TARGET, "sym")
    forget(t, ["harness", "indexer"])
    for f in glob.glob(os.path.join(t, "release", "deps", "harness.*")) + glob.glob(os.path.join(t, "release", "deps", "indexer_lib.*")):
        os.unlink(f)
    cargo(HARNESS, feature, SYM_FLAGS, t)
    bc = glob.glob(os.path.join(t, "release", "deps", "harness.harness.*-cgu.0.rcgu.bc"))
    if len(bc) != 1:
        raise Trouble("expected one linked module, found %s" % bc)
    root = subprocess.run(["rustc", "--print", "sysroot"], env=env("", t), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    dis = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")
    subprocess.run([dis, bc[0], "-o", out], check=True)
    for f in glob.glob(os.path.join(t, "release", "deps", "*.rcgu.*")) + glob.glob(os.path.join(t, "release", "deps", "*.rcgu.o")):
        try:
            os.unlink(f)
        except OSError:
            pass


def build_native(feature, out):
    t = os.path.join(TARGET, "native")
    forget(t, ["replay", "indexer"])
    cargo(REPLAY, feature, "", t)
    shutil.copy2(os.path.join(t, "release", "replay"), out)


def both(fs):
    errs = []

    def go(f):
        try:
            f()
        except Exception as e:  # noqa
            errs.append(e)
    ts = [threading.Thread(target=go, args=(f,)) for f in fs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


def module(prop):
    """Entry points, per-entry options, claims and required situations, from the harness source."""
    path = os.path.join(HARNESS, "src", prop.lower() + ".rs")
    text = open(path).read()
    body = "\n".join(l for l in text.splitlines() if not l.strip().startswith("//"))
    entries = re.findall(r"\bfn (%s_\w+)\(\)" % prop.lower(), body)
    opts, bounds, outside = {}, [], []
    for m in re.finditer(r"^\s*//@ (\S+) (.*)$", text, re.M):
        opts[m.group(1)] = m.group(2).split()
    for m in re.finditer(r"^//! bound: (.*)$", text, re.M):
        bounds.append(m.group(1))
    for m in re.finditer(r"^//! outside: (.*)$", text, re.M):
        outside.append(m.group(1))
    covers = set(re.findall(r'\bcover\("([^"]*)"\)', body))
    # a situation only the thorough tier reaches is written cover("... (thorough)")
    if TIER != "thorough":
        entries = [e for e in entries if not e.endswith("_thorough")]
        covers = {c for c in covers if not c.endswith("(thorough)")}
    return entries, opts, bounds, outside, covers


def replay_native(binary, lines, timeout, limit=MAX_ALLOC):
    """[(status, detail)] for the lines, as far as it got."""
    f = os.path.join(TARGET, "tape-%d.txt" % os.getpid())
    open(f, "w").write("".join("%s %d %s\n" % (e, r, ",".join(str(v) for v in t)) for e, r, t in lines))
    try:
        p = subprocess.run([binary, f, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=TARGET)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace"), "timeout"
    finally:
        os.unlink(f)
    res = []
    for l in out.splitlines():
        if "\x01" in l:
            l = l[l.index("\x01") + 1:]
        if l.startswith(("OK", "FAIL", "TAPE")):
            s, _, d = l.partition(" ")
            res.append((s, d))
    if rc == "timeout" and len(res) < len(lines):
        res.append(("FAIL", "does not terminate (stopped after %d s)" % timeout))
    elif rc not in (0, 1) and len(res) < len(lines) and not (res and res[-1][0] == "FAIL"):
        res.append(("FAIL", "process ended with %s" % rc))
    return res


def cross_check(samples, budget):
    """Puts sampled queries to cvc5 and a newer z3; disagreement is trouble."""
    n, t0, who = 0, time.time(), {"cvc5": 0, "z3-new": 0}
    for sat, text in samples:
        if time.time() - t0 > budget:
            break
        for tool, cmd in (("cvc5", ["cvc5", "--lang", "smt2", "--tlimit=5000"]), ("z3-new", ["z3-new", "-in", "-T:5"])):
            try:
                p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=10)
            except (subprocess.TimeoutExpired, FileNotFoundError):
                continue
            a = p.stdout.strip().splitlines()
            if not a or a[0] not in ("sat", "unsat") or "(error" in p.stdout:
                continue
            if (a[0] == "sat") != sat:
                raise Trouble("%s says %s where z3 said %s" % (tool, a[0], "sat" if sat else "unsat"))
            who[tool] += 1
        n += 1
    return who


def known():
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) message=\"(.*?)\"(?: when=\"(.*?)\")? (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop):
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    entries, opts, bounds, outside, need = module(prop)
    feature = prop.lower()
    ll = os.path.join(TARGET, feature + ".ll")
    binary = os.path.join(TARGET, "replay-" + feature)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    both([build_symx, lambda: build_symbolic(feature, ll), lambda: build_native(feature, binary)])
    fcntl.flock(lock, fcntl.LOCK_UN)
    built = time.time() - T0
    log("%s: built in %.1f s" % (prop, built))

    docs, viol = [], []
    groups = {}
    for e in entries:
        groups.setdefault(tuple(opts.get(e, [])), []).append(e)
    limit = 660 if TIER != "thorough" else 6 * 3600
    for o, es in groups.items():
        left = max(30, limit - (time.time() - T0))
        out = os.path.join(TARGET, feature + ".json")
        cmd = [SYMX, ll] + es + ["--out", out, "--seed", str(SEED), "--threads", str(os.cpu_count() or 8),
               "--timeout", str(int(left)), "--first", "90" if TIER != "thorough" else "3600", "--max-alloc", str(MAX_ALLOC),
               "--sample", "60" if TIER != "thorough" else "400",
               "--audit", "0.1" if TIER != "thorough" else "0.5", "--smt-every", "97" if TIER != "thorough" else "41"] + list(o)
        p = subprocess.run(cmd, stderr=subprocess.PIPE, text=True)
        log(p.stderr.rstrip())
        if p.returncode not in (0, 1, 2):
            raise Trouble("symbolic executor ended with %d:\n%s" % (p.returncode, p.stderr[-2000:]))
        d = json.load(open(out))
        docs += d["entries"]
        os.unlink(out)
    z3v = d["z3"]
    if not os.environ.get("KEEP_IR"):
        os.unlink(ll)

    # Counterexamples are replayed against the real code before they are reported.
    findings, unconfirmed = [], []
    tr = time.time()
    for d in docs:
        for v in d["violations"][:4]:
            if findings and (len(findings) >= 5 or time.time() - tr > 60 or time.time() - T0 > 800):
                break
            tape = [x[1] for x in v["tape"]]
            r = replay_native(binary, [(d["entry"], 1 if v["kind"] == "nontermination" else 400, tape)], 60)
            if r and r[0][0] == "FAIL":
                findings.append(dict(property=prop, entry=d["entry"], tape=v["tape"], symbolic="%s: %s" % (v["kind"], v["message"]), at=v["at"], native=r[0][1], kind=v["kind"], message=v["message"]))
            else:
                unconfirmed.append((d["entry"], v, r))

    # The sampled paths are run natively and compared with the prediction.
    validated, mismatches = 0, []
    for d in docs:
        todo = d["paths"] if not findings else []
        while todo and not any(f["kind"] == "native" for f in findings):
            res = replay_native(binary, [(d["entry"], 1, [x[1] for x in p["tape"]]) for p in todo], 120)
            done = 0
            for p, (s, detail) in zip(todo, res):
                done += 1
                if s == "OK":
                    got = [int(x) for x in detail.split(",") if x]
                    if got == p["observed"]:
                        validated += 1
                    else:
                        mismatches.append((d["entry"], p["tape"], p["observed"], got))
                elif s == "FAIL":
                    findings.append(dict(property=prop, entry=d["entry"], tape=p["tape"], symbolic="(path sampled for validation)", at=[], native=detail, kind="native", message=detail))
                    break
                else:
                    mismatches.append((d["entry"], p["tape"], s, detail))
            if not res or any(f["kind"] == "native" for f in findings):
                break
            todo = todo[done:]

    errors = [(d["entry"], e) for d in docs for e in d["errors"]]
    covers = {}
    for d in docs:
        for k, n in d["covers"].items():
            covers[k] = covers.get(k, 0) + n
    missing = sorted(need - set(covers))
    smt = [(s["sat"], s["smt2"]) for d in docs for s in d.get("smt", [])]
    smt = smt[:: max(1, len(smt) // (24 if TIER != "thorough" else 400))]
    crossed = {} if findings else cross_check(smt, 20 if TIER != "thorough" else 1200)

    lines = {}
    for d in docs:
        for c in d["repo_code"]:
            f = c["file"][c["file"].index("/repo/") + 6:] if "/repo/" in c["file"] else c["file"]
            lines.setdefault(f, {}).setdefault(c["function"], set()).update(c["lines"])
    tot = lambda k: sum(d[k] for d in docs)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths_completed") + tot("paths_assumed_away") + tot("forks"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": d["entry"], "input": p["tape"], "observed": p["observed"], "instructions": p["instructions"]} for d in docs for p in d["paths"][:2]][:12],
            "explanation": "symbolic execution of the LLVM IR of the linked library; states = ends of symbolic paths + forks, transitions = IR instructions executed, each over all values of the symbolic inputs on its path",
            "entries": [{k: d[k] for k in ("entry", "paths_completed", "paths_assumed_away", "forks", "instructions", "symbolic_branches", "implied_branches", "implied_confirmed_by_solver", "paths_with_implied_confirmed", "models_by_propagation", "symbolic_inputs", "max_forks_on_path", "asserts", "asserts_symbolic", "queries", "queries_sat", "queries_unsat", "solver_s", "wall_s", "covers")} for d in docs],
            "queries_discharged": tot("queries"), "queries_unsat": tot("queries_unsat"), "solver_s": round(tot("solver_s"), 3),
            "solver": z3v, "queries_cross_checked": crossed,
            "functions_encoded": sorted("%s: %s (%d lines)" % (f, n, len(ls)) for f, fns in lines.items() for n, ls in fns.items()),
            "bounds": bounds, "outside_the_claim": outside,
            "exhaustive_within_bounds": not errors and not findings and not unconfirmed,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(findings),
    }
    if need:
        ev["coverage"]["situations_reached"] = {k: covers.get(k, 0) for k in sorted(need)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    # Outcome
    bad = 0
    kf = known()
    seen = set()
    for f in findings:
        k = next((k for k in kf if k[0] == prop and k[1] == f["entry"] and k[2] in f["native"]), None)
        if k:
            line = "KNOWN-FINDING: property=%s %s" % (prop, k[4])
            if line not in seen:
                print(line)
            seen.add(line)
            continue
        bad += 1
        if bad > 5:
            continue
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "%s-%d.json" % (prop, bad))
        json.dump(f, open(path, "w"), indent=1)
        print("%s: %s [%s] symbolically: %s; natively: %s" % (prop, f["entry"], "->".join(f["at"][:3]), f["symbolic"], f["native"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if bad:
        return 1
    if unconfirmed:
        raise Trouble("counterexample not confirmed by the real code: %s" % (unconfirmed[:2],))
    if errors:
        raise Trouble("not everything could be executed: %s" % (errors[:3],))
    if mismatches:
        raise Trouble("prediction and real code differ: %s" % (mismatches[:2],))
    if missing:
        raise Trouble("the check never reached: %s" % missing)
    if not validated:
        raise Trouble("no path validated")
    print("%s holds within its bounds: %d paths, %d queries (%d unsat, %.1f s of solver), %d traces validated natively, %.0f s" % (
        prop, tot("paths_completed"), tot("queries"), tot("queries_unsat"), tot("solver_s"), validated, time.time() - T0))
    return 0


ASSUMPTIONS = [
    "rustc and LLVM translate the library the same way in the symbolic build (opt-level 1, overflow checks, panic=abort, x86-64) as in the builds users run; wasm32 is not encoded",
    "symx (in /verif/symx) implements LLVM IR semantics; sampled paths are compared with native runs on every run",
    "z3 answers correctly; sampled queries are cross-checked with cvc5 and a newer z3",
    "the hash function is a constant one in the symbolic build (a legitimate hash function); wasm-bindgen/js-sys are stand-ins with JavaScript's value semantics",
    "allocation below 1 MiB per request always succeeds",
]


def setup():
    os.makedirs(TARGET, exist_ok=True)
    both([build_symx,
          lambda: cargo(HARNESS, None, SYM_FLAGS, os.path.join(TARGET, "sym")),
          lambda: cargo(REPLAY, None, "", os.path.join(TARGET, "native"))])
    return 0


def replay(path):
    f = json.load(open(path))
    feature = f["property"].lower()
    os.makedirs(TARGET, exist_ok=True)
    binary = os.path.join(TARGET, "replay-" + feature)
    build_native(feature, binary)
    r = replay_native(binary, [(f["entry"], 400, [x[1] for x in f["tape"]])], 60)
    print(r)
    return 1 if r and r[0][0] == "FAIL" else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            return setup()
        if a[:1] == ["check"] and len(a) == 2:
            return check(a[1])
        if a[:1] == ["replay"] and len(a) == 2:
            return replay(a[1])
        if a[:1] == ["list"]:
            for f in sorted(glob.glob(os.path.join(HARNESS, "src", "c??.rs"))):
                p = os.path.basename(f)[:3].upper()
                print(p, " ".join(module(p)[0]))
            return 0
    except Trouble as e:
        print("NO ANSWER: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
