#!/usr/bin/env python3
"""Runner of the checks: builds everything from /repo's working tree, executes the harnesses symbolically,
replays witnesses and counterexamples on the compiled code, writes the evidence file.

  check.py <ID> [--tier quick|thorough]     one property
  check.py --setup                          build the symbolic executor and warm the build folder
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import props

REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
H = os.path.join(VERIF, "harness", "h")
G = os.path.join(VERIF, "harness", "g")  # harnesses that run the generator


def crate(b):
    return G if os.path.exists(os.path.join(G, "src", "bin", b + ".rs")) else H

SYMEX_DIR = os.path.join(VERIF, "symex")
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        del ENV[k]
ENV.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUST_BACKTRACE="0", RUSTFLAGS="-Awarnings")


class Err(Exception):
    """The check cannot give an answer."""


class Broken(Exception):
    """A violation shown by the build itself."""


# Explorations that are running, and whether a confirmed violation has made them pointless.
RUNNING, STOP, GATE = set(), threading.Event(), threading.Lock()


def little():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, cwd, timeout, env=None, stoppable=False, pre=None):
    with GATE:
        if stoppable and STOP.is_set():
            return -9, "stopped"
        p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, preexec_fn=pre)
        if stoppable:
            RUNNING.add(p.pid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9, "timeout"
    finally:
        with GATE:
            RUNNING.discard(p.pid)


def stop_all():
    with GATE:
        STOP.set()
        for pid in RUNNING:
            try:
                os.killpg(pid, 9)
            except ProcessLookupError:
                pass


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.startswith("generated") or not f.endswith((".rs", ".toml", ".pest", ".lock")):
                    continue
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def freshen():
    """Cargo decides by file times; forget what it knows about /repo's crates when the contents differ."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == now:
        return
    for d, ds, fs in os.walk(BUILD):
        if os.path.basename(d) == ".fingerprint":
            for x in list(ds):
                if x.startswith(("pest3", "h-", "g-", "hrt-")):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            ds[:] = []
    with open(stamp, "w") as f:
        f.write(now)


def build_symex():
    r, o = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "symex")], SYMEX_DIR, 600)
    if r != 0:
        raise Err("symbolic executor does not build:\n" + o[-3000:])
    return os.path.join(BUILD, "symex", "release", "symex")


def about(bin_, h):
    """What a harness does, from its source: the comment over it and how it uses its bounds."""
    text, lines = "", []
    try:
        lines = open(os.path.join(crate(bin_), "src", "bin", bin_ + ".rs")).read().split("\n")
    except OSError:
        pass
    for i, l in enumerate(lines):
        if l.startswith("//"):
            text = l.lstrip("/! ") if not (i and lines[i - 1].startswith("//")) else text + " " + l.lstrip("/! ")
        elif l.startswith("fn ") or l.startswith("macro_rules"):
            text = ""
        if re.match(r"entry!\(%s\b" % h, l):
            use = [x.strip() for x in lines[i:i + 12] if "param(" in x]
            return (text + " Bounds: " + " ".join(use)[:300]) if use else text
    return text
def classify(out, bin_):
    """A harness that no longer compiles: because a grammar no longer generates, or for some other reason?"""
    r, o = sh(["cargo", "build", "--offline", "-p", "pest3", "-p", "pest3_meta", "--target-dir", os.path.join(BUILD, "native")], H, 600)
    if r != 0:
        raise Err("/repo does not build:\n" + o[-3000:])
    if "proc-macro derive panicked" in out or "in this derive macro expansion" in out or "originates in the derive macro" in out or re.search(r"--> src[^\n]*\n.*\n.*\n?.*derive\(Parser\)", out):
        raise Broken(out)
    # Does the derive macro end, and within memory? Then expanding and checking the harness, which takes seconds, does too.
    if out == "timeout" or "memory allocation of" in out or "signal: " in out:
        r, o = sh(["cargo", "check", "--offline", "--features", "native", "--bin", bin_, "--target-dir", os.path.join(BUILD, "native")], crate(bin_), 180, pre=little)
        if o == "timeout" or "memory allocation of" in o or "signal: " in o:
            raise Broken("The crates build, but deriving the parsers of the harness %s does not end:\n%s" % (bin_, o[-2000:]))
    # The accessors and views of a result, and the traits that it has, are what these properties are about.
    if bin_ in ("c20", "c29", "c30"):
        codes = set(re.findall(r"^error\[(E\d+)\]", out, re.M))
        if codes and codes <= {"E0599", "E0308", "E0277", "E0369", "E0609", "E0631", "E0282", "E0283"}:
            raise Broken(out)
    raise Err("harness %s does not build:\n%s" % (bin_, out[-4000:]))


def build_ir(b):
    ll = os.path.join(BUILD, b + ".ll")
    if os.path.exists(ll):
        os.remove(ll)
    td = os.path.join(BUILD, "sym")
    r, o = sh(["cargo", "rustc", "--offline", "--profile", "sym", "--bin", b, "--target-dir", td, "--",
               "--emit=llvm-ir=" + ll, "-Ctarget-cpu=x86-64", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], crate(b), 330, pre=little)
    if r == 0 and not os.path.exists(ll):  # cargo thought it fresh
        for x in os.listdir(os.path.join(td, "sym", ".fingerprint")):
            if x.startswith(os.path.basename(crate(b)) + "-"):
                shutil.rmtree(os.path.join(td, "sym", ".fingerprint", x), ignore_errors=True)
        r, o = sh(["cargo", "rustc", "--offline", "--profile", "sym", "--bin", b, "--target-dir", td, "--",
                   "--emit=llvm-ir=" + ll, "-Ctarget-cpu=x86-64", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], crate(b), 330, pre=little)
    if r != 0 or not os.path.exists(ll):
        classify(o, b)
    return ll


def build_native(b, rel=False):
    td = os.path.join(BUILD, "native")
    r, o = sh(["cargo", "build", "--offline", "--features", "native", "--bin", b, "--target-dir", td] + (["--profile", "rel"] if rel else []), crate(b), 330, pre=little)
    if r != 0:
        classify(o, b)
    return os.path.join(td, "rel" if rel else "debug", b)


def run_native(exe, lines, timeout):
    """One answer per request; a request without an answer crashed or hung."""
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=lim)
    try:
        out, _ = p.communicate("".join(l + "\n" for l in lines), timeout=timeout)
        return out.splitlines(), "exit %s" % p.returncode
    except subprocess.TimeoutExpired as e:
        p.kill()
        p.communicate()
        o = e.stdout or b""
        return (o.decode() if isinstance(o, bytes) else o).splitlines(), "timeout"


def parse_out(path):
    d = dict(status=[], stat={}, cover={}, wit=[], fn=set(), viol=None, frames=[])
    for l in open(path, errors="replace"):
        w = l.rstrip("\n").split(" ")
        k = w[0]
        if k == "status":
            d["status"].append(w[1])
        elif k == "stat":
            for i in range(1, len(w) - 1, 2):
                v = int(w[i + 1])
                d["stat"][w[i]] = max(d["stat"].get(w[i], 0), v) if w[i] in ("max_ns", "terms") else d["stat"].get(w[i], 0) + v
        elif k == "cover":
            d["cover"].setdefault(int(w[1]), w[2] if len(w) > 2 and w[2] else "-")
        elif k == "wit":
            d["wit"].append((w[1], w[2] if len(w) > 2 else ""))
        elif k == "fn":
            d["fn"].add(w[1])
        elif k == "viol":
            if d["viol"] is None:
                d["viol"] = (w[1], w[2], " ".join(w[3:]))
        elif k == "frame":
            d["frames"].append(w[1])
        elif k == "z3":
            d["z3"] = w[1]
        elif k == "wall_ms":
            d["wall_ms"] = int(w[1])
    return d


def demangle(names):
    names = list(names)
    if not names:
        return []
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), text=True, capture_output=True, timeout=20)
        r = p.stdout.splitlines()
        if len(r) == len(names):
            return r
    except Exception:
        pass
    return names


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["known"] if f["property"] == pid]


def cross_check(dump):
    """Put dumped queries to two other solvers; any disagreement means that no verdict may be trusted."""
    n = dis = 0
    t = 0.0
    if not os.path.exists(dump):
        return dict(queries=0, disagreements=0)
    text = open(dump).read()
    for i, q in enumerate(text.split(";;;QUERY ")[1:]):
        head, body = q.split("\n", 1)
        want = head.strip()
        f = dump + ".smt2"
        open(f, "w").write(body)
        for cmd in (["z3-new", f], ["cvc5", "--lang", "smt2", f]):
            t0 = time.time()
            try:
                o = subprocess.run(cmd, capture_output=True, text=True, timeout=60).stdout.strip().split("\n")[0]
            except Exception as e:
                o = "error %s" % e
            t += time.time() - t0
            if o in ("sat", "unsat"):
                n += 1
                if o != want:
                    dis += 1
    return dict(queries=n, disagreements=dis, solver_s=round(t, 2), solvers="z3-new, cvc5")


def one(symex, bins, hname, spec, tier, jobs, seq):
    b, entry = spec["bin"], hname
    params = spec.get("thorough", spec["quick"]) if tier == "thorough" else spec["quick"]
    limit = spec.get("limit_thorough", 1500) if tier == "thorough" else spec.get("limit", 240)
    out = os.path.join(BUILD, "out_%s_%s_%d" % (entry, tier, seq))
    cmd = [symex, "--ll", bins[b]["ll"], "--entry", entry, "--out", out, "--jobs", str(jobs), "--param", ",".join(map(str, params)),
           "--timeout", str(limit), "--max-steps", str(spec.get("max_steps", 20_000_000))]
    dump = out + ".dump"
    if tier == "thorough":
        cmd += ["--dump", dump]
    if os.path.exists(out):
        os.remove(out)
    r, o = sh(cmd, VERIF, limit + 60, stoppable=True)
    res = dict(entry=entry, params=params, log=o[-2000:], rc=r)
    if STOP.is_set() and r == -9:
        res.update(stopped=True, stat={}, cover={}, wit=[], fn=set(), viol=None, status=["stopped"], frames=[])
        return res
    if not os.path.exists(out) or r != 0:
        res["error"] = "symbolic executor failed (rc %s): %s" % (r, o[-2000:])
        return res
    res.update(parse_out(out))
    os.remove(out)
    if tier == "thorough":
        res["cross"] = cross_check(dump)
        for x in (dump, dump + ".smt2"):
            if os.path.exists(x):
                os.remove(x)
    return res


def replay_violation(bins, spec, res, tier):
    """Does the counterexample fail on the compiled code as well? Returns a description or None."""
    kind, hexb, msg = res["viol"]
    b = spec["bin"]
    line = "%s %s %s" % (res["entry"], ",".join(map(str, res["params"])), hexb)
    for rel in (False, True):
        exe = bins[b]["native"] if not rel else build_native(b, True)
        t = 20
        out, how = run_native(exe, [line], t)
        if not out:
            return line, "native %s run: no answer (%s)" % ("release" if rel else "dev", how)
        if out[0].startswith(("fail:", "panic:")):
            return line, "native %s run: %s" % ("release" if rel else "dev", out[0])
        last = out[0]
    return line, None


def main():
    t0 = time.time()
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    freshen()
    if a and a[0] == "--setup":
        build_symex()
        allbins = sorted({s["bin"] for p in props.CHECKS.values() for s in p["harnesses"].values()})
        with cf.ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda f: f(), [lambda: build_ir(allbins[0]), lambda: build_native(allbins[0])]))
        print("setup done in %.0f s" % (time.time() - t0))
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    prop = props.CHECKS[pid]
    hs = {k: v for k, v in prop["harnesses"].items() if not only or k in only}
    replay_dir = os.path.join(VERIF, ".build", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay_path = os.path.join(replay_dir, pid + ".txt")
    evid = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level=props.LEVEL)
    violations = []
    errors = []
    bins = {s["bin"]: {} for s in hs.values()}
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = ex.submit(build_symex)
            def irs():
                for b in bins:
                    bins[b]["ll"] = build_ir(b)
            def nats():
                for b in bins:
                    bins[b]["native"] = build_native(b)
            f1, f2 = ex.submit(irs), ex.submit(nats)
            symex = fs.result()
            f1.result()
            f2.result()
    except Broken as e:
        with open(replay_path, "w") as f:
            f.write("cd %s && cargo build --offline --features native --bin %s\n\n%s" % (crate(list(bins)[0]), list(bins)[0], str(e)))
        print("A grammar of this property's suite no longer generates code that compiles and has what the property names:")
        print("\n".join(str(e).splitlines()[-40:]))
        evid.update(coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["derive failed"]), wall_s=time.time() - t0, violations=1)
        write_evidence(pid, evid)
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        return 1
    tb = time.time() - t0
    results = {}
    weights = sorted(hs, key=lambda k: -hs[k].get("weight", 1))
    par = 4 if len(hs) >= 4 else len(hs)
    jobs = max(2, 8 // par) if len(hs) > 1 else 8
    with cf.ThreadPoolExecutor(par) as ex:
        futs = {}
        for i, k in enumerate(weights):
            s = hs[k]
            entry = s.get("entry", k)
            futs[k] = ex.submit(one, symex, bins, entry, s, tier, s.get("jobs", jobs), i)
        names = {f: k for k, f in futs.items()}
        for f in cf.as_completed(names):
            k = names[f]
            r = results[k] = f.result()
            # One confirmed violation settles the matter.
            if r.get("viol") and r["viol"][0] != "fatal" and not STOP.is_set():
                try:
                    r["how"] = replay_violation(bins, hs[k], r, tier)
                except Exception as e:
                    r["how"] = e
                if not isinstance(r["how"], Exception) and r["how"][1]:
                    stop_all()
    tot = {}
    fns = set()
    samples = []
    kf_hit = set()
    validated = 0
    replayed_fail = []
    bounds = {}
    cross = dict(queries=0, disagreements=0)
    for k in hs:
        s, r = hs[k], results[k]
        if r.get("stopped"):
            continue
        if "error" in r:
            errors.append("%s: %s" % (k, r["error"]))
            continue
        for x, v in r["stat"].items():
            tot[x] = max(tot.get(x, 0), v) if x in ("max_ns", "terms") else tot.get(x, 0) + v
        fns |= r["fn"]
        bounds[k] = dict(params=r["params"], text=s.get("bounds") or about(s["bin"], k), paths=r["stat"].get("paths", 0), queries=r["stat"].get("queries", 0),
                         cache_hits=r["stat"].get("hits", 0), steps=r["stat"].get("steps", 0), wall_ms=r.get("wall_ms"))
        if "cross" in r:
            cross["queries"] += r["cross"]["queries"]
            cross["disagreements"] += r["cross"]["disagreements"]
        if r["viol"]:
            kind, hexb, msg = r["viol"]
            if kind == "fatal":
                errors.append("%s: not encodable: %s at %s" % (k, msg, ", ".join(demangle(r["frames"][:6]))))
                continue
            if "how" not in r:
                continue
            if isinstance(r["how"], Exception):
                errors.append("%s: replay failed: %s" % (k, r["how"]))
                continue
            line, how = r["how"]
            desc = "%s %s: %s; input %s" % (k, kind, msg, line)
            if how:
                violations.append((desc, how, line, s["bin"], demangle(r["frames"][:8])))
            else:
                errors.append("%s: counterexample does not replay: %s" % (k, desc))
            continue
        bad = [x for x in r["status"] if x != "complete"]
        if bad:
            errors.append("%s: exploration incomplete: %s" % (k, bad[:3]))
            continue
        miss = [c for c in s.get("covers", []) if c not in r["cover"]]
        if miss:
            errors.append("%s: vacuous: covers %s not reached" % (k, miss))
        for c in r["cover"]:
            if c >= 1000:
                kf_hit.add(c)
        # translation validation: replay path witnesses natively
        wits = r["wit"][:400]
        ps = ",".join(map(str, r["params"]))
        ent = r["entry"]
        out, how = run_native(bins[s["bin"]]["native"], ["%s %s %s" % (ent, ps, w) for w, _ in wits], 300)
        for i, (w, tr) in enumerate(wits):
            if i >= len(out):
                errors.append("%s: witness %s crashes natively (%s)" % (k, w, how))
                break
            m = re.match(r"(\S+) trace=(\S*) covers=", out[i])
            if m and m.group(1) == "ok" and m.group(2) == tr:
                validated += 1
            elif m and m.group(1).startswith(("fail:", "panic:")):
                violations.append(("%s: path witness fails natively" % k, out[i], "%s %s %s" % (ent, ps, w), s["bin"], []))
                break
            else:
                errors.append("%s: native run of witness %s disagrees with the encoding: %s, expected trace %s" % (k, w, out[i], tr))
                break
        for w, tr in wits[:2]:
            samples.append("%s(%s) input=%s observed=%s" % (ent, ps, w, tr))
    kf = known_findings(pid)
    for f in kf:
        if f["cover"] in kf_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    unlisted = kf_hit - {f["cover"] for f in kf}
    for c in sorted(unlisted):
        violations.append(("known-failure class %d reached but not listed" % c, "", "", "", []))
    if cross["disagreements"]:
        errors.append("solvers disagree on %d dumped queries" % cross["disagreements"])
    scope = re.compile(r"pest3|pest2|4pest|pest::")
    names = [n for n in demangle(sorted(fns)) if "pest" in n]
    evid["coverage"] = dict(
        states=tot.get("paths", 0) + tot.get("killed", 0) + tot.get("forks", 0), transitions=tot.get("steps", 0),
        traces_validated_against_impl=validated, samples=samples[:12] or ["none"], exhaustive=not errors and not violations,
        paths=tot.get("paths", 0), queries_discharged=tot.get("queries", 0), query_cache_hits=tot.get("hits", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0),
        solver_s=round(tot.get("solver_ns", 0) / 1e9, 3), longest_query_ms=round(tot.get("max_ns", 0) / 1e6, 2), decided_without_query=tot.get("implied", 0),
        solver="z3 " + next((r.get("z3", "?") for r in results.values() if "z3" in r), "?"), cross_checked=cross,
        bounds=bounds, outside=prop.get("outside", ""), functions_encoded=len(names), functions_total_with_std=len(fns), functions=[n[:160] for n in names][:400],
        build_s=round(tb, 1))
    evid["assumptions"] = props.ASSUMPTIONS + prop.get("assumptions", [])
    evid["wall_s"] = round(time.time() - t0, 2)
    evid["violations"] = len(violations)
    if not only:
        write_evidence(pid, evid)
    for k in hs:
        r = results[k]
        if "stat" in r and "error" not in r:
            print("%-26s params=%s %s paths=%d steps=%d queries=%d hits=%d %d ms" % (k, r["params"], "/".join(sorted(set(r["status"]))), r["stat"].get("paths", 0), r["stat"].get("steps", 0), r["stat"].get("queries", 0), r["stat"].get("hits", 0), r.get("wall_ms", 0)))
    print("property %s, %s: %d harnesses, %d paths, %d queries (%.2f s in the solver), %d witnesses replayed, built in %.0f s, %.0f s in all" % (
        pid, tier, len(hs), tot.get("paths", 0), tot.get("queries", 0), tot.get("solver_ns", 0) / 1e9, validated, tb, time.time() - t0))
    if violations:
        with open(replay_path, "w") as f:
            for d, how, line, b, fr in violations:
                f.write("%s\n  %s\n  replay: cd %s && echo '%s' | cargo run --offline --features native --bin %s\n  at: %s\n" % (d, how, crate(b), line, b, "\n      ".join(fr)))
        print(open(replay_path).read())
        for e in errors:
            print("note: " + e)
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    return 0


def write_evidence(pid, e):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        print("ERROR " + str(e))
        sys.exit(2)
