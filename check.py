#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree.

1. builds the harness together with /repo's crates to one LLVM module,
2. executes every entry point of the property symbolically (engine/: all
   branch and assertion decisions are Z3's), over all values of the symbolic
   bytes within the stated bounds,
3. replays every counterexample on the natively built code, and
4. replays a sample of the explored paths natively to validate the encoding.

Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer.
"""
import fcntl, glob, hashlib, json, os, random, re, resource, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
from bounds import PROPS, COMMON_ASSUMPTIONS  # noqa: E402


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env(), **kw)


def build_engine():
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"))
    if r.returncode:
        raise NoAnswer("the engine does not build:\n" + r.stdout[-3000:])


def build_ir(group, d):
    r = sh([os.path.join(V, "harness/build_ir.sh"), os.path.join(d, "ir"), os.path.join(d, "hx.ll"), group])
    return r.returncode, r.stdout


def start_native(group, d):
    t = os.path.join(d, "native")
    e = env()
    e["CARGO_TARGET_DIR"] = t
    os.makedirs(t, exist_ok=True)
    sh(["bash", "-c", f"cd {V}/harness && CARGO_TARGET_DIR={t} cargo clean --offline -q -p graphviz-rust -p dot-structures -p dot-generator -p into-attr -p into-attr-derive -p hx"])
    return subprocess.Popen(["cargo", "build", "--offline", "-q", "--features", "replay," + group], cwd=os.path.join(V, "harness"), env=e,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def entries(group, pid, tier):
    ks = "qt" if tier == "thorough" else "q"
    out = []
    for f in [os.path.join(V, "harness/src", m + ".rs") for m in PROPS[pid].get("modules", [group])]:
        for m in re.finditer(r"^\s*(h_%s_([%s])_\w+) \{" % (pid.lower(), ks), open(f).read(), re.M):
            out.append(m.group(1))
    if not out:
        raise NoAnswer("no entries")
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Native:
    """The replay binary, one process per batch (or per input)."""

    def __init__(self, d, pid):
        self.bin = os.path.join(d, "native/debug/hx")
        self.pid = pid

    def run(self, lines, timeout):
        p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, start_new_session=True)
        try:
            out, _ = p.communicate("".join(l + "\n" for l in lines).encode(), timeout=timeout)
            how = None if p.returncode == 0 else ("died with signal %d" % -p.returncode if p.returncode < 0 else "exit status %d" % p.returncode)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            how = "not finished after %d s" % timeout
        return out.decode(errors="replace").split("\n")[:-1], how

    def one(self, entry, h):
        """None if the run is fine, else what happened."""
        out, how = self.run([entry + " " + h], 20)
        if out:
            return out[0] if out[0].startswith(("FAIL", "PANIC")) else None
        return "CRASH " + (how or "no output")


def known(pid, entry, msg, h):
    for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
        if f["property"] == pid and f["entry"] == entry and f["message"] == msg and re.fullmatch(f["input"], h):
            return f
    return None


def sources():
    out = {}
    for f in sorted(glob.glob(REPO + "/**/*", recursive=True)):
        if "/target/" in f or not re.search(r"\.(rs|pest)$", f):
            continue
        out[os.path.relpath(f, REPO)] = hashlib.sha256(open(f, "rb").read()).hexdigest()[:16]
    return out


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        out = r.stdout.split("\n")
        if len(out) >= len(names):
            return [re.sub(r"\[[0-9a-f]+\]", "", x) for x in out[:len(names)]]
    except OSError:
        pass
    return names


def cross_check(dump, limit):
    """Re-decides dumped queries with other solvers."""
    res = {"queries": 0, "disagreements": 0, "solvers": []}
    t = open(dump, errors="replace").read()
    qs = re.findall(r";;QUERY\n(.*?);;RESULT (sat|unsat)\n", t, re.S)[:limit]
    if not qs:
        return res
    text = "(set-logic QF_BV)\n" + "".join("(push 1)\n%s\n(check-sat)\n(pop 1)\n" % q for q, _ in qs)
    f = dump + ".smt2"
    open(f, "w").write(text)
    for s in (["cvc5", "--incremental", f], ["z3-new", f]):
        try:
            r = subprocess.run(s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except (OSError, subprocess.TimeoutExpired):
            continue
        got = [l for l in r.stdout.split("\n") if l in ("sat", "unsat", "unknown") or "error" in l]
        if len(got) != len(qs):
            res["disagreements"] += abs(len(got) - len(qs))
        res["disagreements"] += sum(1 for g, (_, w) in zip(got, qs) if g != w)
        res["solvers"].append(s[0])
    res["queries"] = len(qs)
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rnd = random.Random(seed)
    t0 = time.time()
    spec = PROPS[pid]
    group = spec["group"]
    d = os.path.join(V, "build", group)
    os.makedirs(d, exist_ok=True)
    lock = open(d + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_engine()
    native = start_native(group, d)
    rc, log = build_ir(group, d)
    nlog, _ = native.communicate()
    if rc == 3 or native.returncode:
        base = os.path.join(V, "build", "base")
        os.makedirs(base, exist_ok=True)
        if spec.get("compile_is_violation") and re.search(r"^error", log + nlog, re.M):
            # the crates themselves compile, the documented use does not
            n = start_native("base", base)
            n.communicate()
            if n.returncode == 0:
                os.makedirs(os.path.join(V, "replays"), exist_ok=True)
                f = os.path.join(V, "replays", pid + "-compile.txt")
                open(f, "w").write(log + nlog)
                evidence(pid, tier, seed, t0, None, [], 0, 1, {"compile_error": True}, spec)
                print("documented use of the public API no longer compiles:\n" + "\n".join(re.findall(r"^error.*(?:\n .*)*", log + nlog, re.M)[:5])[:1500])
                print(f"VIOLATION property={pid} replay={f}")
                return 1
        raise NoAnswer("the harness does not build on this tree:\n" + (log + nlog)[-4000:])
    ents = entries(group, pid, tier)
    out = os.path.join(d, pid + ".json")
    budget = int(os.environ.get("VERIF_TIME", "560" if tier == "quick" else "7200"))
    cmd = [os.path.join(V, "engine/target/release/symx"), "--ll", os.path.join(d, "hx.ll"), "--jobs", str(os.cpu_count() or 4), "--time", str(budget), "--out", out, "--z3-all"]
    for e in ents:
        cmd += ["--entry", e]
    dump = os.path.join(d, pid + ".queries")
    if tier == "thorough":
        cmd += ["--dump", dump]
    if os.path.exists(out):
        os.unlink(out)
    r = sh(cmd)
    if not os.path.exists(out):
        raise NoAnswer("the engine gave no result:\n" + r.stdout[-3000:])
    res = json.load(open(out))
    nat = Native(d, pid)

    # counterexamples
    confirmed, spurious, knowns = [], [], []
    tried = {}
    for e in res["entries"]:
        for msg, h in e["fails"]:
            k = known(pid, e["entry"], msg, h)
            if tried.setdefault((e["entry"], msg), 0) >= 4:
                continue
            if not k:
                tried[(e["entry"], msg)] += 1
            for _ in range(12):  # the order of a hash table differs from run to run
                got = nat.one(e["entry"], h)
                if got is not None:
                    break
            if got is None:
                spurious.append((e["entry"], msg, h))
            elif k:
                knowns.append(k)
            else:
                confirmed.append((e["entry"], msg, h, got))
    # agreement of the encoding with the native code on explored paths
    validated, mismatch, samples = 0, [], []
    per = 150 if tier == "quick" else 1500
    for e in res["entries"]:
        recs = e["recs"]
        if len(recs) > per:
            recs = rnd.sample(recs, per)
        if not recs:
            continue
        got, how = nat.run([e["entry"] + " " + h for h, _ in recs], 300)
        for (h, want), g in zip(recs, got):
            if g == "OK " + want:
                validated += 1
            elif nat.run([e["entry"] + " " + h], 60)[0] == ["OK " + want]:
                validated += 1  # alone, without the state that the paths before it left behind
            elif g.startswith(("FAIL", "PANIC")) and nat.one(e["entry"], h) and len(confirmed) < 50:
                # the solver's input of this path makes the native run violate the property
                confirmed.append((e["entry"], "no failure on this path", h, g))
            else:
                mismatch.append((e["entry"], h, want, g))
        if len(got) != len(recs):
            mismatch.append((e["entry"], recs[len(got)][0], recs[len(got)][1], how))
        h, want = recs[len(recs) // 2]
        samples.append({"entry": e["entry"], "symbolic_bytes_of_one_path": h, "as_text": bytes.fromhex(h).decode("latin1"), "native": got[len(recs) // 2] if len(got) > len(recs) // 2 else how})
    extra = {}
    if tier == "thorough" and os.path.exists(dump):
        extra["cross_check"] = cross_check(dump, 2000)
        for f in glob.glob(dump + "*"):
            os.unlink(f)
    evidence(pid, tier, seed, t0, res, samples, validated, len(confirmed), extra, spec)
    for f in glob.glob(os.path.join(V, "replays", pid + "-*")):
        os.unlink(f)
    for n, k in enumerate({json.dumps(k) for k in knowns}):
        print("KNOWN-FINDING: property=%s %s" % (pid, json.loads(k)["what"]))
    if confirmed:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        done = set()
        for e, msg, h, got in confirmed:
            if (e, msg) in done or len(done) >= 5:
                continue
            done.add((e, msg))
            f = os.path.join(V, "replays", "%s-%d.json" % (pid, len(done)))
            json.dump({"property": pid, "entry": e, "input": h, "input_as_text": bytes.fromhex(h).decode("latin1"), "solver_says": msg, "native_run": got, "run": "python3 /verif/replay.py " + f}, open(f, "w"), indent=1)
            print("%s: %s [symbolic bytes %s] native: %s" % (e, msg, h, got[:300]))
            print(f"VIOLATION property={pid} replay={f}")
        return 1
    if mismatch:
        raise NoAnswer("the native code disagrees with the encoding: %r" % mismatch[:3])
    if spurious:
        raise NoAnswer("counterexamples that do not reproduce natively: %r" % spurious[:3])
    errs = [(e["entry"], x) for e in res["entries"] for x in e["errors"]]
    for e in res["entries"]:
        if e["nerrors"] > e["paths"]:
            raise NoAnswer("not encodable: %r" % errs[:3])
    if extra.get("cross_check", {}).get("disagreements"):
        raise NoAnswer("solvers disagree: %r" % extra)
    if not any(e["paths"] for e in res["entries"]):
        raise NoAnswer("nothing was explored")
    for e in res["entries"]:
        if (res["complete"] and not e["nerrors"]) and (not (e["paths"] or e["nfails"]) or not (e["nfails"] or e["checks_const"] + e["checks_solver"] or e["covers"])):
            raise NoAnswer("vacuous: %s reaches no assertion" % e["entry"])
    n = sum(e["paths"] for e in res["entries"])
    if errs or not res["complete"]:
        if errs:
            print("NOT EXHAUSTIVE: %d paths could not be encoded: %r" % (sum(e["nerrors"] for e in res["entries"]), errs[:3]))
        if not res["complete"]:
            print("NOT EXHAUSTIVE: the exploration was not finished within %d s" % budget)
        print("%s held on the %d paths explored (%d queries, %.1f s of Z3; %d paths replayed natively; %.0f s)" % (pid, n, res["z3_queries"], res["z3_s"], validated, time.time() - t0))
        return 0
    print("%s holds on all %d paths of %d entries (%d queries, %.1f s of Z3; %d paths replayed natively; %.0f s)" % (pid, n, len(ents), res["z3_queries"], res["z3_s"], validated, time.time() - t0))
    return 0


def evidence(pid, tier, seed, t0, res, samples, validated, nviol, extra, spec):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": validated, "samples": samples}
    if res:
        fn = [x[:160] for x in demangle(res["functions"]) if re.search(r"graphviz_rust::|dot_structures::|dot_generator::|into_attr::|DotParser", x) and not re.search(r"drop_glue|drop_in_place", x)]
        cov.update(
            states=sum(e["paths"] + e["infeasible"] + e["forks"] for e in res["entries"]),
            transitions=sum(e["instrs"] for e in res["entries"]),
            state_rule="a state is a symbolic machine state at a fork or at the end of a path; a transition is one symbolically executed LLVM instruction",
            paths=sum(e["paths"] for e in res["entries"]),
            infeasible_paths=sum(e["infeasible"] for e in res["entries"]),
            exhaustive_within_bounds=res["complete"] and not any(e["nerrors"] for e in res["entries"]),
            paths_not_encodable=sum(e["nerrors"] for e in res["entries"]),
            entries={e["entry"]: {k: e[k] for k in ("paths", "infeasible", "forks", "instrs", "max_path_instrs", "checks_const", "checks_solver", "covers", "nfails", "nerrors")} for e in res["entries"]},
            assertions_decided=sum(e["checks_const"] + e["checks_solver"] for e in res["entries"]),
            solver=res["solver"],
            solver_queries={"total": res["z3_queries"], "sat": res["z3_sat"], "unsat": res["z3_unsat"], "answered_from_cache": res["cache_hits"]},
            solver_s=res["z3_s"],
            functions_encoded={"count": len(res["functions"]), "of_this_repository": sorted(set(fn))[:150], "note": "after inlining by the compiler; everything these call (pest, alloc, core, std) is executed as well"},
            sources_encoded=sources(),
            bounds=spec["bounds"][tier] if tier == "quick" else spec["bounds"]["quick"] + " Thorough adds: " + spec["bounds"]["thorough"],
            outside=spec["outside"],
        )
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as x:
        print("NO ANSWER:", x)
        sys.exit(2)
