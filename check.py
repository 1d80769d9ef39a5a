#!/usr/bin/env python3
"""Decide one property: compile the repository's current code together with the property's
harness to LLVM IR, execute it symbolically, replay what the solver finds on the real code.

  check.py C01 [--tier quick|thorough] [--keep-going]

Exit 0: holds within the bounds.  1: VIOLATION line.  2: no verdict (engine/build problem).
"""
import fcntl, glob, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

TARGET = os.path.join(HERE, "target")
WORK = os.path.join(TARGET, "work")
REPO = "/repo"


def die(msg):
    print("NO-VERDICT: " + msg, flush=True)
    sys.exit(2)


def cargo_env(sub):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, sub)
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def run(cmd, cwd, env, log):
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def build_engine(err):
    with Lock("engine"):
        log = os.path.join(TARGET, "engine.log")
        rc = run(["cargo", "build", "--offline", "--release", "--locked"], os.path.join(HERE, "symex"), cargo_env("engine"), log)
        if rc:
            err.append("engine does not build:\n" + open(log, errors="replace").read()[-3000:])


def build_harness(binname, err, out):
    """LLVM IR (fat LTO: one module with the repository's crate, its dependencies and std) and
    the same program as a native executable."""
    with Lock("harness"):
        log = os.path.join(TARGET, f"harness-{binname}.log")
        env = cargo_env("harness")
        deps = os.path.join(env["CARGO_TARGET_DIR"], "release", "deps")
        for f in glob.glob(os.path.join(deps, f"{binname}-*.ll")):
            os.remove(f)
        main = os.path.join(HERE, "harness", "src", "bin", binname + ".rs")
        os.utime(main)  # always generate the IR anew
        rc = run(["cargo", "rustc", "--offline", "--locked", "--release", "--bin", binname, "--",
                  "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                 os.path.join(HERE, "harness"), env, log)
        if rc:
            err.append("harness does not build:\n" + open(log, errors="replace").read()[-3000:])
            return
        irs = glob.glob(os.path.join(deps, f"{binname}-*.ll"))
        if len(irs) != 1:
            err.append(f"expected one IR module, found {irs}")
            return
        out["ir"] = irs[0]
        out["exe"] = os.path.join(env["CARGO_TARGET_DIR"], "release", binname)


def build_dev(binname):
    """The harness in the dev profile, for replaying a violation in the other build mode."""
    with Lock("harness-dev"):
        env = cargo_env("harness-dev")
        log = os.path.join(TARGET, f"harness-dev-{binname}.log")
        rc = run(["cargo", "build", "--offline", "--locked", "--bin", binname], os.path.join(HERE, "harness"), env, log)
        return None if rc else os.path.join(env["CARGO_TARGET_DIR"], "debug", binname)


def record(entry, inputs):
    return entry + " " + " ".join(f"{w}:{v}" for w, v in inputs)


def native(exe, records, mode="run"):
    """Run records on the native build; returns one dict per record."""
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, f"replay-{os.getpid()}-{threading.get_ident()}.txt")
    with open(path, "w") as f:
        f.write("\n".join(records) + "\n")
    p = subprocess.run([exe, mode, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    os.remove(path)
    res = []
    for l in p.stdout.decode(errors="replace").splitlines():
        m = re.match(r"^(\d+) (\S+) (-?\d+) covers=([0-9a-f]+) known=(\d+) obs=(.*)$", l)
        if m:
            res.append({"status": m[2], "code": int(m[3]), "covers": int(m[4], 16), "known": int(m[5]),
                        "obs": m[6].split(",") if m[6] else []})
    return res, p.stdout.decode(errors="replace")


KINDS = {"assert": ("assert",), "panic": ("panic",), "abort": ("panic", "signal"),
         "hang": ("hang", "crash"), "stack-overflow": ("crash", "hang")}


def reproduces(v, r):
    if r["status"] not in KINDS[v["kind"]]:
        return False
    return v["kind"] != "assert" or r["code"] == v["id"]


def main():
    args = sys.argv[1:]
    if args[0] == "--setup":
        err = []
        build_engine(err)
        if err:
            die(err[0])
        return
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    err, out = [], {}
    th = threading.Thread(target=build_engine, args=(err,))
    th.start()
    build_harness(P["bin"], err, out)
    th.join()
    if err:
        die("\n".join(err))
    t_build = time.time() - t0
    engine = os.path.join(TARGET, "engine", "release", "symex")
    entries = [e for e in P["entries"] if tier == "thorough" or not e.get("thorough")]
    if tier == "quick":
        entries = [e for e in entries if not e.get("only_thorough")]
    rep = os.path.join(WORK, f"{pid}-{tier}.json")
    if os.path.exists(rep):
        os.remove(rep)
    budget = P.get("time", {}).get(tier, 420 if tier == "quick" else 3600)
    cmd = [engine, out["ir"], "--out", rep, "--time", str(budget), "--samples", "64", "--keep", "6"]
    if tier == "thorough":
        cmd += ["--confirm", "--z3-timeout", "60000"]
    for k, v in P.get("opts", {}).items():
        cmd += [k, str(v)]
    for e in entries:
        cmd += ["--entry", e["name"]]
    p = subprocess.run(cmd)
    if p.returncode or not os.path.exists(rep):
        die(f"engine ended with {p.returncode}")
    R = json.load(open(rep))

    known_file = {}
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("status") == "known" and k["property"] == pid:
                    known_file[k["known"]] = k

    problems, violations, known_hit = [], [], {}
    validated, mismatches = 0, []
    samples_out = []
    for e, r in zip(entries, R["runs"]):
        name = e["name"]
        for msg, n in r["errors"].items():
            problems.append(f"{name}: {msg} (x{n})")
        # what the solver found, on the real code
        for v in r["violations"]:
            rec = record(name, v["inputs"])
            res, text = native(out["exe"], [rec])
            if not res or not reproduces(v, res[0]):
                problems.append(f"{name}: counterexample does not reproduce natively: {v['kind']} {v['id']} {v['site']} "
                                f"{rec} -> {res[0]['status'] if res else text[-300:]}")
                continue
            if res[0]["known"] != v["known"]:
                problems.append(f"{name}: known-finding region differs natively: {rec}")
                continue
            if v["known"] in known_file:
                known_hit.setdefault(v["known"], (name, rec, v))
            else:
                violations.append((name, rec, v))
        # sampled paths, on the real code
        recs = [record(name, s["inputs"]) for s in r["samples"]]
        if recs:
            res, text = native(out["exe"], recs)
            if len(res) != len(recs):
                problems.append(f"{name}: native run of sampled paths failed: {text[-300:]}")
            for s, n, rec in zip(r["samples"], res, recs):
                cov = sum(1 << c for c in s["covers"])
                if n["status"] == "done" and n["obs"] == s["obs"] and n["covers"] == cov:
                    validated += 1
                else:
                    mismatches.append(f"{rec}: native {n['status']} {n['obs']} covers {n['covers']:x}, symbolic {s['obs']} covers {cov:x}")
        for s in r["samples"][:2]:
            _, text = native(out["exe"], [record(name, s["inputs"])], "show")
            samples_out.append({"entry": name, "run": [l.strip() for l in text.splitlines() if l.startswith("    ")][:6]})
        # vacuity
        missing = [c for c in e.get("covers", []) if c not in r["covers"]]
        if missing and not r["violations"]:
            problems.append(f"{name}: never reached: {missing}")
        if r["truncated"] and not r["violations"]:
            problems.append(f"{name}: not explored completely within the time budget ({r['truncated']} open states)")
    if mismatches:
        problems.append(f"{len(mismatches)} sampled paths differ natively, e.g. {mismatches[0]}")

    def tot(k):
        return sum(r[k] for r in R["runs"])

    def stot(k):
        return sum(r["solver"][k] for r in R["runs"])

    funcs = sorted({f for r in R["runs"] for f in r["funcs"]})
    ours = sorted({f for f in demangle([f for f in funcs if "6cmacro" in f]) if not f.startswith(("cmacro_harness", "c%s" % P["bin"][1:]))})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": P.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths") + tot("forks"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples_out[:12],
            "paths": tot("paths"),
            "symbolic_branches": tot("branches_sym"),
            "branches_decided_by_domains": tot("fast_decided"),
            "domain_decisions_confirmed_by_solver": tot("confirmed"),
            "assertions_reached": tot("asserts"),
            "assertions_put_to_solver": tot("assert_queries"),
            "assertions_proved_unsat": tot("assert_unsat"),
            "assertions_constant_on_their_path": tot("asserts_static"),
            "path_conditions_put_to_solver": tot("path_queries"),
            "solver": {"name": "z3 4.8.12 (libz3, QF_BV)", "queries": stot("queries"), "sat": stot("sat"),
                       "unsat": stot("unsat"), "unknown": stot("unknown"), "time_s": round(stot("time_s"), 2),
                       "max_query_s": max(r["solver"]["max_s"] for r in R["runs"])},
            "entries": [{"entry": e["name"], "bounds": e["bounds"], "paths": r["paths"], "instructions": r["steps"],
                         "wall_s": r["wall_s"], "covers": r["covers"], "truncated": r["truncated"]}
                        for e, r in zip(entries, R["runs"])],
            "functions_encoded": ours,
            "functions_encoded_total": len(funcs),
            "build_s": round(t_build, 1),
        },
        "assumptions": props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

    for k, (name, rec, v) in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {known_file[k]['what']}", flush=True)
    if violations:
        d = os.path.join(TARGET, "violations")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}.txt")
        dev = build_dev(P["bin"])
        with open(path, "w") as f:
            f.write(f"# property {pid}: {P['title']}\n# replay: {out['exe']} show {path}\n")
            for name, rec, v in violations[:20]:
                _, text = native(out["exe"], [rec], "show")
                f.write(f"# {v['kind']} {v['id']} {props.assert_text(P, v)} {v['site']}\n")
                for l in text.splitlines():
                    f.write("#   " + l + "\n")
                if dev:
                    res, _ = native(dev, [rec])
                    f.write(f"#   dev profile: {res[0]['status'] if res else '?'} {res[0]['code'] if res else ''}\n")
                f.write(rec + "\n")
        print(open(path).read()[:6000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        sys.exit(1)
    if problems:
        for m in problems[:20]:
            print("PROBLEM: " + m)
        die(f"{len(problems)} problems")
    print(f"OK property={pid} tier={tier}: {tot('paths')} paths, {stot('queries')} solver queries, "
          f"{validated} paths validated natively, {time.time() - t0:.0f}s", flush=True)


def demangle(names):
    try:
        p = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), capture_output=True, text=True, timeout=60)
        out = p.stdout.splitlines()
        if len(out) == len(names):
            return [re.sub(r"\[[0-9a-f]{8,}\]", "", o)[:240] for o in out]
    except OSError:
        pass
    return list(names)


if __name__ == "__main__":
    main()
