#!/usr/bin/env python3
"""Decide one property: build the explorer against /repo's working tree, run it, report.

usage: check.py <property id> [--tier quick|thorough] [--keep]
exit 0: held on everything explored; 1: violated; 2: the check itself could not give an answer.
"""
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
GB = 1 << 30
# checked with the library compiled with callbacks at edges and memory accesses (mc/cov-rustc.sh)
INSTRUMENTED = ("C26",)
TARGET = os.path.join(MC, "target")
WRAPPER = ""


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER=WRAPPER, RUST_BACKTRACE="0",
             CARGO_TARGET_DIR=TARGET)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    return e


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo goes by file times; always have the crate under test compiled from what is there now
        fp = os.path.join(TARGET, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("html5-fuser-", "mc-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=MC, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print("\n".join(l for l in r.stdout.splitlines()[-60:]))
            print("ERROR: the explorer does not build against /repo")
            sys.exit(2)


def limits(as_bytes):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(args, scratch, mem, timeout):
    e = env()
    e["MC_SCRATCH"] = scratch
    err = open(os.path.join(scratch, "stderr"), "w+")
    p = subprocess.Popen([os.path.join(TARGET, "release", "mc")] + args, env=e, cwd=scratch, stdout=subprocess.PIPE, stderr=err, text=True,
                         errors="replace", preexec_fn=limits(mem), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        code = "timeout"
    err.seek(0)
    text = err.read()
    err.close()
    return code, out or "", text[-4000:]


def busy_cases(path):
    """Cases under way when the run died: family, job, case per busy worker."""
    import struct
    v = []
    try:
        b = open(path, "rb").read()
    except OSError:
        return v
    for i in range(0, len(b) - 31, 32):
        fam, job, case, busy = struct.unpack_from("QQQQ", b, i)
        if busy:
            v.append((fam, job, case))
    return v


def why(code, err):
    if code == "timeout":
        return "does not finish"
    if isinstance(code, int) and code < 0:
        last = [l for l in err.splitlines() if "overflow" in l or "memory allocation" in l or "fatal" in l]
        return "killed by %s %s" % (signal.Signals(-code).name, " ".join(last[-2:]))
    return "exit code %s" % code


def known():
    """Open findings: {property: {key: text}}; fixed entries suppress nothing."""
    k = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                k.setdefault(f["property"], {})[f["key"]] = line[7:].split(" ", 2)[2]
    return k


def key(v):
    return hashlib.sha256(v["desc"].encode("utf-8", "replace")).hexdigest()[:16]


def main():
    args = sys.argv[1:]
    prop = args[0]
    global TARGET, WRAPPER
    if prop in INSTRUMENTED:
        TARGET, WRAPPER = os.path.join(MC, "target", "cov"), os.path.join(MC, "cov-rustc.sh")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    build()
    built = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    try:
        code = explore(prop, tier, scratch, t0, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def explore(prop, tier, scratch, t0, built):
    quick = tier == "quick"
    threads = max(1, min(8, os.cpu_count() or 1))
    mem = threads * GB // 2 + (8 if quick else 22) * GB
    deadline = 600 if quick else 6 * 3600
    hang = 30
    out, prog = os.path.join(scratch, "report.json"), os.path.join(scratch, "progress")
    base = ["--prop", prop, "--tier", tier]
    found, rep = [], None
    for attempt in (1, 2):
        if os.path.exists(out):
            os.unlink(out)
        code, stdout, err = run(base + ["--threads", str(threads), "--progress", prog, "--out", out, "--hang", str(hang),
                                        "--deadline", str(deadline)], scratch, mem, deadline + 120)
        if code in (0, 1) and os.path.exists(out):
            rep = json.load(open(out, encoding="utf-8"))
            found = rep["violations"]
            break
        if code == 5:
            print(err)
            print("ERROR: the explorer failed outside any case")
            return 2
        # the run died or hung: confirm each case that was under way on its own
        cands = busy_cases(prog)
        hung = [l for l in err.splitlines() if l.startswith("HANG ")]
        if hung:
            f = dict(x.split("=") for x in hung[0].split()[1:])
            first = (int(f["family"]), int(f["job"]), int(f["case"]))
            cands = [first] + [c for c in cands if c != first]
        for c in cands[:10]:
            cid = "%d:%d:%d" % c
            o2 = os.path.join(scratch, "only.json")
            if os.path.exists(o2):
                os.unlink(o2)
            code2, so, er = run(base + ["--only", cid, "--out", o2], scratch, 5 * GB, 60)
            desc = next((l[5:] for l in so.splitlines() if l.startswith("CASE ")), "case " + cid)
            if code2 == 1 and os.path.exists(o2):
                found += json.load(open(o2, encoding="utf-8"))["violations"]
            elif code2 != 0 and code2 != 5:
                found.append({"family": "", "id": cid, "desc": desc, "detail": why(code2, er)})
            if found:
                break
        if found:
            break
        if attempt == 2:
            found = [{"family": "", "id": ",".join("%d:%d:%d" % c for c in cands[:8]), "desc": "whole exploration, twice",
                      "detail": why(code, err) + "\n" + err[-1500:]}]
    open_, hits = [], []
    kn = known().get(prop, {})
    for v in found:
        if key(v) in kn:
            hits.append((key(v), kn[key(v)]))
        else:
            open_.append(v)
    for _, text in sorted(set(hits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    wall = time.time() - t0
    evidence(prop, tier, rep, found, wall, built)
    if rep:
        print("%s %s: %d cases, %d states, %d transitions, %s in %.1f s" % (prop, tier, rep["cases"], rep["states"],
              rep["steps"], "complete" if rep["complete"] else "stopped at the deadline", wall))
    if not open_:
        return 0
    path = os.path.join(HERE, "evidence", "%s-replay.txt" % prop)
    with open(path, "w", encoding="utf-8", errors="replace") as f:
        for v in open_[:10]:
            f.write("property %s, %s, case %s (key %s)\n%s\n  %s\nreplay: cd %s && %s/release/mc --prop %s --tier %s --only %s\n\n"
                    % (prop, v["family"], v["id"], key(v), v["desc"], v["detail"], HERE, os.path.relpath(TARGET, HERE), prop, tier, v["id"]))
    v = open_[0]
    print("  %s\n  %s" % (v["desc"][:2000], v["detail"][:2000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def evidence(prop, tier, rep, found, wall, built):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = rep or {"states": 0, "steps": 0, "validated": 0, "cases": 0, "outcomes": 0, "complete": False, "families": [], "samples": []}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": rep["states"],
            "transitions": rep["steps"],
            "traces_validated_against_impl": rep["validated"],
            "behaviours_explored": rep["cases"],
            "distinct_error_outcomes": rep["outcomes"],
            "exhaustive": bool(rep["complete"] and not found),
            "spaces": rep["families"],
            "samples": rep["samples"],
        },
        "assumptions": [
            "bounded: each space is enumerated completely within the bounds written next to it",
            "the reference model (mc/src/model.rs, refparse.rs, prog.rs) states the documented behaviour; every behaviour explored is executed on the real crate and compared to it",
            "the seed is not used: nothing is sampled",
        ],
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    ev["coverage"]["build_s"] = round(built, 2)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


main()
