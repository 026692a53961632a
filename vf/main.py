"""Command line of a check: spreads a property's sub-checks over worker
processes, merges what they report, writes the evidence file and decides the
exit code (0 held, 1 violated, 2 error of the check)."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
NWORK = 6


def load(prop):
    from vf import core
    importlib.import_module("props." + prop)
    return core.REGISTRY[prop]


def git_head():
    try:
        return subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"],
                              capture_output=True, text=True).stdout.strip()
    except OSError:
        return ""


def worker(args):
    from vf import boot, core
    boot.prepare(args.scratch)
    import algotom
    if not os.path.abspath(algotom.__file__).startswith("/repo/"):
        print("algotom is imported from", algotom.__file__, file=sys.stderr)
        return 2
    subs = {s.name: s for s in load(args.prop)}
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    out = []
    for name in args.only.split(","):
        res = core.run_subcheck(subs[name], seed, args.tier, args.scratch,
                                args.budget, args.out + ".cur")
        res["keys"] = sorted(res["keys"])
        out.append(res)
        tmp = args.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f, default=str)
        os.replace(tmp, args.out)
    if os.path.exists(args.out + ".cur"):
        os.remove(args.out + ".cur")
    return 0


def partition(subs, tier, nwork):
    """Longest-first over workers; sub-checks with different env apart."""
    groups = {}
    for s in subs:
        groups.setdefault(tuple(sorted(s.env.items())), []).append(s)
    bins = []
    per = max(1, nwork // max(1, len(groups)))
    for env, lst in groups.items():
        k = min(len(lst), per if len(groups) > 1 else nwork)
        local = [[0.0, [], dict(env)] for _ in range(k)]
        for s in sorted(lst, key=lambda s: -s.cost * (
                s.quick if tier == "quick" else s.thorough)):
            b = min(local, key=lambda b: b[0])
            b[0] += s.cost * (s.quick if tier == "quick" else s.thorough)
            b[1].append(s.name)
        bins += local
    return bins


CRASH = (4, 6, 7, 8, 11)        # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
HANG = 300                      # a case takes a few seconds at most


def wait_for(proc, cur):
    """Exit code of a worker, and whether it was stopped inside a case that
    would not end."""
    while True:
        try:
            return proc.wait(timeout=0.2 if not os.path.exists(cur) else 2), \
                False
        except subprocess.TimeoutExpired:
            pass
        try:
            if time.time() - os.stat(cur).st_mtime > HANG:
                proc.kill()
                return proc.wait(), True
        except OSError:
            pass


def current_case(path):
    try:
        with open(path) as f:
            d = json.load(f)
        return d["sub"], d["case"]
    except (OSError, ValueError):
        return None


def finding_stands(k):
    try:
        return bool(k["still_fails"]())
    except Exception:
        return False


def parent(args):
    from vf import boot
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % args.prop)
    try:
        boot.prepare(scratch)
        subs = load(args.prop)
        if args.only:
            want = args.only.split(",")
            subs = [s for s in subs if s.name in want]
        mod = sys.modules["props." + args.prop]
        known = list(getattr(mod, "KNOWN", []))
        if args.replay:
            return replay(args, subs, scratch)
        bins = partition(subs, args.tier, args.jobs)
        procs = []
        for i, (_, names, env) in enumerate(bins):
            if not names:
                continue
            out = os.path.join(scratch, "out%d.json" % i)
            err = open(os.path.join(scratch, "err%d.txt" % i), "w+")
            e = dict(os.environ)
            e.update(env)
            e["VERIF_SEED"] = str(seed)
            p = subprocess.Popen(
                [sys.executable, "-m", "vf.main", args.prop, args.tier,
                 "--worker", "--only", ",".join(names), "--out", out,
                 "--scratch", scratch, "--budget", str(args.budget)],
                cwd=HERE, env=e, stdout=subprocess.DEVNULL, stderr=err)
            procs.append((p, names, out, err))
        results, errors = [], []
        died = []
        for p, names, out, err in procs:
            rc, hung = wait_for(p, out + ".cur")
            got = []
            if os.path.exists(out):
                with open(out) as f:
                    got = json.load(f)
            results += got
            missing = [n for n in names if n not in [g["name"] for g in got]]
            cur = current_case(out + ".cur")
            if cur and (hung or -rc in CRASH):
                # the code under test took the process down, or never ended
                died.append((cur, "the call did not end within %d s" % HANG
                             if hung else "the process died of signal %d"
                             % -rc))
            elif rc != 0 or missing:
                err.seek(0)
                errors.append("worker for %s ended with %s\n%s"
                              % (missing or names, rc, err.read()[-4000:]))
            err.close()
        order = [s.name for s in subs]
        results.sort(key=lambda r: order.index(r["name"]))
        for r in results:
            if r["error"]:
                errors.append("%s: %s" % (r["name"], r["error"]))
        # known findings -----------------------------------------------------
        for k in known:
            if finding_stands(k):
                print("KNOWN-FINDING: property=%s %s" % (args.prop,
                                                         k["what"]))
        # violations ---------------------------------------------------------
        nviol = 0
        for (sub, case), why in died:
            results.append({
                "name": sub, "evaluations": 1, "rejected": 0, "labels": {},
                "samples": [], "keys": [], "error": None, "wall_s": 0.0,
                "truncated": True, "requested": 0, "rule": "", "violation": {
                    "case": case, "message": why, "reproduced": False}})
        for r in results:
            v = r["violation"]
            if not v:
                continue
            nviol += 1
            rdir = os.path.join(EVID, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (args.prop, r["name"]))
            with open(path, "w") as f:
                json.dump({"property": args.prop, "sub": r["name"],
                           "seed": seed, "case": v["case"],
                           "message": v["message"],
                           "reproduced": v["reproduced"],
                           "replay_cmd": "bash run.sh %s --replay %s"
                           % (args.prop, path)}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (args.prop, path))
            print("  %s: %s" % (r["name"], v["message"]))
            print("  case: %s" % json.dumps(v["case"], default=str)[:2000])
        wall = time.monotonic() - t0
        evid = evidence(args, seed, results, nviol, wall)
        if not args.only:
            with open(os.path.join(EVID, args.prop + ".json"), "w") as f:
                json.dump(evid, f, indent=1, default=str)
        for e in errors:
            print("CHECK-ERROR property=%s %s" % (args.prop, e),
                  file=sys.stderr)
        print("%s %s: %d cases (%d distinct non-trivial) in %d sub-checks, "
              "%d violations, %d errors, %.1f s" % (
                  args.prop, args.tier, evid["coverage"]["evaluations"],
                  evid["coverage"]["distinct_nontrivial"], len(results),
                  nviol, len(errors), wall))
        if args.verbose:
            for r in results:
                print("   %-38s %5d/%d cases rej %d nontriv %d %.1fs %s%s" % (
                    r["name"], r["evaluations"], r["requested"],
                    r["rejected"], len(r["keys"]), r["wall_s"],
                    dict(sorted(r["labels"].items())),
                    " TRUNCATED" if r["truncated"] else ""))
        if nviol:
            return 1
        return 2 if errors else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(args, seed, results, nviol, wall):
    samples = []
    for r in results:
        samples += r["samples"][:2]
    rules = ["%s: %s" % (r["name"], " ".join(r["rule"].split()))
             for r in results]
    return {
        "property": args.prop, "tier": args.tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(len(r["keys"]) for r in results),
            "rule": "Cases are drawn by Hypothesis per sub-check (seeded); "
                    "a case counts once (by its arguments) and only if the "
                    "sub-check marked it non-trivial. " + " | ".join(rules),
            "samples": samples,
            "rejected": sum(r["rejected"] for r in results),
            "per_subcheck": [
                {"name": r["name"], "evaluations": r["evaluations"],
                 "distinct_nontrivial": len(r["keys"]),
                 "requested": r["requested"], "rejected": r["rejected"],
                 "labels": r["labels"], "truncated": r["truncated"],
                 "wall_s": r["wall_s"]} for r in results],
            "repo_head": git_head(),
        },
        "assumptions": [
            "float comparisons use the tolerances stated in props/%s.py"
            % args.prop],
        "wall_s": round(wall, 3),
        "violations": nviol,
    }


def replay(args, subs, scratch):
    from vf import core
    with open(args.replay) as f:
        rep = json.load(f)
    sc = [s for s in subs if s.name == rep["sub"]][0]
    if sc.env and any(os.environ.get(k) != v for k, v in sc.env.items()):
        e = dict(os.environ)
        e.update(sc.env)
        return subprocess.run([sys.executable, "-m", "vf.main", args.prop,
                               args.tier, "--replay", args.replay], cwd=HERE,
                              env=e).returncode
    status, msg, _ = core.execute(sc, rep["case"], scratch)
    print("%s %s: %s %s" % (args.prop, rep["sub"], status, msg))
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
    return {"ok": 0, "reject": 0, "violation": 1}.get(status, 2)


def selftest():
    from vf import boot
    scratch = tempfile.mkdtemp(prefix="vf-self-")
    try:
        boot.prepare(scratch)
        import hypothesis
        import algotom
        print("hypothesis", hypothesis.__version__, "algotom from",
              algotom.__file__)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?",
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--out", default="")
    ap.add_argument("--scratch", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--jobs", type=int, default=NWORK)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    if args.selftest:
        return selftest()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if not args.budget:
        args.budget = 240.0 if args.tier == "quick" else 3000.0
    if args.worker:
        return worker(args)
    return parent(args)


if __name__ == "__main__":
    sys.exit(main())
