#!/opt/venv/bin/python
"""Runs the check of one property:  run.py C05 [--replay FILE]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the machinery itself failed.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def parse():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nworkers", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--shrink", type=float, default=45)
    ap.add_argument("--scratch")
    ap.add_argument("--ext")
    a = ap.parse_args()
    a.tier = "thorough" if a.tier == "thorough" else "quick"
    return a


def quiet():
    """Sends fd 1 to /dev/null; returns a file for the real stdout."""
    sys.stdout.flush()
    real = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    return real


def in_child(args):
    from vlib import clock, env
    clock.install()
    env.setup_paths(args.ext)
    env.enter_scratch(args.scratch)
    real = quiet()
    import warnings
    warnings.simplefilter("ignore")
    if args.replay:
        return replay(args, real)
    from vlib import run_worker
    return run_worker.entry(args)


def replay(args, real):
    import importlib
    from vlib.core import Ctx, Skip, Violation, check_licence, from_repo
    with open(args.replay) as f:
        rec = json.load(f)
    mod = importlib.import_module("checks." + rec["property"].lower())
    if hasattr(mod, "setup"):
        mod.setup()
    targets = {t["name"]: t for t in mod.targets(args.tier)}
    for name, case in rec.get("history", []):
        try:
            targets[name]["check"](case, Ctx())
        except Exception:
            pass
    try:
        try:
            targets[rec["target"]]["check"](rec["case"], Ctx())
        except (Skip, Violation):
            raise
        except Exception as e:
            check_licence(e)
            if from_repo(e) is None:
                raise
            raise Violation(from_repo(e))
    except Skip as e:
        real.write("inconclusive: %s\n" % e)
        return 0
    except Violation as e:
        real.write("%s\nVIOLATION property=%s replay=%s\n" % (
            e, rec["property"], os.path.abspath(args.replay)))
        return 1
    real.write("no violation on this replay\n")
    return 0


def spawn(args, extra, scratch, ext):
    from vlib import env
    return subprocess.Popen(
        [env.PY, os.path.join(VERIF, "run.py"), args.prop, "--tier", args.tier,
         "--seed", str(args.seed), "--nworkers", str(args.nworkers),
         "--scratch", scratch, "--ext", ext] + extra,
        env=env.child_env(), cwd=VERIF, start_new_session=True,
        stdin=subprocess.DEVNULL)


def kill(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def run_parent(args):
    from vlib import env
    if args.prop.upper() != args.prop or not os.path.exists(
            os.path.join(VERIF, "checks", args.prop.lower() + ".py")):
        print("no check for", args.prop)
        return 2
    import importlib.util
    spec = importlib.util.spec_from_file_location(
        "meta", os.path.join(VERIF, "checks", "meta.py"))
    meta = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(meta)
    info = meta.META[args.prop]
    t0 = time.time()
    try:
        ext = env.build_ext()
        if info.get("asan"):
            env.build_ext(sanitize=True)
    except env.HarnessError as e:
        print("harness error:", e)
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.prop)
    if args.replay:
        args.replay = os.path.abspath(args.replay)
        p = spawn(args, ["--replay", args.replay], os.path.join(scratch, "r"), ext)
        try:
            rc = p.wait()
            if -rc in CRASH:
                print("the process crashed with signal %d" % -rc)
                print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
                return 1
            return rc
        finally:
            kill(p)
            shutil.rmtree(scratch, ignore_errors=True)

    budget = args.budget or (info.get("quick_s", 240) if args.tier == "quick"
                             else info.get("thorough_s", 2400))
    hard = t0 + budget + args.shrink + (240 if args.tier == "quick" else 600)
    outs, procs = [], []
    try:
        for i in range(args.nworkers):
            out = os.path.join(scratch, "out%d.json" % i)
            outs.append(out)
            procs.append(spawn(args, ["--worker", str(i), "--out", out,
                                      "--budget", str(budget), "--shrink",
                                      str(args.shrink)],
                               os.path.join(scratch, "w%d" % i), ext))
        stop_at = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.1)
            now = time.time()
            if now > hard:
                break
            if stop_at is None:
                if any(p.poll() is not None and -p.poll() in CRASH for p in procs):
                    stop_at = now + 20
                for p, out in zip(procs, outs):
                    if p.poll() is not None and os.path.exists(out):
                        with open(out) as f:
                            if json.load(f)["best"] is not None:
                                stop_at = now + 1
            elif now > stop_at:
                break
        crashed = [p.poll() for p in procs]
        for p in procs:
            kill(p)
        res = []
        for out, rc in zip(outs, crashed):
            r = None
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
            if rc is not None and -rc in CRASH and os.path.exists(out + ".cur"):
                # a memory error in the code under test took the process down
                with open(out + ".cur") as f:
                    name, case = json.load(f)
                if r is None:
                    r = dict(labels={}, skips={}, nontrivial=[], samples=[], evals=1,
                             over_budget=0, status="crashed", error=None, best=None)
                if r["best"] is None:
                    r["best"] = dict(target=name, case=case, size=len(json.dumps(case)),
                                     msg="the process crashed with signal %d" % -rc)
            if r is not None:
                res.append(r)
        return report(args, info, res, procs, time.time() - t0)
    finally:
        for p in procs:
            kill(p)
        shutil.rmtree(scratch, ignore_errors=True)


def report(args, info, res, procs, wall):
    import collections
    labels, skips = collections.Counter(), collections.Counter()
    nontrivial, samples, evals, over = set(), [], 0, 0
    fails, errors = [], []
    for r in res:
        labels.update(r["labels"])
        skips.update(r["skips"])
        nontrivial.update(r["nontrivial"])
        samples += r["samples"]
        evals += r["evals"]
        over += r["over_budget"]
        if r["best"] is not None:
            fails.append(r["best"])
        if r["status"] == "error" and r["best"] is None:
            errors.append(r["error"])
    if len(res) < len(procs) and not fails:
        errors.append("%d worker(s) left no result" % (len(procs) - len(res)))
    seen, picked = set(), []
    for s in samples:
        if s["target"] not in seen or len(picked) < 6:
            seen.add(s["target"])
            picked.append(s)
    known = load_known(args.prop)
    ev = dict(property=args.prop, tier=args.tier, seed=args.seed,
              level=info["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontrivial),
                            rule=info["rule"], samples=picked[:10],
                            classes=dict(sorted(labels.items())),
                            inconclusive=dict(skips), not_run_over_budget=over,
                            workers=len(procs)),
              assumptions=info.get("assumptions", []),
              wall_s=round(wall, 2), violations=1 if fails else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", args.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (args.prop, k["what"]))
    if fails:
        fails.sort(key=lambda b: (not b.get("reproduced", False), b["size"]))
        b = fails[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rec = dict(property=args.prop, target=b["target"], case=b["case"],
                   message=b["msg"], history=b.get("history", []))
        name = "%s-%s.json" % (args.prop, hashlib.sha256(
            json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10])
        rp = os.path.join(rdir, name)
        with open(rp, "w") as f:
            json.dump(rec, f)
        print("%s [%s] %s" % (args.prop, b["target"], b["msg"]))
        print("case: " + json.dumps(b["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (args.prop, rp))
        return 1
    if errors:
        print("harness error in a worker:\n" + errors[0])
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s%s" % (
        args.prop, evals, len(nontrivial), wall,
        ", %d not run (time budget)" % over if over else ""))
    if not nontrivial:
        print("harness error: no non-trivial case was generated")
        return 2
    return 0


def main():
    args = parse()
    if args.scratch and args.ext:
        return in_child(args)
    return run_parent(args)


if __name__ == "__main__":
    sys.exit(main())
