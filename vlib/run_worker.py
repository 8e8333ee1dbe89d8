"""One worker: runs the Hypothesis campaign of one property."""
import collections
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from vlib import env
from vlib.core import Ctx, Skip, Violation, check_licence, from_repo


class StopWorker(KeyboardInterrupt):
    pass


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def short(obj, depth=0):
    """A readable, bounded rendering of a case for the evidence file."""
    if isinstance(obj, dict):
        return {k: short(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        if len(obj) > 12:
            return [short(v, depth + 1) for v in obj[:10]] + ["... %d items" % len(obj)]
        return [short(v, depth + 1) for v in obj]
    if isinstance(obj, str) and len(obj) > 400:
        return obj[:400] + "..."
    return obj


class Worker:
    def __init__(self, prop, idx, nworkers, tier, seed, out, budget, shrink_s):
        self.prop, self.idx, self.nworkers = prop, idx, nworkers
        self.tier, self.seed, self.out = tier, seed, out
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.shrink_s = shrink_s
        self.first_fail = None
        self.best = None
        self.evals = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.skips = collections.Counter()
        self.samples = []
        self.history = []
        self.over_budget = 0
        self.last_dump = 0
        self.status = "running"
        self.error = None
        self.real_stdout = None

    def dump(self, force=False):
        now = time.time()
        if not force and now - self.last_dump < 3:
            return
        self.last_dump = now
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(dict(status=self.status, evals=self.evals,
                           nontrivial=sorted(self.nontrivial),
                           labels=self.labels, skips=self.skips,
                           samples=self.samples, best=self.best,
                           over_budget=self.over_budget, error=self.error,
                           wall=now - self.t0), f)
        os.replace(tmp, self.out)

    def note_current(self, name, case):
        """Lets the parent know the case, should the process crash on it."""
        with open(self.out + ".cur", "w") as f:
            json.dump([name, case], f)

    def run_case(self, target, case, count=True):
        """Returns None or the violation message."""
        ctx = Ctx()
        if count:
            self.note_current(target["name"], case)
        try:
            target["check"](case, ctx)
        except Skip as e:
            if count:
                self.skips[str(e)] += 1
            return None
        except Violation as e:
            return str(e)
        except (env.HarnessError, StopWorker):
            raise
        except Exception as e:
            try:
                check_licence(e)
            except Skip as sk:
                if count:
                    self.skips[str(sk)] += 1
                return None
            msg = from_repo(e)
            if msg is None:
                raise
            return msg
        finally:
            if count:
                self.evals += 1
                for k, v in ctx.labels.items():
                    self.labels["%s: %s" % (target["name"], k)] += 1
        if count:
            self.labels["%s: cases" % target["name"]] += 1
            if ctx.nontrivial:
                self.labels["%s: nontrivial" % target["name"]] += 1
                k = case_key([target["name"], case])
                if k not in self.nontrivial:
                    self.nontrivial.add(k)
                    mine = sum(1 for s in self.samples if s["target"] == target["name"])
                    if mine < 2 and self.evals % 3 == 0:
                        self.samples.append(dict(target=target["name"], case=short(case)))
        return None

    def failed(self, target, case, msg):
        if self.first_fail is None:
            self.first_fail = time.time()
        size = len(json.dumps(case))
        if self.best is None or size <= self.best["size"]:
            self.best = dict(target=target["name"], case=case, msg=msg, size=size)
        self.dump(force=True)

    def campaign(self, target, n):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        # Mutations copy choices between draws of different size, and where
        # they misalign Hypothesis falls back to the simplest value: most cases
        # would be all zeros. Purely random generation is far more varied.
        ConjectureRunner.generate_mutations_from = lambda self, data: None
        name = target["name"]
        hs = int.from_bytes(hashlib.sha256(
            ("%s:%s:%s:%s" % (self.seed, self.prop, name, self.idx)).encode()
        ).digest()[:8], "big")
        strat = target["strategy"]()
        tbudget = self.deadline

        def body(case):
            now = time.time()
            if self.first_fail is not None and now - self.first_fail > self.shrink_s:
                raise StopWorker()
            if now > tbudget and self.first_fail is None:
                self.over_budget += 1
                return
            if self.first_fail is None:
                self.history.append([name, case])
            msg = self.run_case(target, case, count=self.first_fail is None)
            self.dump()
            if msg is not None:
                self.failed(target, case, msg)
                raise Violation(msg)

        test = hypothesis.given(strat)(body)
        test = settings(max_examples=n, deadline=None, database=None,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck),
                        report_multiple_bugs=False, print_blob=False,
                        verbosity=hypothesis.Verbosity.quiet)(test)
        test = hypothesis.seed(hs)(test)
        try:
            test()
        except StopWorker:
            pass
        except Violation:
            pass
        except BaseException as e:
            if self.best is None:
                raise
            # Hypothesis noticed the failure is not a function of the case
            # alone; the recorded failure stands (see finish()).
            self.labels["hypothesis: %s" % type(e).__name__] += 1

    def finish_failure(self):
        """Fresh-process replay tells whether the case alone reproduces; if
        not, the whole history of this worker is the replay."""
        import subprocess
        b = self.best
        for hist in ([], self.history[-20:], self.history):
            rec = dict(property=self.prop, target=b["target"], case=b["case"],
                       message=b["msg"], history=hist)
            p = self.out + ".replay"
            with open(p, "w") as f:
                json.dump(rec, f)
            try:
                r = subprocess.run([sys.executable, os.path.join(env.VERIF, "run.py"),
                                    self.prop, "--replay", p],
                                   capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1:
                b["history"] = hist
                b["reproduced"] = True
                return
        b["history"] = self.history
        b["reproduced"] = False

    def main(self):
        mod = importlib.import_module("checks." + self.prop.lower())
        if hasattr(mod, "setup"):
            mod.setup()
        only = os.environ.get("VERIF_ONLY")      # for development
        targets = [t for t in mod.targets(self.tier) if not only or only in t["name"]]
        # Saved minimal reproductions first (worker 0).
        if self.idx == 0:
            cdir = os.path.join(env.VERIF, "corpus", self.prop)
            if os.path.isdir(cdir):
                for fn in sorted(os.listdir(cdir)):
                    with open(os.path.join(cdir, fn)) as f:
                        rec = json.load(f)
                    t = [t for t in targets if t["name"] == rec["target"]]
                    if not t and only:
                        continue
                    if not t:
                        raise env.HarnessError("corpus target " + rec["target"])
                    msg = self.run_case(t[0], rec["case"])
                    self.labels["corpus cases"] += 1
                    if msg is not None:
                        self.failed(t[0], rec["case"], msg)
                        break
        if self.best is None:
            for t in targets:
                n = t["thorough"] if self.tier == "thorough" else t["quick"]
                if n <= 0 or (t.get("only_worker") is not None
                              and t["only_worker"] != self.idx):
                    continue
                self.campaign(t, n)
                if self.best is not None:
                    break
        if self.best is not None:
            self.dump(force=True)
            self.finish_failure()
        self.status = "done"
        self.dump(force=True)


def entry(args):
    w = Worker(args.prop, args.worker, args.nworkers, args.tier, args.seed,
               args.out, args.budget, args.shrink)
    try:
        w.main()
    except BaseException:
        w.status = "error"
        w.error = traceback.format_exc()[-4000:]
        w.dump(force=True)
        return 3
    return 0
