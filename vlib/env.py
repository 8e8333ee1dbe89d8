"""Environment of a check worker: paths, build of the compiled extension from
/repo's current tree, silenced output, Gurobi settings."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    """Something is wrong with the machinery or the build, not with a property."""


def _inputs():
    return [os.path.join(REPO, f) for f in
            ("violations.pyx", "violations.h", "setup_violations.py")]


def build_ext(sanitize=False):
    """Builds violations from /repo's working tree outside /repo.

    Returns the directory that holds the extension. Cached by content in
    /verif/.build (ignored by git; it may be missing at any time).
    """
    h = hashlib.sha256()
    extra = sorted(f for f in os.listdir(REPO)
                   if f.endswith((".h", ".hpp", ".pyx", ".pxd"))
                   or f == "setup_violations.py")
    for f in extra:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    h.update(b"san" if sanitize else b"plain")
    key = h.hexdigest()[:20]
    root = os.path.join(VERIF, ".build")
    dest = os.path.join(root, ("asan-" if sanitize else "ext-") + key)
    if os.path.isdir(dest) and any(f.startswith("violations.") and f.endswith(".so")
                                   for f in os.listdir(dest)):
        return dest
    os.makedirs(root, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
    try:
        for f in extra:
            shutil.copy(os.path.join(REPO, f), tmp)
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if sanitize:
            env["CFLAGS"] = ("-fsanitize=address,undefined -fno-sanitize=vptr "
                             "-g -O1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
                             "-fno-sanitize-recover=undefined")
            env["CXXFLAGS"] = env["CFLAGS"]
            env["LDFLAGS"] = "-fsanitize=address,undefined"
        r = subprocess.run([PY, "setup_violations.py", "build_ext", "--inplace",
                            "--force"], cwd=tmp, env=env, capture_output=True,
                           text=True, timeout=600)
        sos = [f for f in os.listdir(tmp)
               if f.startswith("violations.") and f.endswith(".so")]
        if r.returncode != 0 or not sos:
            raise HarnessError("building violations failed:\n" + r.stderr[-3000:])
        out = tempfile.mkdtemp(prefix="new-", dir=root)
        os.chmod(out, 0o755)
        for f in sos:
            shutil.copy(os.path.join(tmp, f), out)
        try:
            os.rename(out, dest)
        except OSError:
            shutil.rmtree(out, ignore_errors=True)
            if not os.path.isdir(dest):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


def child_env():
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent-hyp")
    return env


def setup_paths(extdir):
    sys.dont_write_bytecode = True
    for p in (REPO, extdir):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(0, extdir)
    if PYVENV not in sys.path:
        sys.path.append(PYVENV)


_SCRATCH = None


def scratch():
    """Private scratch directory of this process; removed by run.py."""
    return _SCRATCH


def enter_scratch(path):
    global _SCRATCH
    os.makedirs(path, exist_ok=True)
    _SCRATCH = path
    # Read by Gurobi when the code under test creates its environment.
    with open(os.path.join(path, "gurobi.env"), "w") as f:
        f.write("OutputFlag 0\nThreads 1\nLogToConsole 0\n")
    os.chdir(path)


class SUT:
    """Lazily imported public names of the code under test."""
    def __init__(self):
        import importlib
        self._i = importlib.import_module

    def _get(self, mod, name):
        try:
            m = self._i(mod)
            return getattr(m, name)
        except (ImportError, AttributeError) as e:
            raise HarnessError("cannot import %s.%s: %r" % (mod, name, e))

    def __getattr__(self, name):
        table = {
            "ChanceKnapInstance": "src.instance.ChanceKnapInstance",
            "PartitionChanceKnapInstance": "src.instance.PartitionChanceKnapInstance",
            "AdaptivePartitioner": "src.solver.AdaptivePartitioner",
            "MilpSolver": "src.solver.MilpSolver",
            "Solver": "src.solver.Solver",
            "BigMFinder": "src.BigMFinder",
            "Evaluator": "src.Evaluator",
            "Initializer": "src.Initializer",
            "LowerBounder": "src.LowerBounder",
            "UpperBounder": "src.UpperBounder",
            "Merger": "src.Merger",
            "Warmstarter": "src.Warmstarter",
            "TimeManager": "src.TimeManager",
            "DeterModel": "src.optim.DeterModel",
            "CCLPModel": "src.optim.CCLPModel",
            "RandomRefiner": "src.refiner.RandomRefiner",
            "CostRefiner": "src.refiner.CostRefiner",
            "Informer": "src.Informer",
        }
        if name in table:
            v = self._get(table[name], name)
        elif name == "cpp_violations":
            v = self._get("violations", "compute_all_violations")
        elif name == "py_violations":
            v = self._get("src.song_big_m", "compute_all_violations")
        elif name == "format_results":
            v = self._i("src.export.format_results")
        else:
            raise AttributeError(name)
        self.__dict__[name] = v
        return v


sut = SUT()
