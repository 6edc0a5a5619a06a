#!/opt/venv/bin/python
"""check.py <ID>            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
   check.py --replay FILE   re-run one saved case without the search library
   check.py --all           run every registered property"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", HDF5_USE_FILE_LOCKING="FALSE")
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in FIXED.items()) or os.environ.get("PYTHONPATH"):
    env = dict(os.environ, **FIXED)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY] + sys.argv, env)

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append(os.path.join(HERE, "vendor"))
sys.dont_write_bytecode = True
os.chdir(HERE)


def compile_from_source():
    """Import mlmc from the source text of the working tree, never from cached byte code."""
    import importlib.machinery as im
    import warnings

    class Loader(im.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore", SyntaxWarning)
                return self.source_to_code(self.get_data(path), path)

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name.split(".")[0] != "mlmc":
                return None
            return im.FileFinder(REPO if path is None else list(path)[0], (Loader, [".py"])).find_spec(name)

    sys.meta_path.insert(0, Finder)


compile_from_source()


def main():
    from vlib import core
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import mlmc
    if not os.path.abspath(mlmc.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("ERROR: mlmc imported from", mlmc.__file__)
        return 2
    if args[:1] == ["--replay"]:
        return core.replay(args[1])
    if args[:1] == ["--selftest"]:
        import hypothesis, h5py, scipy, ruamel.yaml
        print("ready: hypothesis", hypothesis.__version__)
        return 0
    ids = args
    if args[:1] == ["--all"]:
        import json
        ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    worst = 0
    for prop in ids:
        mod, results, wall = core.run_check(prop, tier, seed)
        worst = max(worst, core.report(prop, tier, seed, mod, results, wall))
        sys.stdout.flush()
    return worst


if __name__ == "__main__":
    sys.exit(main())
