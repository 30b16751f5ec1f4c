#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1 + a VIOLATION line: it does not hold.
Exit 2: the machinery could not decide (e.g. /repo does not build)."""
import os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import argparse, importlib, json, logging, traceback, warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import build, engine


def run_sanitized(mod):
    """Builds with sanitizers and runs the same command line under their runtime."""
    import subprocess
    src = build.build(mod.SANITIZE, "sanitized")
    libs = [subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip() for l in ("libasan.so", "libstdc++.so.6")]
    if not all(os.path.isabs(l) for l in libs):
        raise engine.HarnessError("no address sanitizer runtime")
    env = dict(os.environ, VERIF_SAN_SRC=src, LD_PRELOAD=" ".join(os.path.realpath(l) for l in libs), PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                            "detect_stack_use_after_return=0:handle_segv=1",
               UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0:halt_on_error=1")
    return subprocess.run([sys.executable] + sys.argv, env=env).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module("mc.checks." + a.prop.lower())
        if os.environ.get("VERIF_SAN_SRC"):
            src = os.environ["VERIF_SAN_SRC"]
        elif hasattr(mod, "SANITIZE"):
            return run_sanitized(mod)
        else:
            src = build.build(getattr(mod, "BUILD_FLAGS", ""))
        os.environ["RIPTIDE_SRC"] = src
        sys.path.insert(0, src)
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        if hasattr(mod, "before_import"):
            mod.before_import()
        import riptide
        if not os.path.realpath(riptide.__file__).startswith(os.path.realpath(src)):
            raise engine.HarnessError("riptide not imported from the scratch build")
        if hasattr(mod, "prepare"):
            mod.prepare(src)
        if a.replay:
            r = json.load(open(a.replay))
            if r["property"] != a.prop:
                raise engine.HarnessError("replay file of another property")
            for sp in mod.spaces(r.get("tier", "quick")):
                if sp.name == r["space"]:
                    case = next((c for c in sp.cases(r.get("tier", "quick")) if engine.jsonable(c) == r["case"]), None)
                    if case is None:
                        case = r["case"]
                    kind, msg, _ = engine.run_isolated(sp, case, sp.timeout)
                    print(kind, msg or "")
                    if kind != "ok":
                        print(f"VIOLATION property={a.prop} replay={a.replay}")
                        return 1
                    return 0
            raise engine.HarnessError("no such space")
        return engine.run_check(mod, a.tier, seed)
    except (engine.HarnessError, build.BuildError) as e:
        sys.stderr.write(f"ERROR: {e}\n")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    sys.exit(rc)
