"""Builds riptide from /repo's *current working tree* in a scratch copy.

Nothing the repository ignores (compiled extension, build/, _version.py) is ever taken from /repo:
sources are copied, `setup.py build_ext --inplace` is run on the copy, and the copy is removed when
the process that made it exits."""
import atexit, hashlib, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class BuildError(Exception):
    pass


def _ignore(d, names):
    out = set()
    for n in names:
        if n in ("__pycache__", ".git", "build", "dist", ".pytest_cache", "docs") or n.endswith((".so", ".pyc", ".egg-info", ".dat")):
            # NOTE: test .dat fixtures are data files under riptide/tests/data, they are kept
            if n.endswith(".dat") and "tests" in d:
                continue
            out.add(n)
    return out


def scratch(prefix="riptide-mc-"):
    d = tempfile.mkdtemp(prefix=prefix)
    owner = os.getpid()

    def rm():
        if os.getpid() == owner:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(rm)
    return d


def _devcache(flags):
    """Development aid only: VERIF_DEVCACHE=<dir> keeps builds keyed by the content of the sources."""
    base = os.environ.get("VERIF_DEVCACHE")
    if not base:
        return None
    h = hashlib.sha1(flags.encode())
    for d, dirs, files in sorted(os.walk(REPO)):
        skip = _ignore(d, dirs + files)
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            if f not in skip:
                p = os.path.join(d, f)
                h.update(p.encode() + open(p, "rb").read())
    return os.path.join(base, h.hexdigest(), "src")


def build(flags="", tag="plain"):
    """Returns a directory to put first on sys.path, from which `import riptide` works."""
    t0 = time.time()
    cached = _devcache(flags)
    if cached and os.path.isdir(cached):
        return cached
    root = scratch()
    src = os.path.join(root, "src")
    shutil.copytree(REPO, src, ignore=_ignore, symlinks=True)
    if not os.path.exists(os.path.join(src, "riptide", "_version.py")):
        with open(os.path.join(src, "riptide", "_version.py"), "w") as f:
            f.write("__version__ = version = '0.2.5'\n__version_tuple__ = version_tuple = (0, 2, 5)\n")
    env = dict(os.environ)
    env.update(SETUPTOOLS_SCM_PRETEND_VERSION="0.2.5", MPLBACKEND="Agg", PIP_NO_INDEX="1")
    env.pop("PYTHONPATH", None)
    if flags:
        env["CFLAGS"] = (env.get("CFLAGS", "") + " " + flags).strip()
        env["CXXFLAGS"] = (env.get("CXXFLAGS", "") + " " + flags).strip()
        env["LDFLAGS"] = (env.get("LDFLAGS", "") + " " + flags).strip()
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    have = [n for n in os.listdir(os.path.join(src, "riptide")) if n.startswith("libcpp") and n.endswith(".so")]
    if r.returncode or not have:
        raise BuildError(f"build of /repo failed:\n{r.stdout[-4000:]}")
    if cached:
        os.makedirs(os.path.dirname(cached), exist_ok=True)
        shutil.copytree(src, cached, symlinks=True)
    sys.stderr.write(f"[build:{tag}] {time.time() - t0:.1f}s\n")
    return src
