"""Builds the extension of /repo's current tree and imports the package from /repo.

The Python modules are imported from /repo itself.  The Cython extension is
compiled from /repo's current .pyx files in a scratch directory (never in
/repo) and injected through a meta-path finder, so that a stale .so lying in
/repo is never used.
"""
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _inputs():
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "tt_sketch")):
        dirs.sort()
        for n in sorted(names):
            if n.endswith((".pyx", ".pxd", ".pxi", ".h")):
                files.append(os.path.join(root, n))
    for n in ("setup.py", "pyproject.toml"):
        f = os.path.join(REPO, n)
        if os.path.exists(f):
            files.append(f)
    return files


def build():
    """Returns {module name: path of .so} for the current tree."""
    h = hashlib.sha256()
    for f in _inputs():
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    key = h.hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "done")):
            tmp = tempfile.mkdtemp(prefix="ttbuild-")
            try:
                src = os.path.join(tmp, "src")
                os.makedirs(src)
                for f in _inputs():
                    dst = os.path.join(src, os.path.relpath(f, REPO))
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(f, dst)
                # setuptools needs the packages to exist for --inplace
                for root, dirs, names in os.walk(os.path.join(REPO, "tt_sketch")):
                    if "__init__.py" in names:
                        dst = os.path.join(src, os.path.relpath(root, REPO))
                        os.makedirs(dst, exist_ok=True)
                        open(os.path.join(dst, "__init__.py"), "w").close()
                env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
                r = subprocess.run(
                    [PY, "setup.py", "-q", "build_ext", "--inplace", "--force"],
                    cwd=src, env=env, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise BuildError(r.stdout[-4000:])
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                for root, dirs, names in os.walk(os.path.join(src, "tt_sketch")):
                    for n in names:
                        if n.endswith(".so"):
                            rel = os.path.relpath(os.path.join(root, n), src)
                            mod = rel.split(".")[0].replace(os.sep, ".")
                            shutil.copyfile(os.path.join(root, n),
                                            os.path.join(out, mod + ".so"))
                open(os.path.join(out, "done"), "w").close()
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    return {n[:-3]: os.path.join(out, n) for n in os.listdir(out) if n.endswith(".so")}


class _Finder:
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            loader = importlib.machinery.ExtensionFileLoader(name, self.mods[name])
            return importlib.util.spec_from_file_location(name, self.mods[name], loader=loader)
        return None


def load():
    """Make `import tt_sketch...` use /repo's current tree."""
    mods = build()
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(mods))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import tt_sketch
    assert os.path.abspath(tt_sketch.__file__).startswith(os.path.abspath(REPO) + os.sep), tt_sketch.__file__
    return mods
