"""Builds the package under test from /repo's working tree into a scratch tree below /verif/.build.

The scratch tree has real directories whose source files are symbolic links into /repo, so the Python code that
runs is /repo's own.  Compiled extensions are taken over from /repo when their stamp (content digest over every
source they depend on, written by the repository's own build) matches the present sources, and compiled here, in
parallel, when it does not.  Nothing is written below /repo.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import zipfile

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
VENV = "/opt/venv/bin/python"
CFLAGS = "-fno-strict-overflow -Wsign-compare -DNDEBUG -g0 -O2 -Wall -Wno-maybe-uninitialized"
SRC_EXT = (".py", ".pyx", ".pxd", ".pxi", ".h")


class BuildError(Exception):
    pass


def base_env():
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
    env["PATH"] = "/opt/venv/bin:/usr/lib/ccache:" + env.get("PATH", "/usr/bin:/bin")
    env["CFLAGS"] = CFLAGS
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env.setdefault("HOME", "/root")
    return env


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "cosmic_profiles")):
        dirs[:] = [d for d in dirs if d not in ("for_docs", "__pycache__", "build")]
        for f in files:
            if f.endswith(SRC_EXT):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


def extensions():
    txt = open(os.path.join(REPO, "setup_compile.py")).read()
    exts = []
    for m in re.finditer(r'Extension\(\s*["\']([\w.]+)["\']\s*,\s*sources\s*=\s*\[([^\]]*)\]', txt):
        src = re.findall(r'["\']([^"\']+\.pyx)["\']', m.group(2))
        if len(src) == 1:
            exts.append((m.group(1), src[0]))
    if not exts:
        raise BuildError("no extensions found in setup_compile.py")
    return exts


STAMP_CODE = r'''
import hashlib, json, os, sys
import Cython, numpy
from Cython.Build.Dependencies import create_dependency_tree
repo = sys.argv[1]
os.chdir(repo)
out = {}
for pyx in sys.argv[2:]:
    h = hashlib.sha256(f"{Cython.__version__} {numpy.__version__} {sys.version} {os.environ.get('CFLAGS')}".encode())
    deps = {os.path.abspath(p) for p in create_dependency_tree().all_dependencies(pyx)}
    for path in sorted(deps | {os.path.abspath(pyx), repo + "/setup_compile.py"}):
        h.update(path.encode())
        if os.path.exists(path):
            with open(path, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    g = hashlib.sha256(f"{Cython.__version__} {numpy.__version__} {sys.version} {os.environ.get('CFLAGS')}".encode())
    for path in sorted(deps | {os.path.abspath(pyx), repo + "/setup_compile.py"}):
        g.update(os.path.relpath(path, repo).encode())
        if os.path.exists(path):
            with open(path, "rb") as f:
                g.update(hashlib.sha256(f.read()).digest())
    out[pyx] = [h.hexdigest(), g.hexdigest()]
print(json.dumps(out))
'''

EXT_CODE = r'''
import os, sys, sysconfig
name, src = sys.argv[1:3]
import numpy as np
from setuptools import Extension
from setuptools.dist import Distribution
from setuptools.command.build_ext import build_ext
from Cython.Build import cythonize
ext = Extension(name, sources=[src], extra_compile_args=["-fopenmp"], extra_link_args=["-fopenmp"],
                include_dirs=[np.get_include(), "."])
mods = cythonize([ext], quiet=True)
cmd = build_ext(Distribution({"ext_modules": mods}))
cmd.build_temp = "build_tmp/" + name
cmd.build_lib = "build_lib/" + name
cmd.ensure_finalized()
cmd.run()
so = cmd.get_outputs()[0]
dst = name.replace(".", "/") + ".so"
os.replace(so, dst)
'''


def deps_dir():
    """Hypothesis and its dependencies, unpacked from the sandbox's wheelhouse."""
    d = os.path.join(BUILD, "deps")
    if os.path.isdir(os.path.join(d, "hypothesis")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for pat in ("hypothesis-*cp312*manylinux*x86_64*.whl", "attrs-*.whl", "sortedcontainers-*.whl"):
        found = sorted(glob.glob("/opt/veriftools/wheels/" + pat))
        if not found:
            found = sorted(glob.glob("/opt/veriftools/wheels/" + pat.split("-")[0] + "-*.whl"))
        if not found:
            raise BuildError("wheel not found: " + pat)
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def build(verbose=True):
    """Returns the directory to put on PYTHONPATH."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        deps_dir()
        srcs = sources()
        exts = extensions()
        h = hashlib.sha256(REPO.encode())
        for s in srcs + ["setup_compile.py"]:
            h.update(s.encode())
            with open(os.path.join(REPO, s), "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        key = h.hexdigest()[:20]
        farm = os.path.join(BUILD, "farm-" + key)
        if os.path.exists(os.path.join(farm, "DONE")):
            os.utime(os.path.join(farm, "DONE"))
            return farm
        # keep only a few old trees
        old = sorted(glob.glob(os.path.join(BUILD, "farm-*")), key=lambda p: os.path.getmtime(p))
        for p in old[:-2]:
            shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(farm, ignore_errors=True)
        for s in srcs:
            dst = os.path.join(farm, s)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            os.symlink(os.path.join(REPO, s), dst)
        env = base_env()
        r = subprocess.run([VENV, "-c", STAMP_CODE, REPO] + [s for _, s in exts], env=env, capture_output=True, text=True)
        now = json.loads(r.stdout.strip().splitlines()[-1]) if r.returncode == 0 and r.stdout.strip() else {}
        try:
            stamps = json.load(open(os.path.join(REPO, "build", "vp-stamps.json")))
        except (OSError, ValueError):
            stamps = {}
        todo = []
        for name, src in exts:
            so = os.path.join(REPO, src[:-4] + ".so")
            cached = os.path.join(BUILD, "so", now[src][1] + ".so") if src in now else None
            if REPO == "/repo" and src in now and now[src][0] == stamps.get(src) and os.path.exists(so):
                shutil.copyfile(so, os.path.join(farm, src[:-4] + ".so"))
            elif cached and os.path.exists(cached):
                shutil.copyfile(cached, os.path.join(farm, src[:-4] + ".so"))
            else:
                todo.append((name, src))
        procs = []
        for name, src in todo:
            p = subprocess.Popen([VENV, "-c", EXT_CODE, name, src], cwd=farm, env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True)
            procs.append((name, p))
        bad = []
        for name, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                bad.append(name + ":\n" + out[-3000:])
        if bad:
            raise BuildError("\n".join(bad))
        os.makedirs(os.path.join(BUILD, "so"), exist_ok=True)
        kept = sorted(glob.glob(os.path.join(BUILD, "so", "*.so")), key=os.path.getmtime)
        for p in kept[:-60]:
            os.unlink(p)
        for name, src in todo:
            if src in now:
                shutil.copyfile(os.path.join(farm, src[:-4] + ".so"), os.path.join(BUILD, "so", now[src][1] + ".so"))
        for junk in ("build_tmp", "build_lib"):
            shutil.rmtree(os.path.join(farm, junk), ignore_errors=True)
        open(os.path.join(farm, "DONE"), "w").write(key)
        if verbose:
            print("build: %d extensions taken over, %d compiled, %.1f s" % (len(exts) - len(todo), len(todo), time.time() - t0),
                  flush=True)
        return farm
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    print(build())
