"""Builds the Cython kernels of /repo's current tree in a scratch folder and puts them in place of the
installed ones (the .so files next to the sources are build products that a check must not trust)."""
import atexit
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

SRC = "/repo/hatchet/cython_modules"
_done = {}


def build():
    if _done:
        return _done
    d = tempfile.mkdtemp(prefix="verif_pyx_")
    atexit.register(shutil.rmtree, d, True)
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    jobs = []
    for m in ("graphframe_modules", "reader_modules"):
        shutil.copy(os.path.join(SRC, m + ".pyx"), d)
        cmd = ("%s -m cython -3 %s.pyx -o %s.c && gcc -O1 -shared -fPIC -w -I%s %s.c -o %s%s -lm"
               % (sys.executable, m, m, sysconfig.get_paths()["include"], m, m, ext))
        jobs.append((m, subprocess.Popen(cmd, shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for m, p in jobs:
        out, _ = p.communicate(timeout=300)
        if p.returncode:
            raise RuntimeError("building %s.pyx failed: %s" % (m, out.decode()[-800:]))
        _done[m] = os.path.join(d, m + ext)
    return _done


def install():
    """Must run before hatchet.graphframe is used; returns the modules."""
    import hatchet.cython_modules.libs as libs
    mods = {}
    for m, path in build().items():
        name = "hatchet.cython_modules.libs." + m
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[name] = mod
        setattr(libs, m, mod)
        mods[m] = mod
    import hatchet.graphframe as G
    for attr in list(vars(G)):
        v = getattr(G, attr)
        if getattr(v, "__name__", "").endswith("graphframe_modules"):
            setattr(G, attr, mods["graphframe_modules"])
    return mods
