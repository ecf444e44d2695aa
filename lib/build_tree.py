"""Build the extensions of a scratch copy of sumo-api in place, in parallel.

usage: /opt/venv/bin/python build_tree.py TREE      (environment of /opt/vp/env.sh)

The extension list (sources, flags) is the one setup.py of the tree hands to setuptools,
so what is built is what `setup.py build_ext --inplace` would build; only the scheduling
differs (every distinct source is compiled once, in parallel).
"""
import concurrent.futures as cf
import os
import shlex
import subprocess
import sys
import sysconfig

tree = os.path.abspath(sys.argv[1])
os.chdir(tree)
sys.path.insert(0, tree)
sys.argv = ["setup.py", "build_ext", "--inplace"]

import setuptools  # noqa: E402
captured = {}


def fake_setup(**kw):
    captured.update(kw)


setuptools.setup = fake_setup
import Cython.Build  # noqa: E402
import Cython.Build.Dependencies as dep  # noqa: E402
_orig = Cython.Build.cythonize


def par_cythonize(mods, *a, **kw):
    kw.setdefault("nthreads", min(8, os.cpu_count() or 1))
    kw["force"] = True
    kw["quiet"] = True
    return _orig(mods, *a, **kw)


Cython.Build.cythonize = par_cythonize
dep.cythonize = par_cythonize


def main():
    src = open("setup.py").read()
    exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
    exts = captured["ext_modules"]
    if not exts or any(str(s).endswith(".pyx") for e in exts for s in e.sources):
        exts = par_cythonize(exts)
    ext_suffix = sysconfig.get_config_var("EXT_SUFFIX")
    cxx = shlex.split(os.environ.get("CXX", "g++"))
    cxxflags = shlex.split(os.environ.get("CXXFLAGS", ""))
    cppflags = shlex.split(os.environ.get("CPPFLAGS", ""))
    ldflags = shlex.split(os.environ.get("LDFLAGS", ""))
    pyinc = sysconfig.get_paths()["include"]
    objdir = os.path.join(tree, "build", "vf_obj")
    jobs = {}   # key -> (obj, cmd)

    def obj_for(ext, source):
        flags = ["-I" + d for d in ext.include_dirs] + ["-I/opt/venv/include", "-I" + pyinc] + \
            ["-D%s%s" % (n, "" if v is None else "=" + str(v)) for n, v in ext.define_macros]
        extra = list(ext.extra_compile_args)
        key = (source, tuple(flags), tuple(extra))
        if key not in jobs:
            obj = os.path.join(objdir, source.replace("/", "__") + ".%d.o" % len(jobs))
            jobs[key] = (obj, cxx + cxxflags + cppflags + ["-fPIC"] + flags +
                         ["-c", source, "-o", obj] + extra)
        return jobs[key][0]

    links = []
    for e in exts:
        objs = [obj_for(e, s) for s in e.sources]
        out = e.name.replace("/", ".").replace(".", "/") + ext_suffix
        links.append(cxx + cxxflags + cppflags[:0] + ["-shared", "-Wl,-O1", "-Wl,-Bsymbolic-functions"] +
                     ldflags + objs + ["-L" + d for d in e.library_dirs] +
                     ["-l" + x for x in e.libraries] + ["-o", out] + list(e.extra_link_args))
    os.makedirs(objdir, exist_ok=True)

    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError(" ".join(cmd) + "\n" + r.stdout[-4000:])

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(run, c) for _, c in jobs.values()]:
            f.result()
        for f in [ex.submit(run, c) for c in links]:
            f.result()
    print("built", len(links), "extensions from", len(jobs), "objects")


if __name__ == "__main__" or True:
    main()
