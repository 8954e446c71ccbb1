"""Builds the Python package from /repo's working tree into a scratch tree, the
way the sandbox's build does (lib2to3, Cython 0.29), but outside /repo and at a
lower optimisation level."""
import glob, hashlib, os, re, runpy, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

CYTHON = "/opt/vp/cython029"
PYTHON = "/usr/bin/python3"
GENERATED = {"distributions/io/schema_pb2.py"}
PY_EXTRA = [(re.compile(r"\b(?:numpy|np)\.(int|float)\b(?!\w)"), r"\1"), (re.compile(r"(?<![\w.])file\((?=filename)"), "open(")]
PYX_EXTRA = [(re.compile(r"\.iter(items|keys|values)\("), r".\1("), (re.compile(r"(?<!in )(?<![\w.])range\(([^()\n]*)\)"), r"list(range(\1))")]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd)[:400], r.stdout[-3000:]))
    return r.stdout


def cached(cache, parts, path, make):
    """path is made by make(), or taken from the cache (where one exists)."""
    if not cache or not os.path.isdir(cache):
        return make()
    key = os.path.join(cache, hashlib.sha256("\0".join(parts).encode("utf-8", "surrogateescape")).hexdigest() + "-py")
    if not os.path.exists(key):
        make()
        shutil.copy(path, key + ".%d" % os.getpid())
        os.rename(key + ".%d" % os.getpid(), key)
    shutil.copy(key, path)


def translate_all(repo, tree):
    """Copies and translates the package (run as a script, by the system Python)."""
    import warnings
    from concurrent.futures import ProcessPoolExecutor
    warnings.simplefilter("ignore")
    todo = []
    for top in ("distributions", "include", "src"):
        for d, dirs, files in os.walk(os.path.join(repo, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "build", "data", "results", "tests"))
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(d, f), repo)
                if rel in GENERATED or f.endswith((".so", ".pyc", ".cpp", ".swp", ".pb.cc", ".pb.h")):
                    continue
                dst = os.path.join(tree, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                if f.endswith(".py"):
                    todo.append((repo, rel, dst))
                elif f.endswith(".pyx"):
                    text = open(os.path.join(repo, rel), encoding="utf-8", errors="surrogateescape").read()
                    for pattern, repl in PYX_EXTRA:
                        text = pattern.sub(repl, text)
                    open(dst, "w", encoding="utf-8", errors="surrogateescape").write(text)
                else:
                    shutil.copy(os.path.join(repo, rel), dst)
    for f in ("setup.py", "README.md"):
        todo.append((repo, f, os.path.join(tree, f))) if f.endswith(".py") else shutil.copy(os.path.join(repo, f), tree)
    with ProcessPoolExecutor(8) as pool:
        bad = [b for b in pool.map(translate_one, todo) if b]
    if bad:
        sys.exit("\n".join(bad))


def translate_one(job):
    import warnings
    warnings.simplefilter("ignore")
    from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    repo, rel, dst = job
    text = open(os.path.join(repo, rel), encoding="utf-8").read()
    try:
        tool = RefactoringTool(get_fixers_from_package("lib2to3.fixes"))
        out = str(tool.refactor_string(text + ("" if text.endswith("\n") else "\n"), os.path.join(repo, rel)))
        for pattern, repl in PY_EXTRA:
            out = pattern.sub(repl, out)
        compile(out, rel, "exec")
    except Exception as e:
        return "%s: %s: %s" % (rel, type(e).__name__, e)
    open(dst, "w").write(out)


def list_extensions(tree):
    """Prints setup.py's extensions (run as a script)."""
    sys.path.insert(0, CYTHON)
    import setuptools  # noqa: F401  (provides distutils)
    import distutils.core
    import Cython.Build
    got = {}
    distutils.core.setup = lambda **kw: got.update(kw)
    Cython.Build.cythonize = lambda exts, **kw: exts
    os.chdir(tree)
    sys.path.insert(0, tree)
    sys.argv = ["setup.py", "build_ext"]
    os.environ.pop("DISTRIBUTIONS_USE_PROTOBUF", None)
    runpy.run_path(os.path.join(tree, "setup.py"), run_name="__main__")
    import json
    print("EXT " + json.dumps([[e.name, e.sources[0], list(e.include_dirs), list(e.libraries), list(e.extra_compile_args)] for e in got["ext_modules"]]))


def build(repo, work, modules, ncpu, cache):
    """modules: prefixes of the extension modules to build, () for pure Python."""
    tree, lib = os.path.join(work, "tree"), os.path.join(work, "lib")
    os.makedirs(tree)
    os.makedirs(lib)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    run([PYTHON, "-W", "ignore", os.path.abspath(__file__), "translate", repo, tree], env=env)
    run(["protoc", "--cpp_out=include", "--python_out=.", "distributions/io/schema.proto"], cwd=tree)
    if not modules:
        return tree
    import json
    out = run([PYTHON, "-W", "ignore", os.path.abspath(__file__), "list", tree], env=env)
    exts = json.loads(next(l for l in out.splitlines() if l.startswith("EXT "))[4:])
    exts = [e for e in exts if any(e[0][len("distributions."):].startswith(m) for m in modules)]
    suffix, pyinc = sysconfig.get_config_var("EXT_SUFFIX"), run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()
    suffix = run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"]).strip()
    flags = ["-O1" if f in ("-O2", "-O3") else f for f in (exts[0][4] if exts else [])] + ["-w", "-Wno-error", "-fPIC"]

    def compile_cc(src, obj, includes):
        cmd = ["g++"] + flags + ["-I" + i for i in includes]

        def make():
            run(cmd + ["-c", src, "-o", obj], cwd=tree)
        pre = ""
        if cache and os.path.isdir(cache):
            pre = run(cmd + ["-E", "-P", src], cwd=tree).replace(work, "WORK")
        cached(cache, [c.replace(work, "WORK") for c in cmd] + [pre], obj, make)

    def library():
        objs, jobs = [], []
        for src in sorted(glob.glob(tree + "/src/**/*.cc", recursive=True)) + [tree + "/include/distributions/io/schema.pb.cc"]:
            if os.path.basename(src).startswith(("test_", "benchmark")):
                continue
            objs.append(os.path.join(lib, hashlib.sha1(src.encode()).hexdigest()[:12] + ".o"))
            jobs.append((src, objs[-1]))
        return objs, jobs

    objs, jobs = library()

    def extension(e):
        name, src, includes, libraries, _ = e
        cpp, obj, so = os.path.join(work, name + ".cpp"), os.path.join(work, name + ".o"), os.path.join(tree, name.replace(".", "/") + suffix)

        def make():
            run([PYTHON, "-m", "cython", "-2", "--cplus", "-I", ".", src, "-o", cpp], cwd=tree, env=dict(env, PYTHONPATH=CYTHON))
        if cache and os.path.isdir(cache):
            text = [open(p, errors="surrogateescape").read() for p in [os.path.join(tree, src)] + sorted(glob.glob(tree + "/distributions/**/*.pxd", recursive=True))]
            cached(cache, [name] + text, cpp, make)
        else:
            make()
        compile_cc(cpp, obj, [os.path.join(tree, i) for i in includes] + [pyinc])
        return obj, so, libraries

    with ThreadPoolExecutor(ncpu) as pool:
        heavy = sorted(exts, key=lambda e: "niw" not in e[0])
        ext_futures = [pool.submit(extension, e) for e in heavy]
        lib_futures = [pool.submit(compile_cc, s, o, [os.path.join(tree, "include"), tree]) for s, o in sorted(jobs, key=lambda j: "niw" not in j[0])]
        for f in lib_futures:
            f.result()
        built = [f.result() for f in ext_futures]
        run(["g++", "-shared"] + objs + ["-o", os.path.join(lib, "libdistributions_shared.so"), "-lprotobuf", "-lm"])
        for f in [pool.submit(run, ["g++", "-shared", obj, "-o", so, "-L" + lib, "-Wl,-rpath," + lib] + ["-l" + x for x in libraries]) for obj, so, libraries in built]:
            f.result()
    return tree


if __name__ == "__main__":
    if sys.argv[1] == "translate":
        translate_all(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "list":
        list_extensions(sys.argv[2])
