"""
Builds the two extension modules from /repo's *current working tree* into a
private package directory under /verif/.cache (git-ignored), without touching
/repo. The Python part of the package is symlinked from /repo, so both the C++
and the Python code under test are always the current ones.

Objects are cached by a content hash over the source, its (transitive) project
includes and the flags: an unchanged tree needs no recompilation, and a changed
one can never pick up a stale object.
"""

import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
CACHE = VERIF / ".cache"
PYTHON = "/opt/venv/bin/python"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"

COMMON = [
    "-fvisibility=hidden",
    "-D_GLIBCXX_ASSERTIONS=1",
    "-std=c++20",
    "-w",
    "-DPYVRP_LOG_LEVEL=2",
    "-DSPDLOG_USE_STD_FORMAT",
    "-fPIC",
    "-g0",
]

INCLUDE = re.compile(rb'^\s*#\s*include\s*"([^"]+)"', re.M)


class BuildError(Exception):
    pass


def _closure(path: Path, root: Path, seen: dict):
    """Collects the project files that ``path`` (transitively) includes."""
    if path in seen:
        return
    data = path.read_bytes()
    seen[path] = hashlib.sha256(data).hexdigest()
    for match in INCLUDE.findall(data):
        name = match.decode()
        for base in (path.parent, root, root / "search"):
            cand = (base / name).resolve()
            if cand.is_file():
                _closure(cand, root, seen)
                break


def _includes() -> list[str]:
    env = subprocess.run(
        [
            PYTHON,
            "-c",
            "import sysconfig, pybind11;"
            "print(sysconfig.get_paths()['include']);"
            "print(pybind11.get_include())",
        ],
        capture_output=True,
        text=True,
    )
    if env.returncode == 0:
        return env.stdout.split()
    return [
        "/usr/include/python3.12",
        "/opt/venv/lib/python3.12/site-packages/pybind11/include",
    ]


def _compile(cmd_base, src: Path, root: Path, objdir: Path) -> Path:
    seen = {}
    _closure(src.resolve(), root, seen)
    key = hashlib.sha256()
    key.update(repr(cmd_base).encode())
    for path in sorted(seen):
        key.update(f"{path.relative_to(root)}:{seen[path]}\n".encode())
    obj = objdir / f"{src.stem}-{key.hexdigest()[:24]}.o"
    if obj.exists():
        os.utime(obj)
        return obj
    tmp = obj.with_suffix(f".tmp{os.getpid()}.o")
    res = subprocess.run(
        [*cmd_base, "-c", str(src), "-o", str(tmp)],
        capture_output=True,
        text=True,
    )
    if res.returncode != 0:
        raise BuildError(f"compiling {src} failed:\n{res.stderr[-4000:]}")
    os.replace(tmp, obj)
    return obj


def _link(objs: list[Path], out: Path):
    key = hashlib.sha256("\n".join(o.name for o in objs).encode()).hexdigest()
    stamp = out.with_suffix(".key")
    if out.exists() and stamp.exists() and stamp.read_text() == key:
        return
    tmp = out.with_suffix(f".tmp{os.getpid()}")
    res = subprocess.run(
        ["g++", "-shared", "-pthread", *map(str, objs), "-o", str(tmp)],
        capture_output=True,
        text=True,
    )
    if res.returncode != 0:
        raise BuildError(f"linking {out} failed:\n{res.stderr[-4000:]}")
    os.replace(tmp, out)
    stamp.write_text(key)


def _mirror(src: Path, dst: Path):
    """Symlinks all non-C++ package files; removes stale ones."""
    dst.mkdir(parents=True, exist_ok=True)
    wanted = set()
    for item in sorted(src.iterdir()):
        if item.name in ("cpp", "__pycache__") or item.suffix == ".so":
            continue
        wanted.add(item.name)
        target = dst / item.name
        if item.is_dir():
            _mirror(item, target)
        else:
            if target.is_symlink() and os.readlink(target) == str(item):
                continue
            if target.is_symlink() or target.exists():
                target.unlink()
            target.symlink_to(item)
    for item in dst.iterdir():
        if item.name in wanted or item.suffix in (".so", ".key"):
            continue
        if item.is_symlink():
            item.unlink()
        elif item.is_dir():
            shutil.rmtree(item)


def _prune(objdir: Path, keep: int = 400):
    objs = sorted(objdir.glob("*.o"), key=lambda p: p.stat().st_mtime)
    for old in objs[:-keep]:
        old.unlink(missing_ok=True)


def build() -> Path:
    """
    Builds and returns the directory to put on PYTHONPATH.
    """
    CACHE.mkdir(exist_ok=True)
    with open(CACHE / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build()


def _build() -> Path:
    root = (REPO / "pyvrp" / "cpp").resolve()
    objdir = CACHE / "obj"
    stubs = CACHE / "stubs"
    objdir.mkdir(exist_ok=True)
    stubs.mkdir(exist_ok=True)
    for name in ("pyvrp_docs.h", "search_docs.h"):
        stub = stubs / name
        text = '#pragma once\n#define DOC(...) ""\n'
        if not stub.exists() or stub.read_text() != text:
            stub.write_text(text)

    incs = [f"-I{stubs}", f"-I{root}"]
    incs += [f"-isystem{path}" for path in _includes()]

    lib = sorted(p for p in root.glob("*.cpp") if p.name != "bindings.cpp")
    search = sorted(
        p for p in (root / "search").glob("*.cpp") if p.name != "bindings.cpp"
    )

    fast = ["clang++", "-O0", *COMMON, *incs]
    opt = ["g++", "-O1", *COMMON, *incs]
    bindings = [root / "bindings.cpp", root / "search" / "bindings.cpp"]
    # A different object name for the two bindings files.
    jobs = [(fast, src) for src in bindings]
    jobs += [(opt, src) for src in (*lib, *search)]
    jobs = jobs[:2] + sorted(jobs[2:], key=lambda j: -j[1].stat().st_size)

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
        futures = [
            pool.submit(_compile, cmd, src, root, objdir) for cmd, src in jobs
        ]
        objs = {src: fut.result() for (_, src), fut in zip(jobs, futures)}

    pkg = CACHE / "pkg"
    _mirror(REPO / "pyvrp", pkg / "pyvrp")
    # Optimised objects first, so that duplicate inline functions resolve to
    # the optimised ones.
    libobjs = [objs[p] for p in lib]
    searchobjs = [objs[p] for p in search]
    _link([*libobjs, objs[bindings[0]]], pkg / "pyvrp" / f"_pyvrp{SUFFIX}")
    _link(
        [*searchobjs, *libobjs, objs[bindings[1]]],
        pkg / "pyvrp" / "search" / f"_search{SUFFIX}",
    )
    _prune(objdir)
    return pkg


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as exc:
        print(exc, file=sys.stderr)
        sys.exit(2)
