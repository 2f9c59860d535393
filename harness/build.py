"""Builds the sanitizer variants of /repo's current working tree into /verif/build (ignored by git).

Every translation unit of /repo/parser and /repo/nclangsrv is compiled from the working tree. Objects are
cached by the hash of all sources plus the flags, so a second check in the same copy re-uses them.
"""
import hashlib, os, subprocess, sys, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=c++20", "-DNDEBUG", "-mavx2", "-fPIC", "-w", "-pthread",
          "-D_GLIBCXX_ASSERTIONS", "-DBOOST_ENABLE_ASSERT_HANDLER", "-DNC_VERIF_MONITOR",
          "-I" + REPO + "/parser", "-I" + REPO + "/parser/fanuc", "-I" + REPO + "/nclangsrv"]
VARIANTS = {
    "asan": ["clang++", "-O0", "-gline-tables-only", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["clang++", "-O0", "-gline-tables-only", "-fsanitize=thread"],
    "fuzz": ["clang++", "-O0", "-gline-tables-only", "-fno-omit-frame-pointer",
             "-fsanitize=fuzzer-no-link,address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
}


def sources(sub):
    out = []
    for d, dirs, fs in os.walk(os.path.join(REPO, sub)):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".cxx", ".cc")) and f not in ("dllmain.cpp", "stdafx.cpp"):
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for sub in ("parser", "nclangsrv"):
        for d, dirs, fs in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".cc", ".cxx")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    for d, dirs, fs in os.walk(os.path.join(REPO, "conf")):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for f in ("pdrv.cpp", "lfz.cpp", "srvmon.cpp"):
        p = os.path.join(VERIF, "harness", f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("latin-1")[-4000:])


def build(variant="asan", targets=("pdrv",)):
    """Returns the directory that holds the requested targets (pdrv, nclangsrv)."""
    os.makedirs(BUILD, exist_ok=True)
    h = tree_hash()
    d = os.path.join(BUILD, variant + "-" + h)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        # keep the disk small: drop other trees' builds of this variant that have not been touched for long
        for o in os.listdir(BUILD):
            p = os.path.join(BUILD, o)
            if o.startswith(variant + "-") and p != d and time.time() - os.path.getmtime(p) > 1800:
                shutil.rmtree(p, ignore_errors=True)
        flags = VARIANTS[variant]
        lib = sources("parser")
        jobs = [(s, "lib_") for s in lib]
        if "nclangsrv" in targets:
            jobs += [(s, "srv_") for s in sources("nclangsrv")]
        if "pdrv" in targets:
            jobs.append((os.path.join(VERIF, "harness", "pdrv.cpp"), "drv_"))
        if "lfz" in targets:
            jobs.append((os.path.join(VERIF, "harness", "lfz.cpp"), "lfz_"))
        objs = {}
        todo = []
        for s, pre in jobs:
            o = os.path.join(d, pre + s.strip("/").replace("/", "_") + ".o")
            objs.setdefault(pre, []).append(o)
            if not os.path.exists(o):
                todo.append((s, o))
        # the Spirit grammars are by far the slowest: start them first
        todo.sort(key=lambda so: (0 if "Grammar" in so[0] or "AllAttributesParser.cpp" in so[0] or "ValueCalc" in so[0]
                                  else 1, so[0]))

        def cc(so):
            s, o = so
            # rapidjson's own stack adds offsets to a null pointer: not a matter of this code
            srv = ["-fno-sanitize=pointer-overflow"] if os.path.basename(o).startswith("srv_") and variant != "tsan" else []
            _run(flags + COMMON + srv + ["-c", s, "-o", o + ".tmp.o"])
            os.rename(o + ".tmp.o", o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, todo))
        for t, pre in (("pdrv", "drv_"), ("nclangsrv", "srv_"), ("lfz", "lfz_")):
            if t not in targets:
                continue
            if t == "nclangsrv":
                # rootPath is the directory of the binary: conf/ has to lie beside it
                e = os.path.join(d, "nclangsrv")
                extra = os.path.join(d, "srv_monitor.o")
                if not os.path.exists(extra):
                    m = os.path.join(VERIF, "harness", "srvmon.cpp")
                    _run(flags + COMMON + ["-c", m, "-o", extra])
                o = objs[pre] + [extra]
            else:
                e, o = os.path.join(d, t), objs[pre]
            link = list(flags)
            if t == "lfz":
                link = [f.replace("fuzzer-no-link", "fuzzer") for f in link]
            if not os.path.exists(e):
                _run(link + ["-pthread", "-o", e + ".tmp"] + o + objs["lib_"] + ["-lboost_program_options"])
                os.rename(e + ".tmp", e)
            if t == "nclangsrv":
                c = os.path.join(d, "conf")
                if not os.path.isdir(c):
                    shutil.copytree(os.path.join(REPO, "conf"), c + ".tmp")
                    os.rename(c + ".tmp", c)
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    t = time.time()
    v = sys.argv[1] if len(sys.argv) > 1 else "asan"
    tg = sys.argv[2:] or ["pdrv", "nclangsrv"]
    print(build(v, tg), round(time.time() - t, 1), "s")
