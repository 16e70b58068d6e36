"""Builds pasm (and eolconvert, and the container driver) from /repo's current working tree, outside /repo.

The build takes the grammar, the scanner and every C++ source of CMakePasm/source, exactly the sources the
project's CMake files list, and nothing from an earlier build of /repo.  A finished build is kept in
/verif/build/<hash of the sources>, which git ignores; a changed tree hashes differently and is built anew.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CMakePasm", "source")
EOL = os.path.join(REPO, "CMakePasm", "eolconvert", "eolconvert.cc")
CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-w"]


class BuildError(Exception):
    pass


def _hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(SRC + "/*")) + [EOL] + sorted(glob.glob(VERIF + "/harness/*.cc"))
    for f in files:
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
    h.update(" ".join(CXXFLAGS).encode())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("latin1")[-4000:])


def build():
    """Returns the directory with the binaries pasm, eolconvert and containers."""
    key = _hash()
    out = os.path.join(VERIF, "build", key)
    if os.path.exists(os.path.join(out, "ok")):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        _run(["bison", "--defines=" + tmp + "/pasm.tab.h", "-o", tmp + "/pasm.tab.cc", SRC + "/pasm.y"])
        _run(["flex", "-o", tmp + "/pasm.flex.cc", SRC + "/pasm.l"])
        srcs = [f for f in sorted(glob.glob(SRC + "/*.cc"))] + [tmp + "/pasm.tab.cc", tmp + "/pasm.flex.cc"]
        objs = []
        jobs = []
        for s in srcs:
            o = tmp + "/" + os.path.basename(s) + ".o"
            objs.append(o)
            jobs.append(["g++"] + CXXFLAGS + ["-I", SRC, "-I", tmp, "-c", s, "-o", o])
        jobs.append(["g++"] + CXXFLAGS + [EOL, "-o", tmp + "/eolconvert"])
        drivers = sorted(glob.glob(VERIF + "/harness/*.cc"))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, jobs))
        lib = [o for o in objs if not o.endswith("/main.cc.o")]

        def driver(d):
            # a driver uses pasm's own interfaces; where these have changed there is no driver
            b = os.path.basename(d)
            try:
                _run(["g++"] + CXXFLAGS + ["-I", SRC, "-I", tmp, d] + lib + ["-o", tmp + "/" + b[:-3]])
            except BuildError as e:
                with open(tmp + "/" + b[:-3] + ".failed", "w") as f:
                    f.write(str(e))
        with ThreadPoolExecutor(8) as ex:
            more = [ex.submit(driver, d) for d in drivers]
            _run(["g++"] + objs + ["-o", tmp + "/pasm"])
            for m in more:
                m.result()
        for f in set(glob.glob(tmp + "/*.o") + glob.glob(tmp + "/pasm.tab.*") + glob.glob(tmp + "/pasm.flex.cc")):
            os.unlink(f)
        open(tmp + "/ok", "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    except Exception:
        shutil.rmtree(tmp, ignore_errors=True)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        raise
    # keep the build directory small
    olds = sorted(glob.glob(VERIF + "/build/*/ok"), key=os.path.getmtime)[:-6]
    for o in olds:
        if os.path.dirname(o) != out:
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    return out


if __name__ == "__main__":
    print(build())
