"""Runs TLC on the specification and collects what it reports."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg, env=None, workers=8, timeout=800, heap="6g", extra=()):
    """Returns (stdout lines, stats).  Raises TlcError when TLC reports anything but success."""
    meta = tempfile.mkdtemp(prefix="tlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR + ":" + DEPS, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-lncheck", "final",
               "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf8", "replace")
        lines = out.split("\n")
        if p.returncode != 0 or "Model checking completed. No error has been found." not in out:
            keep = [x for x in lines if not x.startswith('"')]
            raise TlcError("tlc %s exit %d\n%s" % (module, p.returncode, "\n".join([x for x in keep if "Error" in x or "violated" in x][:5]) + "\n" + "\n".join(keep)[-3000:]))
        stats = {"states": 0, "distinct": 0}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            stats = {"states": int(m.group(1)), "distinct": int(m.group(2))}
        return lines, stats
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def outcomes(programs, alphabets=(), timeout=800, workers=8, cfg="Batch.cfg"):
    """programs, alphabets: lowered JSON.  Returns (list of reports, stats)."""
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"programs": list(programs), "alphabets": list(alphabets)}, f)
        lines, stats = run("Batch", cfg, {"ASM_INPUT": path}, workers=workers, timeout=timeout)
        res = []
        for ln in lines:
            if ln.startswith('"{'):
                res.append(json.loads(json.loads(ln)))
        return res, stats
    finally:
        os.unlink(path)
