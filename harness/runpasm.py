"""Runs the real pasm on rendered programs and reads back everything it writes."""
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile

SCRATCH = tempfile.gettempdir()

# no more open files than is usual, wherever the checks run
_soft, _hard = resource.getrlimit(resource.RLIMIT_NOFILE)
if _soft == resource.RLIM_INFINITY or _soft > 512:
    resource.setrlimit(resource.RLIMIT_NOFILE, (512, _hard))


class Result:
    __slots__ = ("rc", "timeout", "out", "err", "bin", "sym", "lst", "files")

    @property
    def ok(self):
        return self.rc == 0

    @property
    def crashed(self):
        return self.rc < 0 or self.timeout or self.rc in (134, 136, 139)

    def brief(self):
        return "exit %s%s\nstdout: %s\nstderr: %s\nobject: %s" % (
            self.rc, " (timeout)" if self.timeout else "", self.out[-600:].decode("latin1"),
            self.err[-600:].decode("latin1"), self.bin.hex() if self.bin is not None else None)


def write_files(d, files):
    for name, content in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("latin1"))


def run_in(d, binary, inputs, args=(), outputs=("o.bin", "s.sym", "l.lst"), timeout=20, keep=(), env=None, limit=-1):
    r = Result()
    cmd = [binary]
    if outputs[0]:
        cmd += ["-o", outputs[0]]
    if outputs[1]:
        cmd += ["-s", outputs[1]]
    if outputs[2]:
        cmd += ["-l", outputs[2]]
    cmd += list(args) + list(inputs)
    r.timeout = False
    def short():
        """files of at most so many bytes"""
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, preexec_fn=short if limit >= 0 else None)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.rc = -9
        r.timeout = True

    def rd(n):
        if not n:
            return None
        try:
            with open(os.path.join(d, n), "rb") as f:
                return f.read()
        except OSError:
            return None
    r.bin, r.sym, r.lst = rd(outputs[0]), rd(outputs[1]), rd(outputs[2])
    r.files = {k: rd(k) for k in keep}
    return r


def run(binary, files, inputs, args=(), **kw):
    d = tempfile.mkdtemp(prefix="pv", dir=SCRATCH)
    try:
        write_files(d, files)
        return run_in(d, binary, inputs, args, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SYMLINE = re.compile(rb"^\s*(\S+)\s+=?\s*\$?([0-9A-Fa-f]+)")


def branch_warnings(r):
    return len(re.findall(rb"Branch out of range, creating jmp", r.err))
