"""The parts of the checks that are not programs run through Asm: the command line, the processor, the containers
and the converter of line ends."""
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

import compare
import engine
import runpasm
from prog import *


# ---------------------------------------------------------------- the processor
def _assemble(a):
    pasm, src, args = a
    r = runpasm.run(pasm, {"a.asm": src}, ["a.asm"], args, outputs=("o.bin", None, None), timeout=10)
    return src, r


def run_on_cpu(c, name, cases):
    """cases: (source, arguments, flags, meaning).  The object files have to do what the sources mean."""
    t = time.time()
    srcs = sorted({(c.pasm, s, tuple(a)) for s, a, _, _ in cases})
    bins = {}
    for (src, r), key in zip(engine.parallel(_assemble, srcs, chunk=8), range(len(srcs))):
        bins[src] = r
    js, keep = [], []
    for s, a, f, m in cases:
        r = bins[s]
        if r.rc != 0 or r.bin is None:
            c.fail("rejected: exit %d" % r.rc, name, {"a.asm": s}, "pasm %s -o o.bin a.asm" % " ".join(a), r.brief())
        js.append({"org": 0x1000, "bytes": list(r.bin), "flags": f, "means": m})
        keep.append((s, a, r, m))
    n = 0
    for lo in range(0, len(js), 2000):
        reps = c.spec_on("Cpu", "Cpu.cfg", "CPU_INPUT", js[lo:lo + 2000])
        n += len(reps)
        for x in reps:
            if not x["ok"]:
                s, a, r, m = keep[lo + x["case"] - 1]
                c.fail("the object file does something else: store %d of %d is %s, the source means %s (%s after %d steps)" % (
                    x["log"], x["all"], x["got"], x["means"], x["st"], x["steps"]), name,
                    {"a.asm": s, "o.bin": r.bin}, "pasm %s -o o.bin a.asm" % " ".join(a), json.dumps(m))
    if n != len(js):
        raise engine.tlc.TlcError("%d of %d cases came back" % (n, len(js)))
    c.programs += len(srcs)
    c.ok += len(srcs)
    c.stage(name, "%d object files run by the specification of the processor" % len(js), n, t)


MARK = {"x": "\tstx $f0\n", "y": "\tsty $f1\n"}
MEAN = {"x": {"o": "mark", "r": "x", "at": 0xF0}, "y": {"o": "mark", "r": "y", "at": 0xF1}}
FLAGS = [{"n": n, "v": v, "z": z, "c": k} for n in (False, True) for v in (False, True)
         for z in (False, True) for k in (False, True)]


def _pad(n):
    """n + 3 bytes that do nothing"""
    return "\tjmp *+%d\n\t.fill 0, %d\n" % (n + 3, n) if n else ""


def reg_source(r, a, b, up, inner, ind=""):
    return "%s\t.for .reg%s = %s %s %s\n%s%s\t.next %s\n" % (ind, r, a, ".to" if up else ".downto", b, inner, ind, r)


def reg_loops(c, bounds, pads):
    cases = []
    for r in "xy":
        for a, b in bounds:
            for up in (True, False):
                lo, hi = (a, b) if up else (b, a)
                if not up and hi == 0:
                    lo, hi = b, a
                if not up and hi < 1:
                    continue    # down to 0 is a known finding
                for k, pad in enumerate(pads):
                    if pad and (a + b + k) % 3:
                        continue
                    s, e = (lo, hi)
                    src = reg_source(r, "$%x" % s, "e1" if (a + b) % 2 else "%d" % e, up, MARK[r] + _pad(pad)) + "\tbrk\ne1 = %d\n" % e
                    m = [{"o": "for", "r": r, "a": s, "b": e, "up": up, "body": [MEAN[r]]}]
                    for f in (FLAGS[0], FLAGS[15]) if b - a < 50 else (FLAGS[(a + b) % 16],):
                        cases.append((src, (), f, m))
    run_on_cpu(c, "register loops", cases)
    cases = []
    for (a, b) in ((1, 3), (4, 2), (0, 1), (3, 3)):
        for (p, q) in ((1, 2), (2, 1), (5, 3), (250, 255)):
            for r1, r2 in ("xy", "yx"):
                for pad in (0, 130):
                    src = reg_source(r1, a, b, a <= b, MARK[r1] + reg_source(r2, p, q, p <= q, MARK[r2] + MARK[r1] + _pad(pad)) + MARK[r1]) \
                        + reg_source(r1, p, q, p <= q, MARK[r1]) + "\tbrk\n"
                    m = [{"o": "for", "r": r1, "a": a, "b": b, "up": a <= b, "body": [MEAN[r1], {
                        "o": "for", "r": r2, "a": p, "b": q, "up": p <= q, "body": [MEAN[r2], MEAN[r1]]}, MEAN[r1]]},
                        {"o": "for", "r": r1, "a": p, "b": q, "up": p <= q, "body": [MEAN[r1]]}]
                    cases.append((src, (), FLAGS[5], m))
    run_on_cpu(c, "register loops inside of register loops", cases)


def branches_run(c, distances):
    cases = []
    for m in ("bcc", "bcs", "bne", "beq", "bpl", "bmi", "bvc", "bvs", "bra"):
        args = ("-65c02",) if m == "bra" else ()
        mean = [{"o": "jump", "m": m, "t": 0xF0, "e": 0xF1}]
        for n in distances:
            # forward, backward, and forward over another branch that may be a long one
            fwd = "\t%s far\n\tstx $f1\n\tbrk\n\t.fill 0, %d\nfar\n\tstx $f0\n\tbrk\n" % (m, n)
            back = "\tjmp st\nbk\tstx $f0\n\tbrk\n\t.fill 0, %d\nst\n\t%s bk\n\tstx $f1\n\tbrk\n" % (n, m)
            over = "\t%s f2\n\tstx $f1\n\tbrk\n\t.fill 0, %d\n\t%s f2\n\t.fill 0, %d\nf2\n\tstx $f0\n\tbrk\n" % (m, n // 2, m, n - n // 2)
            for src in (fwd, back, over):
                for f in (FLAGS[0], FLAGS[5], FLAGS[10], FLAGS[15]) if c.quick else FLAGS:
                    cases.append((src, args, f, mean))
    run_on_cpu(c, "branches near and far", cases)


# ---------------------------------------------------------------- the command line
CLI_FILES = {
    "a.asm": [data(1, num(0xA1)), ifdef("k", [data(2, sym("k"))])],
    "b.asm": [data(1, num(0xB1)), inc("y.inc", [])],
    "c.asm": [ins("phx"), data(1, num(0xC1))],
    "d.asm": [ins("slo", "dir", num(0x10)), data(1, num(0xD1))],
    "e.asm": [ins("bne", "dir", bop(pc(), "+", num(300))), data(1, num(0xE1))],
    "d1/x.asm": [data(1, num(0x11))],
    "d2/x.asm": [data(1, num(0x12))],
    "d2/z.asm": [data(1, num(0x13)), inc("y.inc", [])],
    "d1/y.inc": [data(1, num(0x21))],
    "d2/y.inc": [data(1, num(0x22))],
}
CLI_DIRS = {"d1/": ["d1/"], "d2/": ["d2/"], "d2/;d1/": ["d2/", "d1/"], "no/;d1/; d2/": ["no/", "d1/", "d2/"], "d1": ["d1"]}
CLI_VALUES = {"5": 5, "$1F": 31, "%101": 5, "0x2a": 42, "0b11": 3, "65535": 65535, "0": 0, "$ff": 255, "0100": 100}


def _cli_run(a):
    pasm, args, files, outs = a
    d = tempfile.mkdtemp(prefix="pv")
    try:
        runpasm.write_files(d, files)
        before = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                before[os.path.relpath(p, d)] = open(p, "rb").read()
        r = runpasm.run_in(d, pasm, args, outputs=(None, None, None), timeout=10)
        after = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                after[os.path.relpath(p, d)] = open(p, "rb").read()
        r.files = {k: v for k, v in after.items() if before.get(k) != v}
        gone = [k for k in before if k not in after]
        return args, r, gone
    finally:
        shutil.rmtree(d, ignore_errors=True)


def respell(rng, args, values):
    """options are the same in any case, and with / in place of -"""
    out = []
    for w in args:
        if w.startswith("-") and len(w) > 1 and w not in values:
            w = rng.choice("-/") + "".join(rng.choice([x.lower(), x.upper()]) for x in w[1:])
        out.append(w)
    return out


def command_lines(c, name, words, top, must=None, respelled=True):
    t = time.time()
    reps = c.spec_on("Cli", "Cli.cfg", "CLI_INPUT", {
        "words": words, "max": top, "files": sorted(CLI_FILES), "dirs": CLI_DIRS, "values": CLI_VALUES,
        })
    if must:
        reps = [r for r in reps if must(r)]
    judge_command_lines(c, name, reps, t, respelled)


def judge_command_lines(c, name, reps, t, respelled=True):
    reps = [r for r in reps if not r["clash"]]
    # what the programs do is Asm's part
    memo, progs = {}, []
    for r in reps:
        r["key"] = None
        if r["res"] != "run" or "" in r["opened"] or not all(f.endswith(".asm") for f in r["opened"]):
            continue
        if r["cpu"] == "65c02" and "d.asm" in r["opened"]:
            r["key"] = "skip"
            continue
        defs = {}
        for x in r["d"]:
            defs[x["n"].lower()] = x
        key = json.dumps([r["opened"], r["cpu"], r["ill"], r["nowarn"], r["c64"], sorted((n, x["v"]) for n, x in defs.items()),
                          r.get("dirs")])
        r["key"] = key
        if key not in memo:
            inc_at = None
            if any(f in ("b.asm", "d2/z.asm") for f in r["opened"]):
                inc_at = r["yinc"]
            if inc_at == "":
                memo[key] = "error"
                continue
            mains = []
            for n, f in enumerate(r["opened"]):
                ss = [s for s in CLI_FILES[f] if s["o"] != "inc"]
                if len(ss) != len(CLI_FILES[f]):
                    ss = ss + CLI_FILES[inc_at]
                mains.append(("m%d.asm" % n, ss))
            memo[key] = len(progs)
            progs.append(Program(mains, opts(r["cpu"], r["ill"], r["nowarn"], r["c64"],
                                             [(x["n"].lower(), x["v"]) for x in defs.values()])).lower())
    outs = c.model_programs(progs) if progs else {}
    files = {}
    for f, ss in CLI_FILES.items():
        p = Program([(f, [s for s in ss if s["o"] != "inc"])])
        p.lower()
        files[f] = p.files[f] + ("\t.inc \"y.inc\"\n" if any(s["o"] == "inc" for s in ss) else "")
    jobs, want = [], {}
    for r in reps:
        if r["key"] == "skip":
            continue
        rng = c.rng("respell", r["args"])
        values = {r["args"][j + 1] for j in range(len(r["args"]) - 1) if r["args"][j] in ("-o", "-s", "-l", "-log", "-dir", "-d")}
        args = respell(rng, r["args"], values) if respelled and rng.random() < 0.4 else list(r["args"])
        want[tuple(args)] = r
        jobs.append((c.pasm, args, files, None))
    n = [0]

    def judge(res):
        args, act, gone = res
        r = want[tuple(args)]
        n[0] += 1
        bad = cli_wrong(r, act, gone, memo, outs)
        if bad:
            # once more, alone
            _, act, gone = _cli_run((c.pasm, args, files, None))
            bad = cli_wrong(r, act, gone, memo, outs)
            if bad:
                import shlex
                c.fail(bad, name, files, "pasm " + " ".join(shlex.quote(a) for a in args), json.dumps(r) + "\n" + act.brief())
        return False
    for res in engine.parallel(_cli_run, jobs, chunk=16, harmless=c.pasm):
        judge(res)
    c.programs += len(jobs)
    c.stage(name, "%d command lines" % len(jobs), n[0], t)


def cli_wrong(r, act, gone, memo, outs):
    if act.timeout or act.rc < 0 or act.rc in (134, 136, 139):
        return "pasm crashed or did not end: %d" % act.rc
    if gone:
        return "files are gone: %s" % gone
    if r["res"] == "help":
        if act.rc != 0 or b"-o outputfile" not in act.out:
            return "help: exit %d" % act.rc
        return "help, but files were written: %s" % sorted(act.files) if act.files else None
    if r["res"] == "wrong":
        if act.rc == 0:
            return "a wrong command line is accepted"
        if not act.err.strip():
            return "a wrong command line is rejected without a message"
        return "wrong, but files were written: %s" % sorted(act.files) if act.files else None
    m = memo.get(r["key"]) if r["key"] else "error"
    rep = None
    if m != "error":
        rep = outs.get(m)
        if rep is None or rep["res"] == "undefined":
            return None
    if m == "error" or rep["res"] == "error":
        if act.rc == 0:
            return "accepted, but an input file cannot be assembled"
        if not act.err.strip():
            return "rejected without a message"
        return None
    if act.rc != 0:
        return "rejected (%d): %s" % (act.rc, act.err[:200].decode("latin1"))
    expect = {r[k] for k in ("out", "sym", "lst", "log")} - {""}
    if set(act.files) != expect:
        return "files written: %s, expected %s" % (sorted(act.files), sorted(expect))
    if r["out"]:
        o = compare.expected_object(rep)
        if act.files[r["out"]] != o:
            return "object file: %s, expected %s" % (act.files[r["out"]].hex(), o.hex())
        if ("%d bytes written to %s" % (len(o), r["out"])).encode() not in act.out:
            return "the number of bytes written is not reported"
    if r["sym"]:
        got = compare.parse_symbols(act.files[r["sym"]].decode("latin1"))
        low = {k.lower(): v for k, v in got.items()}
        for x in rep["syms"]:
            if x["k"] == "sym" and x["i"] and x["n"].lower() not in low and not x["n"].startswith("-") and "." not in x["n"]:
                return "%s is missing in the symbol file" % x["n"]
    if r["lst"]:
        g = compare.flat(compare.listing_rows(act.files[r["lst"]].decode("latin1")))
        e = [((w["pc"] + i) & 0xFFFF, b) for w in rep["rows"] if w["l"] for i, b in enumerate(w["b"])]
        if g != e:
            return "listing: %s, expected %s" % (g[:8], e[:8])
    if rep["warned"] != compare.branch_warnings(act):
        return "%d warnings, expected %d" % (compare.branch_warnings(act), rep["warned"])
    if r["verbose"] != (b"Pass 1" in act.out):
        return "verbose output is %s" % ("missing" if r["verbose"] else "there")
    return None


# ---------------------------------------------------------------- the containers
def containers(c, cfg):
    t = time.time()
    binary = os.path.join(c.dir, "containers")
    if not os.path.exists(binary):
        c.assumptions.append("the interfaces of the containers have changed, they are only seen through programs")
        return
    reps = c.spec("Containers", cfg)
    text = "".join("new %s\n%s\nend\n" % (r["kind"], "\n".join(r["ops"])) for r in reps)
    try:
        p = subprocess.run([binary], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out = p.stdout.decode().split("\n")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode().split("\n"), -9
    for i, r in enumerate(reps):
        got = [int(x) for x in out[i].split()] if i < len(out) else []
        if got != r["answers"]:
            j = 0
            while j < min(len(got), len(r["answers"])) and got[j] == r["answers"][j]:
                j += 1
            c.fail("%s: the answers to %s are %s, expected %s (exit %d)" % (
                r["kind"], r["ops"], got, r["answers"], rc), "containers",
                {"ops.txt": "new %s\n%s\nend\n" % (r["kind"], "\n".join(r["ops"]))}, "containers < ops.txt")
    if rc != 0:
        c.fail("the containers crashed, exit %d" % rc, "containers", {}, "containers")
    c.programs += len(reps)
    c.samples += [{"stage": "containers", "operations": r["ops"], "answers": r["answers"]} for r in reps[1000:3000:700]]
    c.stage("containers", "%d histories of operations on the dictionary and the stack" % len(reps), len(reps), t)


# ---------------------------------------------------------------- the ends of lines
PRINTABLE = range(32, 127)
OTHER = [b for b in range(256) if b not in PRINTABLE and b not in (10, 13)]


def _short(b):
    return b if b is None or len(b) < 200 else b[:90] + b"..." + b[-90:]


RUNS = (100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 66000)


def _printable(rng):
    """a run of characters that can be printed"""
    n = rng.randint(1, 3) if rng.random() < 0.96 else rng.choice(RUNS)
    return bytes(rng.choices(PRINTABLE, k=n))


def line_ends(c, cfg):
    t = time.time()
    binary = os.path.join(c.dir, "eolconvert")
    reps = c.spec("Eol", cfg)
    rng = c.rng("characters")
    d = tempfile.mkdtemp(prefix="pv")
    try:
        work = os.path.join(d, "b1", "b2")
        samples = os.path.join(d, "CMakePasm", "samples")
        sub = os.path.join(samples, "sub", "deeper")
        os.makedirs(work)
        os.makedirs(sub)
        for i, r in enumerate(reps):
            p = os.path.join([samples, os.path.join(samples, "sub"), sub][i % 3], "t%d.asm" % i)
            a = [_printable(rng) if x == "a" else bytes([{"b": rng.choice(OTHER), "r": 13, "n": 10}[x]]) for x in r["text"]]
            r["src"] = b"".join(a)
            # the characters of the result are those of the text, in the same order
            keep = [x for x, k in zip(a, r["text"]) if k in "ab"]
            if "b" in r["text"]:
                r["want"] = r["src"]
            else:
                it = iter(keep)
                r["want"] = b"".join(b"\n" if k == "n" else next(it) for k in r["out"])
            with open(p, "wb") as f:
                f.write(r["src"])
            r["path"] = p
        try:
            p = subprocess.run([binary], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=500)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        if rc != 0:
            c.fail("the converter ended with %d" % rc, "ends of lines", {}, "eolconvert")
        for r in reps:
            try:
                with open(r["path"], "rb") as f:
                    got = f.read()
            except OSError:
                got = None
            if got != r["want"]:
                c.fail("%r becomes %r, expected %r" % (_short(r["src"]), _short(got), _short(r["want"])), "ends of lines", {"t.asm": r["src"]},
                       "eolconvert (in a directory two below CMakePasm, t.asm in CMakePasm/samples)")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.programs += len(reps)
    c.samples += [{"stage": "ends of lines", "text": "".join(r["text"]), "becomes": "".join(r["out"])} for r in reps[500:4000:1500]]
    c.stage("ends of lines", "every file of the specification's length", len(reps), t)


def _tree(a):
    binary, r = a
    d = tempfile.mkdtemp(prefix="pv")
    text, raw = b"x\r\ny\rz", b"a\0\r\n"
    try:
        work = os.path.join(d, "b1", "b2")
        os.makedirs(work)
        paths = {0: os.path.join(d, "CMakePasm")}
        want = {}
        for i, above in enumerate(r["above"]):
            p = os.path.join(paths[above], "samples" if i == 0 else "d%d" % i)
            paths[i + 1] = p
            os.makedirs(p)
            for h in r["holds"][i]:
                n = os.path.join(p, {"text": "t.asm", "raw": "r.prg", "empty": "e.inc"}[h])
                with open(n, "wb") as f:
                    f.write({"text": text, "raw": raw, "empty": b""}[h])
                want[n] = {"text": b"x\ny\nz" if i + 1 in r["converted"] else text, "raw": raw, "empty": b""}[h]
        try:
            rc = subprocess.run([binary], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20).returncode
        except subprocess.TimeoutExpired:
            rc = -9
        if rc != 0:
            return r, "the converter ended with %d" % rc
        got = {}
        for p, _, fs in os.walk(os.path.join(d, "CMakePasm")):
            for n in fs:
                with open(os.path.join(p, n), "rb") as f:
                    got[os.path.join(p, n)] = f.read()
        bad = [n for n in set(want) | set(got) if want.get(n) != got.get(n)]
        if bad:
            return r, "%s: %r, expected %r" % (os.path.relpath(bad[0], d), got.get(bad[0]), want.get(bad[0]))
        return r, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def line_end_trees(c, cfg):
    t = time.time()
    reps = c.spec("EolTree", cfg)
    binary = os.path.join(c.dir, "eolconvert")
    for r, why in engine.parallel(_tree, [(binary, r) for r in reps]):
        if why:
            c.fail(why, "trees of directories", {"tree.json": json.dumps(r)}, "eolconvert")
    c.programs += len(reps)
    c.stage("trees of directories", "every tree of the specification's size, every content of its directories", len(reps), t)


# ---------------------------------------------------------------- any text at all
TOKENS = [".if", ".else", ".endif", ".ifdef", ".macro m", ".endm", ".section s", ".ends", ".repeat", ".until 1", ".byte", ".word",
          "lda", "#", "(", ")", ",", "x", "y", "a", "*", "=", "+", "-", "<", ">", "@l", "\"", "'", "\\1", "\\", "$", "%", "$zz",
          "0x", "1", "65536", "99999999999", ";", "//", "/*", "*/", ":", ".", "..", ".org", ".ds", ".fill", ".str", ".for", ".next x",
          ".regx", ".to", ".downto", ".while 0", ".wend", ".do", ".enddo", ".endrep", ".var v", ".print", ".inc \"a.asm\"x",
          ".load \"no\"", ".end", "label", "label:", "s.label", "&&", "!", "~", "not", "\x80", "\t", "{", "}", "`", "^", "|", "::", "\x01"]


def mutate(rng, text):
    """a text that is probably no program any more"""
    lines = text.split("\n")
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.randrange(8)
        i = rng.randrange(len(lines))
        if k == 0:
            del lines[i]
            lines = lines or [""]
        elif k == 1:
            lines.insert(i, rng.choice(TOKENS) + " " + rng.choice(TOKENS))
        elif k == 2:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k == 3:
            ln = lines[i]
            p = rng.randint(0, len(ln))
            lines[i] = ln[:p] + rng.choice(TOKENS) + ln[p:]
        elif k == 4 and lines[i]:
            p = rng.randrange(len(lines[i]))
            lines[i] = lines[i][:p] + lines[i][p + 1:]
        elif k == 5:
            w = lines[i].split(" ")
            w[rng.randrange(len(w))] = rng.choice(TOKENS)
            lines[i] = " ".join(w)
        elif k == 6:
            lines[i] = lines[i][:rng.randint(0, len(lines[i]))]
        elif k == 7:
            lines.insert(i, lines[rng.randrange(len(lines))])
    return "\n".join(lines)


def _text_run(a):
    pasm, files, key = a
    r = runpasm.run(pasm, files, ["a.asm"], (), timeout=5)
    return key, r


def lawful_record(r):
    m = compare.WRITTEN.search(r.out.decode("latin1"))
    err = r.err.decode("latin1")
    import re
    e = re.search(r"^(\d+) error\(s\)", err, re.M)
    return {"exit": r.rc if 0 <= r.rc < 256 and r.rc not in (134, 136, 139) and not r.timeout else -1,
            "messages": len([x for x in err.split("\n") if x.strip()]), "errors": int(e.group(1)) if e else 0,
            "object": len(r.bin) if r.bin is not None else -1, "told": int(m.group(1)) if m else -1}


LOOPS = (".repeat", ".while", ".do", ".for", ".until", ".enddo", ".step", ".reg")


def broken_text(c, seconds):
    import gens
    end = time.time() + seconds
    rounds = 0
    total = 0
    t = time.time()
    skipped = 0
    while rounds < 1 or time.time() < end:
        jobs = {}
        for i in range(600):
            rng = c.rng("text", rounds, i)
            g = gens.Gen(rng, size=10, mains=0, weights={"section": 1.5, "macro": 1.5, "call": 2, "cond": 2, "ifdef": 1.5, "loop": 0.7})
            p = g.program()
            p.lower()
            files = dict(p.files)
            if rng.random() < 0.1 or "a.asm" not in files:
                files["a.asm"] = "".join(rng.choice(TOKENS) + rng.choice(" \n\n") for _ in range(rng.randint(1, 40)))
            else:
                files["a.asm"] = mutate(rng, files["a.asm"])
            jobs["%d/%d" % (rounds, i)] = files
        runs, keys = [], []
        for key, r in engine.parallel(_text_run, [(c.pasm, f, k) for k, f in jobs.items()], chunk=8):
            if r.timeout and any(x in jobs[key]["a.asm"].lower() for x in LOOPS):
                skipped += 1        # a loop that does not come to an end
                continue
            runs.append(lawful_record(r))
            keys.append((key, r))
        reps = c.spec_on("Outcome", "Outcome.cfg", "RUNS_INPUT", runs)
        if len(reps) != len(runs):
            raise engine.tlc.TlcError("%d of %d runs came back" % (len(reps), len(runs)))
        for x in reps:
            if x["state"] == "unlawful":
                key, r = keys[x["i"] - 1]
                _, r2 = _text_run((c.pasm, jobs[key], key))
                if lawful_record(r2) == runs[x["i"] - 1]:
                    c.fail("a run that is neither accepted nor rejected: %s" % runs[x["i"] - 1], "any text",
                           jobs[key], "pasm -o o.bin -s s.sym -l l.lst a.asm", r2.brief())
            elif x["state"] == "accepted":
                c.ok += 1
            else:
                c.errors += 1
        total += len(runs)
        rounds += 1
    c.programs += total
    c.stage("any text", "%d texts (%d more with loops that do not end)" % (total, skipped), total, t)


# ---------------------------------------------------------------- files that cannot be read or written
FILE_TEXTS = (
    {"a.asm": "\tnop\n\t.inc \"y.inc\"\n\t.load \"z.bin\"\nlb\tlda lb\n", "y.inc": "\tinx\n", "z.bin": b"\1\2\3"},
    {"a.asm": "l0\tjmp l0\n" + "".join("l%d\t.byte %d\n\tjmp l%d\n" % (i, i % 256, i - 1) for i in range(1, 1500)) +
        "\t.load \"z.bin\"\n\t.inc \"y.inc\"\n\t.fill 1, 5000\n", "y.inc": "\tinx\n" * 9, "z.bin": bytes(range(256)) * 40},
)
IN_FILES = {"main": "a.asm", "include": "y.inc", "load": "z.bin"}
OUT_FILES = {"object": ("-o", "o.bin"), "listing": ("-l", "l.lst"), "symbols": ("-s", "s.sym")}


def _files_run(a):
    pasm, key, texts, way, limit = a
    d = tempfile.mkdtemp(prefix="pv")
    try:
        files = dict(texts)
        for f, n in IN_FILES.items():
            if way[f] in ("missing", "directory"):
                files.pop(n)
            if way[f] == "directory":
                os.mkdir(os.path.join(d, n))
        runpasm.write_files(d, files)
        for f, n in IN_FILES.items():
            if way[f] == "locked":
                os.chmod(os.path.join(d, n), 0)
        args, paths = [], {}
        for f, (o, n) in OUT_FILES.items():
            if way[f] == "none":
                continue
            paths[f] = os.path.join(d, n)
            if way[f] == "directory":
                os.mkdir(paths[f])
            elif way[f] == "nowhere":
                n = "no/" + n
            elif way[f] == "full":
                n = "/dev/full"
            elif way[f] == "locked":
                open(paths[f], "w").close()
                os.chmod(paths[f], 0o400)
            args += [o, n]
        r = runpasm.run_in(d, pasm, ["a.asm"], args, outputs=(None, None, None), timeout=10, limit=limit)
        r.files = {}
        for f, p in paths.items():
            r.files[f] = open(p, "rb").read() if way[f] == "fine" and os.path.isfile(p) else None
        return key, args, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _nobody(_):
    return os.geteuid()


def file_troubles(c, lengths=2):
    t = time.time()
    fine = {f: "fine" for f in list(IN_FILES) + list(OUT_FILES)}
    worlds, whole = [], []
    texts = FILE_TEXTS[:lengths]
    for i, (_, _, r) in enumerate(_files_run((c.pasm, i, x, fine, -1)) for i, x in enumerate(texts)):
        if r.rc != 0 or None in r.files.values():
            c.fail("rejected: exit %d" % r.rc, "files", texts[i], "pasm -o o.bin -l l.lst -s s.sym a.asm", r.brief())
        worlds.append({f: len(x) for f, x in r.files.items()})
        whole.append(r.files)
    root = engine.parallel(_nobody, [0], harmless=c.pasm)[0] == 0
    ins = ["fine", "missing", "directory"] + ([] if root else ["locked"])
    outs = ["none", "fine", "nowhere", "directory"] + ([] if root else ["locked"]) + (["full"] if os.path.exists("/dev/full") else [])
    reps = c.spec_on("Files", "Files.cfg", "FILES_INPUT", {"worlds": worlds, "inways": ins, "outways": outs})
    # of the runs with an input that cannot be read a part is enough
    keep = [x for j, x in enumerate(sorted(reps, key=lambda x: json.dumps(x, sort_keys=True)))
            if all(x["way"][f] == "fine" for f in IN_FILES) or j % (7 if c.quick else 1) == 0]
    jobs = [(c.pasm, j, texts[x["w"] - 1], x["way"], x["limit"]) for j, x in enumerate(keep)]
    for j, args, r in engine.parallel(_files_run, jobs, harmless=c.pasm):
        x = keep[j]
        bad = None
        if r.crashed:
            bad = "ended by a signal or not at all"
        elif (r.rc == 0) != (x["res"] == "accepted"):
            bad = "exit %d, has to be %s" % (r.rc, x["res"])
        elif r.rc != 0 and not r.err.strip():
            bad = "no message"
        elif r.rc == 0:
            for f, b in r.files.items():
                if b != whole[x["w"] - 1][f]:
                    bad = "the %s is not whole" % f
        if bad:
            c.fail("%s (%s%s)" % (bad, ", ".join("%s %s" % (f, v) for f, v in x["way"].items() if v not in ("fine", "none")),
                                  ", files of at most %d bytes" % x["limit"] if x["limit"] >= 0 else ""), "files", texts[x["w"] - 1],
                   "pasm %s a.asm" % " ".join(args), r.brief())
    c.programs += len(keep)
    c.ok += sum(x["res"] == "accepted" for x in keep)
    c.errors += sum(x["res"] != "accepted" for x in keep)
    c.stage("files that cannot be read or written", "%d runs" % len(keep), len(keep), t)


# ---------------------------------------------------------------- long command lines
def long_lines(c, seconds):
    t0 = time.time()
    n = 0
    while n < 1 or time.time() - t0 < seconds:
        t = time.time()
        lines = []
        for i in range(150):
            r = c.rng("lines", n, i)
            parts = [["-o", r.choice(["o1", "out.bin"])]]
            for o, f in (("-s", "s1"), ("-l", "l1"), ("-log", "g1")):
                if r.random() < 0.4:
                    parts.append([o, f])
            if r.random() < 0.6:
                parts.append(["-dir", r.choice(sorted(CLI_DIRS))])
            for f in ("-c64", "-v", "-nowarn", "-i"):
                if r.random() < 0.3:
                    parts.append([f])
            if r.random() < 0.4:
                parts.append([r.choice(["-65c02", "-6502"])])
            for _ in range(r.randint(0, 3)):
                parts.append(["-d", r.choice(["k", "K", "q", "z9"]), r.choice(sorted(CLI_VALUES))])
            for _ in range(r.randint(1, 3)):
                parts.append([r.choice(["a.asm", "a.asm", "b.asm", "e.asm", "x.asm", "x.asm", "z.asm", "c.asm", "d.asm"])])
            if r.random() < 0.08:
                parts.append(list(r.choice(parts)))
            if r.random() < 0.03:
                parts.append([r.choice(["-?", "-h"])])
            r.shuffle(parts)
            args = [w for p in parts for w in p]
            if r.random() < 0.05:
                args = args[:-1]
            lines.append(args)
        reps = c.spec_on("Cli", "CliLines.cfg", "CLI_INPUT", {
            "words": [], "max": 0, "lines": lines, "files": sorted(CLI_FILES), "dirs": CLI_DIRS, "values": CLI_VALUES})
        judge_command_lines(c, "long command lines", reps, t)
        n += 1


# ---------------------------------------------------------------- determinism
def _twice(a):
    pasm, files, mains, args, key = a
    res = []
    for k in range(3):
        d = tempfile.mkdtemp(prefix="pv" + "x" * (k * 17))
        try:
            runpasm.write_files(d, files)
            env = dict(os.environ)
            if k == 1:
                env = {"PATH": "/nowhere", "LANG": "tr_TR.UTF-8", "JUNK": "x" * 5000, "MALLOC_PERTURB_": "165"}
            if k == 2:
                env["MALLOC_PERTURB_"] = "90"
                env["MALLOC_ARENA_MAX"] = "1"
            # what an earlier run has left must not matter
            if k == 2:
                runpasm.write_files(d, {"o.bin": b"left over" * 1000, "s.sym": b"left over" * 1000, "l.lst": b"left over" * 1000})
            r = runpasm.run_in(d, pasm, mains, args, timeout=10, env=env)
            res.append((r.rc, r.out, r.err) + ((r.bin, r.sym, r.lst) if r.rc == 0 else ()))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return key, res


def twice(c, programs, texts):
    """the specification gives every program one behaviour: so does pasm, wherever it runs"""
    t = time.time()
    jobs = []
    for i, p in enumerate(programs):
        p.lower()
        jobs.append((c.pasm, p.files, [n for n, _ in p.mains], p.args(), i))
    for i, res in engine.parallel(_twice, jobs):
        if any(r != res[0] for r in res):
            k = [j for j in range(3) if res[j] != res[0]][0]
            what = [n for n, x, y in zip(("exit", "output", "messages", "object", "symbols", "listing"), res[0], res[k]) if x != y]
            c.fail("the same program, run again, has another %s" % ", ".join(what), "three runs", programs[i].files,
                   "pasm -o o.bin -s s.sym -l l.lst " + " ".join(programs[i].args()), repr(res[0])[:1500] + "\n\n" + repr(res[k])[:1500])
    # texts that are no programs, and names of files in all lengths
    jobs = []
    import gens
    for i in range(texts):
        r = c.rng("twice text", i)
        p = gens.Gen(r, size=8, mains=0, weights={"section": 1.5, "macro": 1.5, "call": 2, "cond": 2, "ifdef": 1.5, "loop": 0}).program()
        p.lower()
        files = dict(p.files)
        files["a.asm"] = mutate(r, files.get("a.asm", ""))
        if not any(x in files["a.asm"].lower() for x in LOOPS):
            jobs.append((c.pasm, files, ["a.asm"], p.args(), len(jobs)))
    for n in list(range(1990, 2060, 3)) + [2047, 2048, 3000, 4000, 4094, 4095, 4096, 4097, 5000, 9000]:
        x = ("d/" * n)[-n:] if n > 200 else "d" * n
        for t1 in ("\tnop\n\t.inc \"%s\"\n\tnop\n" % x, "\tnop\n\t.load \"%s\"\n\tnop\n" % x, "\tnop\n\tjmp %s\n" % x.replace("/", "_"),
                   "\tnop\n\t.byte 256 ;%s\n" % x):
            jobs.append((c.pasm, {"a.asm": t1}, ["a.asm"], ["-dir", "e/"] if n % 2 else [], len(jobs)))
        jobs.append((c.pasm, {"a.asm": "\tnop\n"}, ["a.asm", x], [], len(jobs)))
        jobs.append((c.pasm, {"a.asm": "\tnop\n"}, ["a.asm"], ["-dir", x], len(jobs)))
        jobs.append((c.pasm, {"a.asm": "\t.inc \"b.asm\"\n"}, ["a.asm"], ["-dir", x], len(jobs)))
        jobs.append((c.pasm, {"a.asm": "\tnop\n"}, ["a.asm"], ["-d", x.replace("/", "_"), "5"], len(jobs)))
    for i, res in engine.parallel(_twice, jobs):
        if any(r != res[0] for r in res):
            k = [j for j in range(3) if res[j] != res[0]][0]
            c.fail("the same text, run again, has another outcome", "three runs", jobs[i][1], " ".join(["pasm"] + jobs[i][2] + jobs[i][3])[:300],
                   repr(res[0])[:1500] + "\n\n" + repr(res[k])[:1500])
    c.programs += len(programs) + len(jobs)
    c.stage("three runs", "%d programs and other texts, run three times in different surroundings" % (len(programs) + len(jobs)),
            3 * (len(programs) + len(jobs)), t)


# ---------------------------------------------------------------- options that only ask for more files
VARIANTS = [((), ("o.bin", "s.sym", None)), ((), ("o.bin", None, "l.lst")), ((), ("o.bin", None, None)), (("-v",), ("o.bin", "s.sym", "l.lst")),
            (("-v", "-log", "g.log"), ("o.bin", "s.sym", "l.lst")), (("-log", "g.log"), ("o.bin", "s.sym", "l.lst")),
            (("-v",), ("o.bin", None, "l.lst")), (("-v",), ("o.bin", "s.sym", None)), (("-v",), ("o.bin", None, None))]


def _variants(a):
    pasm, files, inputs, args, i = a
    base = runpasm.run(pasm, files, inputs, args, timeout=10)
    for extra, outs in VARIANTS:
        r = runpasm.run(pasm, files, inputs, list(args) + list(extra), outputs=outs, timeout=10)
        what = None
        if r.rc != base.rc:
            what = "exit status %d instead of %d" % (r.rc, base.rc)
        elif base.rc == 0:
            for n, x, y in zip(("object file", "symbol file", "listing"), (r.bin, r.sym, r.lst), (base.bin, base.sym, base.lst)):
                if x is not None and x != y:
                    what = "another " + n
            for n, x in zip(("object file", "symbol file", "listing"), [o and (r.bin, r.sym, r.lst)[k] is None for k, o in enumerate(outs)]):
                if x:
                    what = "no " + n
            if r.err != base.err:
                what = "other messages"
            if extra and extra[0] == "-v" and not r.out.endswith(base.sym + base.lst):
                what = "-v shows other symbols or another listing than the files have"
            if not extra and r.out.split(b"\n", 1)[1:] != base.out.split(b"\n", 1)[1:]:
                what = "other output"
        if what:
            return i, what, extra, outs
    return i, None, (), ()


def variants(c, programs):
    """every output of a program is the same whatever other outputs are asked for"""
    t = time.time()
    jobs = []
    for i, p in enumerate(programs):
        p.lower()
        jobs.append((c.pasm, p.files, [n for n, _ in p.mains], p.args(), i))
    for i, what, extra, outs in engine.parallel(_variants, jobs):
        if what:
            again = _variants(jobs[i])
            if again[1]:
                c.fail("%s with %s" % (what, " ".join(list(extra) + [o for o in outs if o])), "other outputs", programs[i].files,
                       "pasm -o o.bin -s s.sym -l l.lst %s, and the same with %s and the files %s" % (
                           " ".join(programs[i].args()), " ".join(extra), " ".join(o for o in outs if o)))
    c.programs += len(programs)
    c.stage("other outputs", "%d programs, each with %d choices of outputs and options" % (len(programs), len(VARIANTS)),
            len(VARIANTS) * len(programs), t)
