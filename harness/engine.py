"""Runs the checks: programs go through the specification (TLC) and through pasm, and the two have to agree."""
import copy
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

import buildpasm
import compare
import gens
import reduce
import runpasm
import tlc
from prog import Program, Style, ins

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replay")
EXIT_OBJECT = ("exit", "object")

_cases = []     # of the run that is going on, inherited by the worker processes


class Violation(Exception):
    def __init__(self, what, path):
        super().__init__(what)
        self.what = what
        self.path = path


class Case:
    """one program, how it is written down, and what the specification says about it"""
    __slots__ = ("program", "style", "rep", "aspects", "exact", "extra", "outputs")

    def __init__(self, program, style, rep, aspects, exact=False, extra=(), outputs=("o.bin", "s.sym", "l.lst")):
        self.program, self.style, self.rep, self.aspects = program, style, rep, aspects
        self.exact, self.extra, self.outputs = exact, tuple(extra), outputs


def _style(seed):
    return Style(random.Random(seed)) if seed is not None else None


def run_case(binary, c):
    p = c.program
    p.lower(_style(c.style))
    act = runpasm.run(binary, p.files, [n for n, _ in p.mains], p.args() + list(c.extra), outputs=c.outputs,
                      timeout=10)
    return act, compare.differences(c.rep, act, gens.mentioned(p), c.aspects, c.exact, p)


def _limits():
    """a broken pasm may not take the machine along"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


NOBODY = 65534


def _harmless():
    _limits()
    os.setgroups([])
    os.setresgid(NOBODY, NOBODY, NOBODY)
    os.setresuid(NOBODY, NOBODY, NOBODY)


def _can_be_nobody(binary):
    """whether a user without rights could run it"""
    try:
        p = subprocess.run([binary], user=NOBODY, group=NOBODY, extra_groups=[], cwd="/", stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=10)
        return p.returncode not in (126, 127)
    except (OSError, ValueError, subprocess.SubprocessError):
        return False


def parallel(f, args, stop=None, chunk=None, harmless=None):
    """f of every argument, in 8 processes, as far as stop (called with every result) allows.  Where pasm may come to
    write files of any name (harmless: the path of pasm), it runs as a user without rights."""
    out = []
    init = _harmless if harmless and os.getuid() == 0 and _can_be_nobody(harmless) else _limits
    chunk = chunk or max(1, min(32, len(args) // 64))
    with multiprocessing.get_context("fork").Pool(8, init) as pool:
        for r in pool.imap_unordered(f, args, chunksize=chunk):
            out.append(r)
            if stop and stop(r):
                pool.terminate()
                break
    return out


def _worker(a):
    binary, i = a
    _, d = run_case(binary, _cases[i])
    return i, d


class Check:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.programs = 0
        self.undefined = 0
        self.ok = 0
        self.errors = 0
        self.passes = {}
        self.model_errors = []
        self.samples = []
        self.stages = []
        self.assumptions = []
        self.known = []
        self.dir = buildpasm.build()
        self.pasm = os.path.join(self.dir, "pasm")
        self.exhaustive = []

    def rng(self, *name):
        return random.Random("/".join([str(self.seed), self.prop] + [str(x) for x in name]))

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------ the specification
    def model(self, programs=(), alphabets=(), timeout=800):
        reps, st = tlc.outcomes(programs, alphabets, timeout=timeout)
        self.states += st["distinct"]
        self.transitions += st["states"]
        return reps

    def model_programs(self, js):
        """like model(), but programs that the specification cannot run are left out"""
        try:
            reps = self.model(js)
            return {r["p"] - 1: r for r in reps}
        except tlc.TlcError as e:
            if len(js) == 1:
                self.model_errors.append(str(e)[:400])
                return {}
            m = len(js) // 2
            r = self.model_programs(js[:m])
            r.update({k + m: v for k, v in self.model_programs(js[m:]).items()})
            return r

    # ------------------------------------------------------------ conformance
    def judge(self, cases, stage):
        global _cases
        _cases = cases
        bad = None
        failing = []
        bads = []

        def stop(r):
            if r[1]:
                bads.append(r)
            return len(bads) >= 20
        results = sorted(parallel(_worker, [(self.pasm, i) for i in range(len(cases))], stop)) if cases else []
        for i, d in results:
            r = cases[i].rep
            self.programs += 1
            if r["res"] == "undefined":
                self.undefined += 1
                continue
            self.validated += 1
            if r["res"] == "ok":
                self.ok += 1
            else:
                self.errors += 1
            k = str(r["pass"])
            self.passes[k] = self.passes.get(k, 0) + 1
            if d:
                failing.append((i, d))
        for i, d in failing:
            if self.confirm(cases[i], stage):
                bad = cases[i]
        return bad

    def confirm(self, c, stage):
        """raises Violation when the disagreement is there again"""
        js = c.program.lower(_style(c.style))
        try:
            reps, _ = tlc.outcomes([js])
        except tlc.TlcError as e:
            self.model_errors.append(str(e)[:400])
            return False
        if not reps:
            return False
        c = Case(c.program, c.style, reps[0], c.aspects, c.exact, c.extra, c.outputs)
        for _ in range(2):
            _, d = run_case(self.pasm, c)
            if not d:
                return False
        small = self.smaller(c)
        act, d = run_case(self.pasm, small)
        path = self.save(small, act, d, stage)
        raise Violation("; ".join("%s: %s" % x for x in sorted(d.items())), path)

    def smaller(self, c):
        end = time.time() + 40
        best = [c]

        def fails(ps):
            if time.time() > end:
                return None
            try:
                reps, _ = tlc.outcomes([q.lower(_style(c.style)) for q in ps])
            except tlc.TlcError:
                return None
            by = {r["p"] - 1: r for r in reps}
            for i, q in enumerate(ps):
                if i not in by:
                    continue
                n = Case(q, c.style, by[i], c.aspects, c.exact, c.extra, c.outputs)
                if by[i]["res"] == c.rep["res"] and run_case(self.pasm, n)[1]:
                    best[0] = n
                    return i
            return None
        try:
            reduce.reduce(c.program, fails)
        except Exception:
            pass
        return best[0]

    def save(self, c, act, d, stage):
        p = c.program
        p.lower(_style(c.style))
        blob = pickle.dumps((p.mains, p.opts, c.style, c.aspects, c.exact, c.extra, c.outputs))
        path = os.path.join(REPLAYS, "%s-%s" % (self.prop, hashlib.sha256(blob).hexdigest()[:10]))
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        runpasm.write_files(path, p.files)
        with open(os.path.join(path, "case.json"), "w") as f:
            json.dump({"mains": p.mains, "opts": p.opts, "style": c.style, "aspects": list(c.aspects),
                       "exact": c.exact, "extra": list(c.extra), "outputs": c.outputs}, f)
        with open(os.path.join(path, "README.txt"), "w") as f:
            f.write("stage: %s\ncommand: pasm -o o.bin -s s.sym -l l.lst %s\n\n" % (
                stage, " ".join(p.args() + list(c.extra) + [n for n, _ in p.mains])))
            for k, v in d.items():
                f.write("%s: %s\n" % (k, v))
            f.write("\nthe specification: %s\n\npasm:\n%s\n" % (json.dumps(c.rep)[:4000], act.brief()))
        return path

    def fail(self, what, stage, files=None, command="", detail=""):
        """a violation that is no single program: the files and the command to see it"""
        blob = json.dumps([what, command, sorted((k, str(v)) for k, v in (files or {}).items())]).encode()
        path = os.path.join(REPLAYS, "%s-%s" % (self.prop, hashlib.sha256(blob).hexdigest()[:10]))
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        runpasm.write_files(path, files or {})
        with open(os.path.join(path, "README.txt"), "w") as f:
            f.write("stage: %s\ncommand: %s\n\n%s\n\n%s\n" % (stage, command, what, detail))
        raise Violation(what, path)

    def stage(self, name, what, validated, t):
        self.validated += validated
        self.stages.append({"stage": name, "what": what, "validated": validated, "wall_s": round(time.time() - t, 1)})

    def spec(self, module, cfg, env=None, timeout=800):
        """runs another module of the specification and returns what it reports"""
        lines, st = tlc.run(module, cfg, env, timeout=timeout)
        self.states += st["distinct"]
        self.transitions += st["states"]
        return [json.loads(json.loads(ln)) for ln in lines if ln.startswith('"{')]

    def spec_on(self, module, cfg, var, data, timeout=800):
        """the same with input"""
        fd, path = tempfile.mkstemp(suffix=".json")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump(data, f)
            return self.spec(module, cfg, {var: path}, timeout)
        finally:
            os.unlink(path)

    def alphabet(self, name, letters, top=2, low=1, pre=(), post=(), opts=None, aspects=EXIT_OBJECT, exact=False,
                 styled=True, extra=()):
        """every sequence of letters of length low..top, between the statements of pre and post"""
        from prog import opts as mkopts
        o = opts or mkopts()
        k = len(letters)
        allst = list(letters) + list(pre) + list(post)
        j = Program(allst, o).lower()
        a = {"alpha": j["blocks"][0], "k": k, "pre": list(range(k + 1, k + 1 + len(pre))),
             "post": list(range(k + 1 + len(pre), k + 1 + len(pre) + len(post))),
             "min": low, "max": top, "blocks": j["blocks"], "opts": o}
        t = time.time()
        reps = self.model((), [a])
        want = sum(k ** n for n in range(low, top + 1))
        if len(reps) != want:
            raise tlc.TlcError("%d of %d programs of the alphabet %s came back" % (len(reps), want, name))
        cases = []
        for r in reps:
            seq = [letters[x - 1] for x in r["c"]]
            st = "%s/%s/%s" % (self.seed, name, r["c"]) if styled and (sum(r["c"]) + len(r["c"])) % 2 else None
            cases.append(Case(Program(list(pre) + seq + list(post), o), st, r, aspects, exact, extra))
        n0 = self.validated
        self.judge(cases, "alphabet " + name)
        self.exhaustive.append(name)
        self.note(name, "all %d sequences of %d..%d of %d statements" % (want, low, top, k), cases, t,
                  self.validated - n0)

    def batch(self, name, programs, aspects=EXIT_OBJECT, exact=False, styled=True, extra=(),
              outputs=("o.bin", "s.sym", "l.lst")):
        """the given programs"""
        t = time.time()
        n0 = self.validated
        for lo in range(0, len(programs), 4000):
            part = programs[lo:lo + 4000]
            styles = ["%s/%s/%d" % (self.seed, name, lo + i) if styled and i % 2 else None for i in range(len(part))]
            js = [p.lower(_style(s)) for p, s in zip(part, styles)]
            reps = self.model_programs(js)
            cases = [Case(part[i], styles[i], r, aspects, exact, extra, outputs) for i, r in sorted(reps.items())]
            self.judge(cases, name)
        self.note(name, "%d programs" % len(programs), cases if programs else [], t, self.validated - n0)

    def mend(self, programs, rounds):
        """replaces the statements that the specification says are wrong, as far as it takes no more than some rounds"""
        todo = list(range(len(programs)))
        for _ in range(rounds):
            js = [programs[i].lower() for i in todo]
            reps = self.model_programs(js)
            again = []
            for k, r in reps.items():
                p = programs[todo[k]]
                if r["res"] == "ok" or not r["path"]:
                    continue
                b, i = r["path"][-1]
                ss = p.lists[b]
                if not 1 <= i <= len(ss):
                    continue
                ss[i - 1] = ins("nop")
                again.append(todo[k])
            todo = again
            if not todo:
                break

    def random(self, name, seconds, aspects=EXIT_OBJECT, make=None, batch=100, exact=False, least=1, extra=(), mend=None, **kw):
        """random programs: as many as take about that many seconds, the same ones everywhere"""
        t = time.time()
        n0 = self.validated
        rounds = 0
        total = 0
        cases = []
        if mend is None:
            mend = 0 if self.quick else 3
        want = max(least, round(seconds * 20 / batch)) if self.quick else 10 ** 9
        while rounds < least or (rounds < want and time.time() - t < (4 if self.quick else 1) * seconds):
            ps = []
            for i in range(batch):
                rng = self.rng(name, rounds, i)
                ps.append(make(rng) if make else gens.Gen(rng, **kw).program())
            if mend:
                # two thirds of them are to be correct programs
                self.mend([ps[i] for i in range(batch) if i % 3], mend)
            styles = ["%s/%s/%d/%d" % (self.seed, name, rounds, i) if i % 2 else None for i in range(batch)]
            js = [p.lower(_style(s)) for p, s in zip(ps, styles)]
            reps = self.model_programs(js)
            cases = [Case(ps[i], styles[i], r, aspects, exact, extra) for i, r in sorted(reps.items())]
            self.judge(cases, name)
            rounds += 1
            total += batch
        self.note(name, "%d random programs" % total, cases, t, self.validated - n0)

    def note(self, name, what, cases, t, validated):
        self.stages.append({"stage": name, "what": what, "validated": validated, "wall_s": round(time.time() - t, 1)})
        for c in cases:
            if c.rep["res"] == "ok" and c.rep["rows"] and len(self.samples) < 12 and \
                    sum(1 for s in self.samples if s["stage"] == name) < 2:
                c.program.lower(_style(c.style))
                n = c.program.mains[0][0]
                self.samples.append({"stage": name, "source": c.program.files[n][:600],
                                     "object": compare.expected_object(c.rep).hex()[:200]})

    # ------------------------------------------------------------ the end
    def evidence(self, level, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "programs": self.programs, "accepted": self.ok, "rejected": self.errors,
               "outside_domain": self.undefined, "passes": self.passes, "stages": self.stages,
               "enumerated_completely": self.exhaustive, "samples": self.samples or [{"stage": "none"}]}
        if self.model_errors:
            cov["programs_the_specification_could_not_run"] = self.model_errors[:5]
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 1), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")


def replay(path):
    """runs a saved case again"""
    with open(os.path.join(path, "case.json")) as f:
        j = json.load(f)
    d = buildpasm.build()
    p = Program([tuple(x) for x in j["mains"]], j["opts"])
    js = p.lower(_style(j["style"]))
    rep = tlc.outcomes([js])[0][0]
    act, diff = run_case(os.path.join(d, "pasm"), Case(p, j["style"], rep, tuple(j["aspects"]), j["exact"], j["extra"],
                                                       tuple(j["outputs"])))
    print(json.dumps(diff, indent=1))
    print(act.brief())
    return 1 if diff else 0
