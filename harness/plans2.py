"""What the rest of the properties explore."""
import copy
import random

import buildpasm
import gens
import reader
import special
import plans
from plans import ALL, OBJ, plan, q
from prog import *


# ---------------------------------------------------------------- C14 register loops
@plan("C14")
def c14(c):
    grid = [(0, 1), (1, 2), (0, 3), (3, 3), (5, 8), (1, 10), (126, 129), (127, 128), (250, 255), (253, 254), (254, 255),
            (1, 255), (0, 254)]
    if not c.quick:
        grid = [(a, b) for a in list(range(0, 12)) + [60, 120, 126, 127, 128, 129, 130, 200, 240, 250, 253, 254, 255]
                for b in list(range(0, 12)) + [61, 121, 126, 127, 128, 129, 130, 199, 240, 250, 253, 254, 255] if a <= b]
    special.reg_loops(c, grid, (0, 100, 118, 130) if c.quick else (0, 60, 110, 114, 118, 119, 120, 121, 122, 123, 124, 130, 300))
    letters = [reg("x", num(1), num(3), True, [data(1, num(7))]), reg("y", num(3), num(1), False, [ins("iny")]), lab("f"),
               reg("x", num(2), sym("f"), True, [ins("nop")]), reg("x", num(0), num(2), True, [reg("y", num(2), num(4), True, [ins("nop")])]),
               reg("x", num(0), num(2), True, [reg("x", num(2), num(4), True, [ins("nop")])]), eq("f", num(9)),
               ins("ldx", "imm", sym("f"))]
    # bounds that are out of range as long as a name is unknown
    ps = []
    for a, b, up in ((2, 5, True), (0, 3, True), (5, 2, False), (255, 253, False), (250, 255, True), (7, 7, True)):
        for k in (0x1000, 300, 0xFFFF):
            wild = [lambda v: bop(sym("late"), "-", num(k - v)) if v <= k else num(v), lambda v: num(v),
                    lambda v: bop(num(v) if not v else par(bop(num(k), "+", num(v))), "-", par(bop(sym("late"), "*", num(1 if v else 0))))]
            for f, g in ((0, 1), (1, 0), (0, 0), (2, 1), (1, 2), (2, 2)):
                for r in "xy":
                    l = reg(r, wild[f](a), wild[g](b), up, [ins("nop"), data(2, sym("late"))])
                    ps += [Program([l, ins("rts"), eq("late", num(k))]), Program([eq("late", num(k)), l, ins("rts")])]
                    if k == 0x1000:
                        ps.append(Program([org(num(0x0F00)), l, ins("rts"), setpc(num(k)), lab("late"), ins("nop")]))
    c.batch("bounds that are known late", ps, ("exit", "object", "listing"))
    # a register holds 0 to 255
    ps = []
    out = (-70000, -65536, -32769, -300, -256, -255, -129, -128, -2, -1, 256, 257, 300, 511, 512, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 65536, 65541, 1 << 24)
    for v in out:
        for w in (0, 1, 5, 127, 128, 254, 255, v, v + 1, v - 1):
            for up in (True, False):
                for a, b in {(v, w), (w, v)}:
                    if c.quick and (v + w) % 2 and w not in (0, 5, 255):
                        continue
                    ps.append(Program([ins("nop"), reg("xy"[w & 1], plans.wide(a), plans.wide(b), up, [ins("nop")]), ins("rts")]))
    c.batch("bounds that no register holds", ps, ("exit", "object"))
    c.alphabet("register loops one after another", letters, q(c, 3, 4), 1, aspects=("exit", "object", "listing"))
    c.random("register loops", q(c, 10, 300), aspects=("exit", "object", "warnings"), size=18,
             weights={"reg": 8, "loop": 1, "fill": 2, "far": 0.5, "label": 4, "local": 2})


# ---------------------------------------------------------------- C18 errors
@plan("C18")
def c18(c):
    bad = [[ins("lda", "imm", num(256))], [ins("lda", "dir", bop(num(0xFFFF), "+", num(1)))], [data(1, num(256))],
           [data(2, bop(num(0xFFFF), "+", num(1)))], [ins("nop", "imm", num(1))], [ins("lda", "dir", sym("no"))],
           [ins("bne", "dir", anonref("+"))], [ins("phx")], [ins("slo", "dir", num(3))], [eq("k", num(1)), eq("k", num(2))],
           [lab("p"), ins("nop"), lab("p")], [load("no.bin", None)], [ends()], [sect("s")], [data(2, bop(num(1), "/", num(0)))],
           [reg("x", num(0), num(2), True, [reg("x", num(1), num(2), True, [ins("nop")])])], [ins("bra", "dir", pc())],
           [fill(num(300), num(1))], [call("nm", num(1))]]
    good = [ins("nop"), lab("lb"), data(1, num(1))]
    ps = []
    wrap = [lambda x: x, lambda x: good + x, lambda x: x + good, lambda x: [org(num(0x2000))] + x + good,
            lambda x: [if_(num(1), x)] if _inner(x) else x, lambda x: [if_(num(0), x)] if _inner(x) else x,
            lambda x: [macdef("mm", x), call("mm")] if _inner(x) else x,
            lambda x: [macdef("mm", x)] if _inner(x) else x,
            lambda x: [inc("q.inc", x)], lambda x: [ifdef("nope", x)], lambda x: [ifdef("nope", x, neg=True)],
            lambda x: [loop("repeat", num(1), x)] if _inner(x) else x,
            lambda x: [loop("while", num(0), x)] if _inner(x) else x,
            lambda x: x + [end()]]
    for b in bad:
        for w in wrap:
            for o in (opts(), opts(nowarn=True, c64=True)):
                ps.append(Program(w(copy.deepcopy(b)), o))
    c.batch("a mistake in every place", ps, ("exit", "message"))
    # of several files, each may have the mistake
    ps = []
    for b in bad:
        for n in (2, 3):
            for at in range(n):
                ps.append(Program([("m%d.asm" % i, [ins("nop"), lab("lb%d" % i)] + (copy.deepcopy(b) if i == at else []) + [data(1, num(i))])
                                   for i in range(n)]))
    c.batch("a mistake in one of several files", ps, ("exit", "message"))
    # any number of mistakes
    ps = []
    for n in q(c, (2, 16, 255, 256, 257, 512, 768, 1024), (2, 3, 7, 8, 16, 32, 64, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 768, 1024, 1280,
                                                            2048, 4096)):
        for b in (data(1, num(256)), ins("phx"), data(2, bop(num(1), "/", num(0))), call("nm", num(1)), ins("bne", "dir", num(0x8000)),
                  ins("lda", "imm", num(256))):
            ps.append(Program([ins("nop")] + [copy.deepcopy(b) for _ in range(n)]))
        ps.append(Program([inc("many.inc", [data(1, num(300))] * n), data(1, num(1))]))
    c.batch("any number of mistakes", ps, ("exit", "message"))
    c.random("programs and mistakes", q(c, 10, 200), aspects=("exit", "message", "object"), size=14, weights={"macro": 2, "call": 3},
             )
    special.file_troubles(c)
    special.broken_text(c, q(c, 12, 400))


def _inner(x):
    return all(s["o"] in ("ins", "data", "fill", "eq", "reg") for s in x)


# ---------------------------------------------------------------- C19 symbol file
@plan("C19")
def c19(c):
    sy = ("exit", "symbols")
    letters = [lab("p"), eq("k", num(0x1234)), data(2, sym("p")), data(2, sym("k")), sect("s"), ends(), data(2, sym("s.p")), var("v"),
               lab("@l")]
    c.alphabet("symbols that are referred to and not", letters, q(c, 4, 5), 2, aspects=sy)
    # values far apart and close together
    ps = []
    for i in range(q(c, 60, 600)):
        r = c.rng("far values", i)
        n = r.randint(2, 14)
        vs = [r.choice((r.randint(0, 0xFFFF), r.choice((0, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0xFF, 0x100, 0x80)))) for _ in range(n)]
        ss = [eq("s%d" % j, num(v)) for j, v in enumerate(vs)]
        r.shuffle(ss)
        us = ["s%d" % j for j in range(n)]
        r.shuffle(us)
        ps.append(Program(ss + [data(2, *[sym(u) for u in us])]))
    c.batch("values near and far", ps, sy)
    c.alphabet("symbols of the command line", [data(2, sym("d1")), ifdef("d2", [lab("p")]), data(1, sym("p")), eq("d2", num(2))],
               q(c, 4, 5), 1, opts=opts(d=(("d1", 77), ("d2", 2))), aspects=sy)
    c.random("symbol files", q(c, 14, 300), aspects=sy, size=24, d=0.5,
             weights={"label": 8, "const": 6, "section": 4, "var": 2, "local": 2, "anon": 2, "macro": 2, "call": 3})


# ---------------------------------------------------------------- C20 listing
@plan("C20")
def c20(c):
    li = ("exit", "object", "listing")
    letters = [ins("lda", "dir", sym("f")), data(1, *[num(i) for i in range(9)]), data(2, b"abc", sym("f")), fill(num(5), num(7)),
               call("m", num(4)), ds(num(2)), lab("f")]
    c.alphabet("rows of the listing", letters, q(c, 4, 5), 1, aspects=li,
               pre=[macdef("m", [ins("inx"), data(1, param(1))])], post=[ins("bne", "dir", sym("f"))])
    ps = []
    for n in range(1, 40):
        ps.append(Program([data(1, *[num(i) for i in range(n)]), data(2, *[num(i * 257) for i in range(n)]),
                           data(0, *[num(i * 100) for i in range(n)]), fill(num(3), num(n)), ins("nop")]))
        ps.append(Program([data(z, bytes(40 + i for i in range(n)), num(1)) for z in (0, 1, 2)]))
    c.batch("data of every length", ps, li)
    ps = []
    for n in range(1, 256):     # a zero in a string is a known finding
        ps.append(Program([data(z, bytes(x)) for z in (0, 1, 2) for x in ([65, n], [n, 65, n], [65, 66, 67, n, n])]))
    for cpu in ("6502", "65c02"):
        for v in (0, 9, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x7FFF, 0xFFFF, -1, -2, -0x80, -254, -300):
            ps.append(Program([ins(m, k, num(v)) for m, k in (
                ("lda", "imm"), ("sta", "dir"), ("ldy", "dirx"), ("ldx", "diry"), ("ora", "indx"), ("and", "indy"), ("jmp", "ind"), ("eor", "diry"),
                ("jsr", "dir")) + ((("lda", "ind"), ("jmp", "indx")) if cpu == "65c02" else ()) if v <= 255 or m not in ("lda", "ora", "and")
                or k == "dir"], opts(cpu)))
    for n in (0, 3, 125, 126, 127, 200):
        for o in (0, 0x1000, 0xFE00):
            for b in gens.BRANCH:
                ps.append(Program([org(num(o)), lab("b"), fill(num(1), num(n)), ins(b, "dir", sym("b")), ins(b, "dir", sym("f")), fill(num(2), num(n)),
                                   lab("f"), ins("asl", "acc"), ins("rol", "dir", sym("f"))]))
    c.batch("what the rows show", ps, li)
    c.alphabet("files that come again", plans.same_file(), q(c, 3, 4), 1, aspects=li)
    # sources of every length
    ps = []
    for n in q(c, (100, 255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2050, 4100), [x + d for x in (64, 128, 256, 512, 1000, 1024, 2000, 2048, 4096, 8192)
                                                                                                for d in (-1, 0, 1, 2)]):
        a, b = n // 2, n - n // 2
        ps += [Program([ins("lda", "imm", num(1))] + [nop()] * n + [ins("lda", "imm", num(2)), nop(), data(1, num(3))]),
               Program([macdef("m", [ins("nop")] + [nop()] * b + [ins("inx")]), ins("lda", "imm", num(1)), inc("n.inc", [nop()] * a + [ins("dex")]), call("m"),
                        ins("iny"), call("m")])]
    c.batch("sources of every length", ps, li)
    c.random("listings", q(c, 14, 300), aspects=li, size=24, weights={"macro": 2, "call": 4, "loop": 2, "data": 6, "include": 1})


# ---------------------------------------------------------------- C21 notation
@plan("C21")
def c21(c):
    """one program written in many ways"""
    n = q(c, 6, 30)

    def same(rng_name, programs, aspects=ALL):
        import engine
        import time
        t = time.time()
        n0 = c.validated
        js = [p.lower() for p in programs]
        reps = c.model_programs(js)
        cases = []
        for i, r in sorted(reps.items()):
            cases.append(engine.Case(programs[i], None, r, aspects))
            for k in range(n):
                cases.append(engine.Case(programs[i], "%s/%s/%d/%d" % (c.seed, rng_name, i, k), r, aspects))
        c.judge(cases, rng_name)
        c.note(rng_name, "%d programs, each written in %d ways" % (len(programs), n + 1), cases, t, c.validated - n0)
    end = c.elapsed() + q(c, 25, 500)
    k = 0
    kinds = [dict(size=20), dict(size=14, weights={"loop": 3, "forloop": 2, "reg": 2, "cond": 2, "ifdef": 2}),
             dict(size=18, weights={"macro": 3, "call": 5, "section": 2, "local": 2, "anon": 2, "include": 1, "load": 1}),
             dict(size=14, weights={"data": 8, "string": 6, "mode": 3, "seg": 2, "prnt": 2})]
    while k < len(kinds) or c.elapsed() < end:
        ps = [gens.Gen(c.rng("notation", k, i), **kinds[k % len(kinds)]).program() for i in range(30)]
        same("notation %d" % k, ps)
        k += 1
        if k > 400:
            break
    real = [p for n, p in reader.samples(buildpasm.REPO) if not c.quick or "graphics" not in n]
    same("the samples", real)


# ---------------------------------------------------------------- C22 print
@plan("C22")
def c22(c):
    a = ("exit", "object", "print")
    letters = [prnt(sym("f")), prnt(b"a text", sym("k")), prnt(bop(sym("k"), "+", num(1)), all=True), eq("k", num(0x99)), lab("f"),
               loop("repeat", num(1), [prnt(pc())]), prnt(uop("<", sym("f")), b"x")]
    c.alphabet("printing", letters, q(c, 4, 5), 1, aspects=a, post=[ins("nop")])
    ps = []
    for n in q(c, (2, 3, 31, 32, 33, 63, 64, 65, 66, 79, 80, 81, 127, 128, 129, 200, 255, 256, 257, 300), list(range(2, 300, 3))):
        r = c.rng("print", n)
        t = bytes(r.choice(b" !#$%&()*+,-./0123456789;<=>?@ABCXYZ[]^_abcdnsxyz{|}~") for _ in range(n))
        ps.append(Program([prnt(t), prnt(sym("f"), t[::-1], b"%s%n%d", num(n)), lab("f"), ins("nop")]))
    for v in (0, 1, 9, 10, 255, 256, 32767, 32768, 65535, 65536, -1, -2, -128, -32768, -65536, 1 << 24, plans.LIMIT, -plans.LIMIT):
        ps.append(Program([var(("k", plans.wide(v))), prnt(sym("k")), prnt(b"=", sym("k"), b", ", sym("k"), all=True), ins("nop")]))
    c.batch("long texts and values of every size", ps, a)
    c.random("printing", q(c, 12, 250), aspects=a, size=18, weights={"prnt": 8, "macro": 2, "call": 3, "loop": 2, "cond": 2})


# ---------------------------------------------------------------- C23 options that leave the code alone
@plan("C23")
def c23(c):
    progs = [gens.Gen(c.rng("options", i), size=20, weights={"branch": 8, "far": 2, "prnt": 1}).program() for i in range(q(c, 40, 300))]
    w = [Program([lab("b"), ds(num(200)), ins(m, "dir", sym("b")), mode("nowarn"), ins(m, "dir", sym("b")),
                  mode("warn"), ins(m, "dir", sym("b"))], opts(nowarn=nw))
         for m in gens.BRANCH for nw in (False, True)]
    for extra in ((), ("-v",), ("-log", "log.txt"), ("-V", "-LOG", "log.txt"), ("/v",)):
        c.batch("the same with %s" % (" ".join(extra) or "no further option"), progs + w,
                ("exit", "object", "symbols", "listing", "warnings"), extra=extra)
    # the object file is the same whatever other files are asked for
    for outs in (("o.bin", None, None), ("o.bin", "s.sym", None), ("o.bin", None, "l.lst")):
        for extra in ((), ("-v",)):
            c.batch(" ".join(("only the files",) + tuple(o for o in outs if o) + extra), progs[:q(c, 25, 300)],
                    ("exit", "object") + ("symbols",) * (outs[1] is not None) + ("listing",) * (outs[2] is not None),
                    outputs=outs, extra=extra)
    w += [Program(x) for x in ([eq("k", num(3))], [nop()], [nop(), eq("k", num(3)), nop()], [macdef("m", [ins("nop")])], [var("v", ("w", num(2)))],
                               [sect("s"), eq("k", num(1)), ends()], [if_(num(0), [ins("nop")])], [org(num(0x2000)), eq("k", pc())],
                               [lab("p"), eq("k", sym("p"))], [data(1, num(256))], [ins("lda", "dir", sym("no"))])]
    special.variants(c, progs + w + [gens.Gen(c.rng("outputs", i), size=16).program() for i in range(q(c, 150, 3000))])
    nw = [Program(p.mains, dict(p.opts, nowarn=not p.opts["nowarn"])) for p in progs]
    c.batch("warnings the other way around", nw, ("exit", "object", "symbols", "listing", "warnings"))


# ---------------------------------------------------------------- C24 command line
@plan("C24")
def c24(c):
    k = q(c, 3, 4)
    # every word on its own and in front of and behind others
    special.command_lines(c, "every option", ["-o", "-s", "-l", "-log", "-dir", "-d", "-c64", "-v", "-i", "-nowarn", "-6502",
                                              "-65c02", "-?", "-h", "a.asm", "k", "5"], q(c, 3, 3))
    special.command_lines(c, "files", ["-o", "-s", "-l", "o1", "o2", "a.asm", "e.asm"], q(c, 4, 5), lambda r: r["res"] == "run")
    special.command_lines(c, "instruction sets and several input files", ["-i", "-6502", "-65c02", "c.asm", "d.asm", "a.asm", "-c64"],
                          q(c, 4, 5), None) if not c.quick else special.command_lines(
        c, "instruction sets and several input files", ["-i", "-6502", "-65c02", "-c64", "c.asm", "d.asm"], 4)
    # longer lines, at random
    special.long_lines(c, q(c, 8, 120))


# ---------------------------------------------------------------- C25 directives for the instruction set and the warnings
@plan("C25")
def c25(c):
    a = ("exit", "object", "warnings")
    letters = [mode("65c02"), mode("6502"), ins("phx"), ins("inc", "acc"), ins("lda", "ind", num(0x12)),
               mode("ill"), mode("noill"), ins("sax", "dir", num(9))]
    import itertools
    for o in (opts(), opts("65c02"), opts(ill=True)):
        c.batch("instruction sets from directives, %s %s" % (o["cpu"], o["ill"]),
                [p for p in (Program(list(x), o) for n in range(1, q(c, 4, 5)) for x in itertools.product(letters, repeat=n))
                 if _illegal_ok(p)], a)
    letters = [mode("nowarn"), mode("warn"), ins("bne", "dir", bop(pc(), "+", num(200))), ins("nop"), mode("c64"),
               inc("w.inc", [mode("nowarn")])]
    for nw in (False, True):
        c.alphabet("warnings from directives%s" % (", -nowarn" if nw else ""), letters, q(c, 4, 5), 1, opts=opts(nowarn=nw), aspects=a)
    c.random("directives", q(c, 10, 250), aspects=a, size=20, weights={"mode": 8, "ins": 12, "far": 1.5, "cond": 2, "include": 1})


def _illegal_ok(p):
    """illegal instructions of the 65C02 are not specified"""
    cpu = p.opts["cpu"]
    for s in p.mains[0][1]:
        if s["o"] == "mode" and s["d"] in ("6502", "65c02"):
            cpu = s["d"]
        if s["o"] == "ins" and s["m"] == "sax" and cpu == "65c02":
            return False
    return True


# ---------------------------------------------------------------- C26 determinism
@plan("C26")
def c26(c):
    special.twice(c, [gens.Gen(c.rng("twice", i), size=26).program() for i in range(q(c, 150, 1500))], q(c, 300, 4000))
    c.random("what the specification determines", q(c, 10, 250), aspects=ALL, size=28)


# ---------------------------------------------------------------- C27 containers
@plan("C27")
def c27(c):
    special.containers(c, q(c, "Containers.cfg", "ContainersDeep.cfg"))
    # the same containers seen through programs: more names than the table first has room for
    ps = []
    for n in q(c, (450, 920, 1000), (450, 700, 919, 920, 921, 922, 923, 930, 1000, 1300, 1850)):
        r = c.rng("names", n)
        names = ["n%d" % i for i in range(n)]
        r.shuffle(names)
        uses = r.sample(names, min(n, 60))
        ss = [eq(x, num(r.randint(0, 0xFFFF))) for x in names]
        ps.append(Program(ss + [data(2, *[sym(u) for u in uses])]))
        ps.append(Program([data(2, *[sym(u) for u in uses])] + ss))
        # the table grows inside of a section, while a name of it is used and not yet defined
        k = n // 3
        for at in (0, 1, 2):
            body = [data(2, sym("up"), sym("own")), lab("own"), ins("lda", "dir", sym("own"))]
            more = [eq("m%d" % i, num(i)) for i in range(n)]
            late = [lab("up"), ins("jmp", "dir", sym("own")), ifdef("up", [ins("nop")]), data(2, sym("m%d" % k), sym("top"))]
            if at == 0:
                x = [sect("s")] + body + more + late + [ends()]
            elif at == 1:
                x = [sect("s")] + body + [sect("t")] + body + more + late + [ends()] + late + [ends()]
            else:
                x = [macdef("big", [data(2, sym("up"), param(1))])] + body + [call("big", num(3))] + more + late + [call("big", sym("m%d" % k))]
            ps.append(Program(x + [lab("top"), ins("rts")]))
    c.batch("programs with many names", ps, ("exit", "object", "symbols"))
    # names that are alike for long
    ps = []
    for n in q(c, (1, 2, 15, 31, 32, 63, 64, 126, 127, 128, 129, 200, 254, 255, 256, 300), list(range(1, 300))):
        x = ("long_name" * 40)[:n]
        ps.append(Program([eq(x + "b", num(1)), eq(x + "c", num(2)), lab(x), data(2, sym(x + "c"), sym(x + "b"), sym(x + "d"), sym(x)), lab(x + "d"),
                           macdef(x + "e", [data(1, num(n & 255))]), macdef(x + "f", [data(1, num(9))]), call(x + "e"), call(x + "f"),
                           sect(x + "g"), lab("p"), ends(), sect(x + "h"), lab("p"), ends(), data(2, sym(x + "g.p"), sym(x + "h.p")),
                           var((x + "v", num(4)), (x + "w", num(5))), eq(x + "v", num(6)), data(1, sym(x + "v"), sym(x + "w")),
                           ifdef(x + "z", [ins("nop")], [ins("inx")])]))
        ps.append(Program([lab("q" + x + "b"), ins("nop"), lab("r" + x + "b"), ins("nop"), lab("q"), data(2, sym("q" + x + "b"), sym("r" + x + "b"), sym("q")),
                           lab("@" + x), ins("bne", "dir", sym("@" + x)), lab("@" + x + "s"), ins("bne", "dir", sym("@" + x + "s"))]))
    for k in q(c, (40, 150, 300), (10, 40, 70, 100, 150, 200, 260, 300, 520)):
        for behind in (False, True):
            x = ("abcdefghijklmnopq" * 40)[:k]
            names = ["%s%d" % (x, i) if behind else "v%d%s" % (i, x) for i in range(300)]
            ps.append(Program([eq(v, num(i)) for i, v in enumerate(names)] + [data(2, *[sym(v) for v in names[::7]]), lab(x), data(2, sym(x))]))
    c.batch("names that are alike for long", ps, ("exit", "object", "symbols"))


# ---------------------------------------------------------------- C28 ends of lines
@plan("C28")
def c28(c):
    special.line_ends(c, q(c, "Eol.cfg", "EolDeep.cfg"))
    special.line_end_trees(c, q(c, "EolTree.cfg", "EolTreeDeep.cfg"))


# ---------------------------------------------------------------- C29 scale
@plan("C29")
def c29(c):
    ps = []
    r = c.rng("scale")
    for n in q(c, (1, 30, 64, 200, 255), (1, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 500, 1000)):
        long = "n" + "x" * n
        ps.append(Program([lab(long), data(2, sym(long), sym(long + "y")), eq(long + "y", num(3))]))
        ps.append(Program([sect("s" * n), lab("in" * n), ends(), data(2, sym("s" * n + "." + "in" * n))]))
        ps.append(Program([lab("g"), lab("@" + "l" * n), ins("bne", "dir", sym("@" + "l" * n))]))
        ps.append(Program([macdef("m" * n, [data(1, param(1))]), call("m" * n, num(3))]))
        ps.append(Program([data(1, bytes(65 + i % 26 for i in range(n + 1)), num(1)), ins("nop")]))
        ps.append(Program([inc("i" * min(n, 200) + ".inc", [ins("nop")])]))
    for n in q(c, (5, 20, 60), (5, 10, 20, 30, 50, 100, 150)):
        b = [data(1, num(1))]
        for i in range(n):
            b = [if_(bop(num(i), "<", num(1000)), b + [data(1, num(i & 255))])]
        ps.append(Program(b))
        b = [data(1, num(1))]
        for i in range(n):
            b = [ifdef("k", b + [data(1, num(i & 255))], [ins("nop")])]
        ps.append(Program(b, opts(d=(("k", 1),))))
        e = num(1)
        for i in range(n):
            e = par(bop(e, "+", num(i)))
        ps.append(Program([data(2, e)]))
        b = [lab("deep"), data(2, sym("deep"))]
        for i in range(min(n, q(c, 12, 12))):
            b = [sect("s%d" % i)] + b + [ends()]
        ps.append(Program(b))
        b = [data(1, num(1))]
        for i in range(min(n, 9)):
            b = [inc("f%d.inc" % i, b + [data(1, num(i))])]
        ps.append(Program(b))
    c.batch("long names, deep nesting", ps, ("exit", "object"))
    ps = []
    for n in q(c, (1990, 2047, 3000), (1000, 1990, 2000, 2038, 2046, 2047, 2048, 3000, 4095, 4096, 8200, 12000)):
        x = "x" * n
        after = [ins("nop"), lab("after"), data(2, sym("after"))]
        ps.append(Program([lab(x), ins("jmp", "dir", sym(x))] + after))
        ps.append(Program([sect("s" + x), lab("in"), ends(), data(2, sym("s" + x + ".in"))] + after))
        ps.append(Program([lab("g"), lab("@l" + x), ins("bne", "dir", sym("@l" + x))] + after))
        ps.append(Program([lab("g" + x), lab("@l"), ins("bne", "dir", sym("@l"))] + after))
        ps.append(Program([macdef("m" + x, [lab("@p"), data(1, param(1)), ins("bne", "dir", sym("@p"))]),
                           call("m" + x, num(3)), call("m" + x, num(4))] + after))
        ps.append(Program([macdef("m" + x, [lab("@p"), ins("bne", "dir", sym("@p"))]), call("m" + x), call("m" + x)] + after))
        ps.append(Program([data(0, x.encode()), data(1, x.encode(), num(1)), data(2, x.encode())] + after))
        ps.append(Program([data(1, *[num(i & 255) for i in range(n // 4)])] + after))
        ps.append(Program([prnt(x.encode(), num(5))] + after))
        ps.append(Program([ins("lda", "imm", bop(num(1), "+", par(num(2)))), inc("f.inc", [lab(x), ins("jmp", "dir", sym(x))])] + after))
        ps.append(Program([data(2, sym(x))] + after + [prnt(x.encode())]))      # never defined
        ps.append(Program([var((x, num(1))), eq(x, bop(sym(x), "+", num(1))), data(1, sym(x)), eq("k" + x, num(7)),
                           data(1, sym("k" + x))] + after, opts(d=(("d" + x, 5),))))
        for wrong in ([data(1, num(256))], [ins("bne", "dir", bop(pc(), "+", num(300)))], [call("nm", num(1))]):
            ps.append(Program(after + [data(1, *[num(i & 255) for i in range(n // 4)])] + [ins("nop")] * 4 + wrong + [ins("nop"), prnt(x.encode())]))
            ps.append(Program(after + wrong + [prnt(x.encode()), prnt(x.encode())] + [ins("nop")] * 4))
    c.batch("long lines", ps, ALL + ("message",), styled=False)
    ps = []
    big = []
    for n in q(c, (250,), (300, 300, 800, 1600, 2500)):
        for k in range(4):
            big.append(gens.Gen(c.rng("big", n, k), size=n, errors=0.005,
                                weights={"loop": 0.3, "forloop": 0.3, "macro": 0.3, "include": 0.3}).program())
    c.mend(big, q(c, 5, 12))
    for n in q(c, (400,), (300, 800, 1600, 2500)):
        ps.append(Program([org(num(0x200))] + [x for i in range(n) for x in (lab("l%d" % i), ins("bne", "dir", sym("l%d" % ((i * 7 + 40) % n))))]))
    c.batch("long programs", ps + big, ("exit", "object", "symbols", "listing"))
    ps = []
    for n in q(c, (4910,), (4899, 4900, 4901, 5001, 9901)):
        ps.append(Program([lab("b")] + [anon("-")] * n + [ins("nop")] + [anon("-"), ins("nop")] * 3 +
                          [ins("bne", "dir", anonref("-", 3)), ins("bne", "dir", anonref("-", 4)), data(2, anonref("-", 2))]))
        ps.append(Program([lab("b"), ins("bne", "dir", anonref("+", 2)), data(2, anonref("+", 3))] + [anon("+"), ins("nop")] * 3 +
                          [anon("+")] * n + [ins("bne", "dir", sym("b"))]))
    c.batch("many anonymous labels", ps, ("exit", "object"), styled=False)
    c.random("medium sized programs", q(c, 2, 300), size=90, batch=20, mend=6)
    # programs that somebody else wrote: those that come with pasm, and parts of them
    real = [p for _, p in reader.samples(buildpasm.REPO)]
    c.batch("the samples", real, ALL, styled=False)
    if real:
        c.random("parts of the samples", q(c, 8, 300), ALL, make=lambda r: reader.fragment(r, real), mend=q(c, 0, 4))
