"""What every property explores."""
import copy
import itertools
import json
import os

import gens
import special
from prog import *

HERE = os.path.dirname(os.path.abspath(__file__))
OBJ = ("exit", "object")
ALL = ("exit", "object", "symbols", "listing", "print", "warnings")
PLANS = {}
LEVELS = {}


def plan(prop, level="model_checking"):
    def reg(f):
        PLANS[prop] = f
        LEVELS[prop] = level
        return f
    return reg


def level(prop):
    return LEVELS[prop]


def q(c, quick, thorough):
    return quick if c.quick else thorough


# ---------------------------------------------------------------- C01 encoding
MNEMONICS = ("adc and asl bcc bcs beq bit bmi bne bpl brk bvc bvs clc cld cli clv cmp cpx cpy dec dex dey eor inc inx "
             "iny jmp jsr lda ldx ldy lsr nop ora pha php pla plp rol ror rti rts sbc sec sed sei sta stx sty tax tay "
             "tsx txa txs tya bra phx phy plx ply stp stz trb tsb wai").split() + \
    ["%smb%d" % (x, i) for x in "rs" for i in range(8)]
ILLEGAL = "slo rla sre rra sax lax dcp isc anc anc2 alr arr xaa axs usbc ahx shy shx tas las".split()
MNEMONICS += ILLEGAL
FORMS = ["imp", "acc", "imm", "dir", "dirx", "diry", "ind", "indx", "indy"]


def one_instruction_programs(values):
    for cpu, ill in (("6502", False), ("65c02", False), ("6502", True)):
        for m in MNEMONICS:
            if cpu == "65c02" and m in ILLEGAL:
                continue        # what they mean there is not specified
            for k in FORMS:
                if k in ("imp", "acc"):
                    yield Program([ins(m, k)], opts(cpu, ill))
                else:
                    for v in values:
                        yield Program([ins(m, k, v)], opts(cpu, ill))


@plan("C01")
def c01(c):
    vals = [num(0x42), num(0x1234)]
    c.batch("every mnemonic and addressing form", list(one_instruction_programs(vals)))
    if not c.quick:
        vals = [num(0), num(255), num(256), num(0xFFFF), num(0x8000), sym("fwd")]
        ps = [Program(p.mains[0][1] + [eq("fwd", num(0x80))], p.opts) for p in one_instruction_programs(vals)]
        c.batch("every mnemonic and addressing form, operands at the limits", ps)
    c.random("instructions in context", q(c, 15, 400), aspects=("exit", "object", "listing"), size=24,
             only=["ins", "label", "const", "branch", "mode", "local"], weights={"ins": 30})


# ---------------------------------------------------------------- C02 operand size
@plan("C02")
def c02(c):
    lims = [0, 1, 127, 128, 254, 255, 256, 257, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, 0x10000, 0x12345, -1, -2, -127,
            -128, -129, -254, -255, -256, -257, -0x7FFF, -0x8000, -0xFFFE, -0xFFFF, -0x10000]
    ps = []
    for v in lims:
        e = num(v) if v <= 0xFFFF else bop(num(0xFFFF), "+", num(v - 0xFFFF))
        for m, k in (("lda", "imm"), ("lda", "dir"), ("lda", "dirx"), ("lda", "diry"), ("ldx", "diry"), ("ldy", "dirx"),
                     ("lda", "indx"), ("lda", "indy"), ("jmp", "dir"), ("jmp", "ind"), ("jsr", "dir"), ("stx", "diry"),
                     ("sty", "dirx"), ("asl", "dir"), ("inc", "dirx"), ("cpx", "imm"), ("bit", "dir")):
            ps.append(Program([ins(m, k, e), ins("nop")]))
            if 0 <= v <= 0xFFFF:
                ps.append(Program([ins(m, k, sym("c")), ins("nop"), eq("c", e)]))
                ps.append(Program([eq("c", e), ins(m, k, sym("c")), ins("nop")]))
                ps.append(Program([ins(m, k, bop(sym("c"), "-", num(1))), eq("c", e)], opts("65c02")))
        for z in (0, 1, 2):
            ps.append(Program([data(z, e), ins("nop")]))
    c.batch("operands at the limits of their fields", ps)
    # names that are out of range as long as another name is unknown
    ps = []
    for k in (0x1000, 300, 0xFFFF):
        for v in (0, 5, 255, 256, 0x0FFF, 0xFFFF):
            for e in (bop(sym("late"), "-", par(bop(num(k), "-", num(v)))), bop(par(bop(num(k), "+", num(v))), "-", sym("late")),
                      bop(bop(sym("late"), "*", num(0xFFFF)), "-", par(bop(bop(num(k), "*", num(0xFFFF)), "-", num(v)))) if k == 300 else num(v)):
                for x in ([ins("lda", "dir", sym("w"))], [ins("lda", "imm", bop(sym("w"), "&", num(255)))], [data(2, sym("w"))], [ins("sta", "dirx", sym("w")), ins("ldx", "diry", e)],
                          [data(2, e), ins("jmp", "dir", e)], [data(1, bop(sym("w"), "&", num(255)))], [if_(bop(sym("w"), ">", num(9)), [ins("nop")], [ins("inx"), ins("iny")])]):
                    ps += [Program([eq("w", e)] + x + [lab("e1"), data(2, sym("e1")), eq("late", num(k))]),
                           Program(x + [lab("e1"), data(2, sym("e1")), eq("w", e), eq("late", num(k))])]
    c.batch("names that are known late", ps)
    # labels around the end of the zero page, where the size of one operand decides about another
    letters = [ins("lda", "dir", sym("t")), ins("sta", "dirx", sym("u")), lab("t"), ds(num(2)),
               ins("stx", "diry", bop(sym("t"), "-", sym("u"))), ins("ldx", "diry", sym("u"))]
    c.alphabet("labels around the end of the zero page", letters, q(c, 4, 5), 1, pre=[org(num(0xF8)), lab("u")])
    c.random("addresses below and above 256", q(c, 10, 400), size=22, org=0xE0,
             only=["ins", "label", "const", "fill", "data", "macro", "call"], weights={"ins": 20, "label": 8}, backward=0.3)


# ---------------------------------------------------------------- C03 branches
@plan("C03")
def c03(c):
    ps = []
    bs = gens.BRANCH
    for n in list(range(122, 134)) + q(c, [], list(range(100, 160))):
        for i, m in enumerate(bs + ["bra"]):
            o = opts("65c02") if m == "bra" else opts(nowarn=n % 5 == 0)
            if c.quick and (n + i) % 3:
                continue
            ps.append(Program([lab("b"), fill(num(6), num(n)), ins(m, "dir", sym("b"))], o))
            ps.append(Program([ins(m, "dir", sym("f")), fill(num(6), num(n)), lab("f"), ins("nop")], o))
            ps.append(Program([ins(m, "dir", sym("f")), fill(num(7), num(n)), ins(m, "dir", sym("f")), lab("f"),
                               ins("nop"), fill(num(8), num(n)), ins(m, "dir", sym("f"))], o))
            ps.append(Program([ins(m, "dir", bop(pc(), "+", num(n))), ins("nop")], o))
            ps.append(Program([ins("nop"), ins(m, "dir", bop(pc(), "-", num(n)))], o))
    c.batch("distances around the limits of a branch", ps, ("exit", "object", "warnings", "listing"))
    ps = []
    for o in (0, 1, 0xFFFE - 300):
        for ref, d in ((sym("b"), [lab("b")]), (sym("@b"), [lab("z"), lab("@b")]), (anonref("-"), [anon("-")]),
                       (sym("s.b"), [sect("s"), lab("b"), ends()])):
            for n in (0, 1, 125, 126, 127, 200):
                ps.append(Program([org(num(o))] + d + [fill(num(6), num(n)), ins("bne", "dir", ref), ins("nop")]))
                ps.append(Program([org(num(o))] + d + [ins("bcs", "dir", ref), fill(num(6), num(n)), ins("bvc", "dir", ref)]))
        for ref, d in ((sym("f"), [lab("f")]), (sym("@f"), [lab("@f")]), (anonref("+"), [anon("+")])):
            for n in (0, 1, 126, 127, 128):
                ps.append(Program([org(num(o)), lab("aa"), ins("bne", "dir", ref), fill(num(6), num(n))] + d + [ins("nop")]))
    c.batch("branches at the ends of the address space", ps, ("exit", "object", "warnings", "listing"))
    letters = [ins("bne", "dir", sym("f")), ins("bcc", "dir", sym("b")), fill(num(1), num(61)), fill(num(2), num(63)),
               lab("f")]
    c.alphabet("branches over branches", letters, q(c, 4, 6), 2, pre=[lab("b")], post=[ins("nop")],
               aspects=("exit", "object", "warnings"))
    special.branches_run(c, (0, 117, 121, 122, 124, 125, 126, 127, 128, 129, 130, 300) if c.quick else
                         tuple(range(0, 8)) + tuple(range(100, 160)) + (250, 255, 256, 257, 1000))
    c.random("far branches", q(c, 12, 400), aspects=("exit", "object", "warnings"), size=20,
             weights={"branch": 14, "far": 3, "label": 8, "local": 3, "anon": 3}, backward=0.4)


# ---------------------------------------------------------------- C04 passes
@plan("C04")
def c04(c):
    letters = [ins("lda", "dir", sym("f")), lab("f"), lab("g"), eq("k", bop(sym("g"), "-", sym("f"))),
               data(2, sym("k"), sym("g")), ins("bne", "dir", sym("g")), ds(sym("k"))]
    c.alphabet("definitions and uses in every order", letters, q(c, 4, 5), 2,
               aspects=("exit", "object", "symbols"))
    letters = [ins("lda", "dir", sym("f")), lab("f"), eq("g", bop(sym("f"), "+", num(1))), eq("f", sym("g")),
               if_(bop(sym("f"), "<", num(260)), [ins("nop"), ins("nop")], [ins("inx")]), ins("sta", "dir", sym("g"))]
    c.alphabet("definitions that depend on each other", letters, q(c, 4, 5), 1, pre=[org(num(0xFB))],
               aspects=("exit", "object", "symbols"))
    letters = [ins("lda", "dir", sym("@l")), ins("lda", "dir", sym("late")), lab("@l"), lab("top"), ins("nop"), ins("sta", "dir", sym("top"))]
    for at in (0xF8, 0xFA, 0xFC):
        c.alphabet("local labels around the end of the zero page", letters, q(c, 4, 5), 2, pre=[org(num(at)), lab("first")],
                   post=[eq("late", num(5))], aspects=("exit", "object", "symbols"))
    c.random("names around the end of the zero page", q(c, 10, 300), aspects=("exit", "object", "symbols"), make=_near)
    c.random("forward references", q(c, 10, 400), aspects=("exit", "object", "symbols"), size=22, backward=0.15,
             weights={"label": 8, "const": 4, "ins": 12})
    c.random("forward references in sections and macros", q(c, 6, 300), aspects=("exit", "object", "symbols"), size=26,
             backward=0.2, weights={"section": 3, "macro": 3, "call": 5, "cond": 3})


def _near(r):
    """instructions whose size depends on where names of every kind come to lie, around address 256"""
    n = r.randint(5, 14)
    glob = ["g%d" % i for i in range(3)]
    late = [r.choice(["k1", "k2"]) for _ in range(2)]
    ss = [lab("top")] if r.random() < 0.6 else []
    locs, done, minus = [], set(), 0
    for i in range(n):
        x = r.random()
        free = [g for g in glob if g not in done]
        if x < 0.17 and free:
            g = r.choice(free)
            done.add(g)
            locs = []
            ss.append(lab(g))
        elif x < 0.32 and len(locs) < 3:
            m = [a for a in ("@a", "@b", "@c1") if a not in locs]
            locs.append(r.choice(m))
            ss.append(lab(locs[-1]))
        elif x < 0.4:
            ss += [anon("+" if r.random() < 0.5 else "-"), ins("nop")]
        elif x < 0.48:
            ss.append(ds(bop(par(bop(sym(r.choice(glob)), "&", num(3))), "+", num(1))))
            ss.append(setpc(pc()))
        elif x < 0.56:
            ss.append(if_(bop(sym(r.choice(glob + late)), r.choice(["<", ">="]), num(r.choice([250, 256, 258]))),
                          [ins("nop")], [ins("inx"), ins("iny"), ins("dex")]))
        else:
            y = r.random()
            t = sym(r.choice(["@a", "@b", "@c1"])) if y < 0.4 else sym(r.choice(glob + late)) if y < 0.9 else num(5)
            if r.random() < 0.3:
                t = bop(t, r.choice("+-"), num(r.randint(0, 3)))
            ss.append(ins(*r.choice([("lda", "dir"), ("sta", "dir"), ("ldx", "dir"), ("cmp", "dirx"), ("lda", "diry"),
                                     ("ldy", "dirx"), ("bne", "dir"), ("jmp", "dir")]), t))
    # what is referred to and missing
    def names(st):
        return [t["n"] for k in ("e",) for t in (st.get(k) or []) if isinstance(t, dict) and t.get("t") == "loc"]
    for g in glob:
        if g not in done:
            ss += [lab(g), ins("nop")]
    for k in sorted(set(late)):
        ss.append(eq(k, r.choice([num(5), num(300), sym(r.choice(glob)), bop(sym(r.choice(glob)), "-", num(r.randint(0, 4)))])))
    # the local labels every part needs
    out, part = [], []

    def close():
        have = [s["n"]["n"] for s in part if s["o"] == "lab" and s["n"]["t"] == "loc"]
        need = []
        for s in part:
            for m in names(s):
                if m not in have + need:
                    need.append(m)
        for m in need:
            part.extend([lab(m), ins("nop")])
        out.extend(part)
    for s in ss:
        if s["o"] == "lab" and s["n"]["t"] == "id":
            close()
            part = []
        part.append(s)
    close()
    return Program([org(num(r.choice([0xF0, 0xF4, 0xF8, 0xFA, 0xFC, 0xFE])))] + out)


# ---------------------------------------------------------------- C05 undefined names
@plan("C05")
def c05(c):
    u = sym("nowhere")
    places = [
        [ins("lda", "dir", u)], [ins("lda", "imm", uop("<", u))], [ins("jmp", "ind", u)], [ins("bne", "dir", u)],
        [ins("lda", "indy", u)], [ins("sta", "dirx", u)], [data(1, u)], [data(2, num(1), u)], [data(0, u)],
        [data(1, uop("<", u))], [data(2, bop(u, "+", num(1)))], [ds(u)], [fill(u, num(2))], [fill(num(2), u)],
        [eq("x1", u), data(2, sym("x1"))], [if_(bop(u, "==", num(0)), [ins("nop")])], [prnt(u)],
        [macdef("m", [data(2, param(1))]), call("m", u)], [macdef("m", [data(2, u)]), call("m")],
        [macdef("m", [data(2, u)])], [if_(num(0), [data(2, u)])], [if_(num(1), [data(2, u)])],
        [if_(num(1), [ins("nop")], [data(2, u)])],
        [ifdef("nowhere", [data(2, u)])], [ifdef("nowhere", [data(2, u)], neg=True)],
        [sect("s"), ins("lda", "dir", u), ends()], [sect("s"), data(2, sym("t.nowhere")), ends()],
        [sect("s"), lab("nowhere"), ends(), data(2, u)], [sect("s"), lab("in"), ends(), data(2, sym("s.in"))],
        [sect("s"), lab("in"), ends(), data(2, sym("in"))], [lab("a1"), lab("@l"), lab("b1"), ins("bne", "dir", sym("@l"))],
        [ins("bne", "dir", anonref("-"))], [anon("-"), ins("bne", "dir", anonref("-", 2))],
        [ins("bne", "dir", anonref("+")), ins("nop")], [anon("+"), ins("bne", "dir", anonref("+"))],
        [call("nomacro", num(1))], [loop("repeat", bop(u, "==", num(0)), [ins("nop")])],
        [reg("x", num(0), u, True, [ins("nop")])], [var("v"), for_("v", num(0), u, [ins("nop")])], [org(u)], [setpc(u)],
        [macdef("m", [lab("@l"), ins("bne", "dir", sym("@l"))]), call("m"), ins("bne", "dir", sym("@l"))],
        [end(), data(2, u)], [var("v"), data(1, sym("v"))], [data(1, bop(u, "&&", num(0)))],
    ]
    ctx = [lambda x: x, lambda x: [ins("nop")] + x + [ins("nop")], lambda x: [lab("q1")] + x + [eq("q2", num(3))],
           lambda x: [inc("i.inc", x)], lambda x: [org(num(0x2000)), data(1, num(1))] + x + [lab("q3"), ins("rts")]]
    ps = []
    import copy
    for p in places:
        for f in ctx:
            s = f(copy.deepcopy(p))
            if s and s[0]["o"] == "org" and any(x["o"] == "org" for x in p):
                continue
            ps.append(Program(s))
    c.batch("an undefined name in every place", ps)
    # the same places with a local label and with an anonymous one that do not exist
    ps = []
    for p in places:
        js = json.dumps(p)
        if js.find(_tok(u)) < 0:
            continue
        for v in (sym("@l"), anonref("+"), anonref("-")):
            if '"o": "macdef"' in js and v[0]["t"] != "loc":
                continue
            s = json.loads(js.replace(_tok(u), _tok(v)))
            ps.append(Program(s))
            ps.append(Program([lab("a1"), lab("@l"), ins("nop"), lab("b1")] + s + [lab("c1"), lab("@l"), ins("rts")]))
    c.batch("an undefined local or anonymous label in every place", ps)
    letters = [lab("a1"), lab("b1"), lab("@l"), data(2, sym("@l")), ins("jmp", "dir", sym("@m")), ins("lda", "dir", sym("@l")), lab("@m"),
               if_(num(0), [data(2, sym("@l"))])]
    c.alphabet("local labels that are or are not defined", letters, q(c, 4, 5), 1)
    # an operand that is not needed may be unknown as long as it is defined somewhere
    w, ps = sym("later"), []
    for p in [
        [data(1, bop(num(0), "&&", w))], [data(1, num(7), bop(num(1), "||", w), num(9))], [data(2, bop(u, "||", num(1)), num(3))],
        [data(0, bop(num(0), "&&", w), num(300))], [ins("lda", "imm", bop(num(0), "&&", w)), ins("ldx", "imm", bop(num(1), "||", w))],
        [fill(num(3), bop(num(1), "||", w)), ds(bop(num(0), "&&", w))], [eq("x1", bop(num(1), "||", w)), data(1, sym("x1"))],
        [if_(bop(num(1), "||", w), [ins("nop")]), if_(bop(num(0), "&&", w), [ins("inx")])]]:
        for at in (5, 300):
            ps += [Program(p + [eq("later", num(at))]), Program([ins("nop")] + p + [data(1, num(4)), lab("end1"), eq("later", bop(sym("end1"), "-", num(at)))]),
                   Program([eq("later", num(at))] + p + [ins("nop")])]
    c.batch("operands that are not needed", ps)
    letters = [eq("a1", bop(sym("b1"), "+", num(1))), eq("b1", bop(sym("c1"), "+", num(1))), eq("c1", num(7)),
               data(2, sym("a1")), lab("c1"), ifdef("b1", [data(1, num(9))])]
    c.alphabet("chains of definitions", letters, q(c, 4, 5), 1)
    c.random("programs with undefined names", q(c, 12, 300), make=lambda r: _undefine(r, gens.Gen(r, size=14, mains=0, backward=0.2).program()))


def _tok(e):
    """the tokens of an expression as they appear in a statement"""
    return json.dumps(e)[1:-1]


def _undefine(rng, p):
    """leaves out one definition"""
    ss = p.mains[0][1]
    c = [i for i, s in enumerate(ss) if s["o"] in ("lab", "eq", "anon", "macdef")]
    if c:
        del ss[rng.choice(c)]
    return p


# ---------------------------------------------------------------- C06 expressions
@plan("C06")
def c06(c):
    ops = ["+", "-", "*", "/", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]
    ps = []
    vs = [(5, 3), (0, 7), (300, 2), (255, 255), (7, 8), (0x1234, 1)]
    batch = []

    def add(e):
        batch.append(data(2, bop(par(e), "&", num(0xFFFF))))
        if len(batch) == 16:
            ps.append(Program(list(batch)))
            batch.clear()
    for a in ops:
        for b in ops:
            r = c.rng(a, b)
            for x, y in (vs if not c.quick else vs[:3]):
                z = r.choice([1, 2, 3])
                add(bop(bop(num(x), a, num(y)), b, num(z)))
                add(bop(num(x), a, par(bop(num(y), b, num(z)))))
    for o in ops:
        for x, y in vs:
            add(bop(num(x), o, num(y)))
            add(bop(num(y), o, num(x)) if x or o != "/" else num(x))
        for u in ("<", ">", "~", "!"):
            add(uop(u, bop(num(0x12F3), o, num(3))))
            add(bop(par(uop(u, num(0x12F3))), o, num(3)))
            add(bop(num(3), o, par(uop(u, num(5)))))
        add(neg(bop(num(9), o, num(2))))
    for v in (0, 1, 127, 128, 254, 255, 256, 0x1234, 0xFF00, 0xFFFE, 0xFFFF):
        for u in ("<", ">", "~", "!"):
            add(uop(u, num(v)))
            add(uop(u, par(uop("~", num(v)))))
        add(neg(num(v)))
    if batch:
        ps.append(Program(list(batch)))
    for x in (0, 1, 5, -5, 300):
        for o in ("/",):
            for y in (0, 1, -1, 3, -3):
                ps.append(Program([data(2, bop(par(bop(num(x), o, num(y))), "&", num(0xFFFF)))]))
    c.batch("every pair of operators", ps)
    # operands and results of every size, and both halves of the result
    vs = (0, 1, -1, 200, 256, -256, 32768, 65535, 65536, -65536, 70000, 1 << 24, LIMIT, -LIMIT)
    if not c.quick:
        vs += (2, -2, 127, 128, -128, 255, 32767, -32768, -32769, 65537, -65535, (1 << 24) - 1, 1 << 28)
    es = []
    for o in ops:
        for x in vs:
            for y in (range(0, 29, 1 if not c.quick else 4) if o in ("<<", ">>") else vs):
                z = {"+": x + y, "-": x - y, "*": x * y, "<<": x << y if o == "<<" else 0}.get(o, 0)
                if (o == "/" and y == 0) or abs(z) > LIMIT or (o == "<<" and x < 0):
                    continue
                e = par(bop(wide(x), o, wide(y)))
                es += [bop(e, "&", num(0xFFFF))] + ([bop(par(bop(e, ">>", num(16))), "&", num(0xFFFF))] if o in "+ - * / & | ^ << >>".split() else [])
    c.batch("operands of every size", [Program([data(2, *es[i:i + 12])]) for i in range(0, len(es), 12)])

    def make(r):
        g = gens.Gen(r, size=1)
        g.globals = ["k1", "k2"]
        ss = [eq("k1", num(r.randint(0, 0xFFFF))), lab("k2")]
        for _ in range(14):
            e = g.expr(r.choice([2, 3, 4]))
            ss.append(data(2, bop(par(e), "&", num(0xFFFF))) if r.random() < 0.8 else data(1, uop("<", par(e))))
        for n in g.promised:
            ss.append(eq(n, num(r.randint(0, 0xFFFF))))
        return Program(ss)
    c.random("deep expressions", q(c, 15, 400), make=make, batch=60)


LIMIT = (1 << 29) - 1   # of the specification (Bits.tla)


def wide(v):
    """a number of any size as an expression"""
    if v < 0:
        return par(bop(num(0), "-", wide(-v)))
    return num(v) if v < 0x10000 else par(bop(par(bop(num(v >> 14), "*", num(1 << 14))), "+", num(v & 0x3FFF)))


# ---------------------------------------------------------------- C07 constants and variables
@plan("C07")
def c07(c):
    letters = [eq("k", num(5)), eq("k", num(0x1006)), var("v"), var(("w", sym("k"))), eq("v", bop(sym("v"), "+", num(3))),
               data(2, sym("k"), sym("v")), lab("k")]
    c.alphabet("definitions and assignments", letters, q(c, 4, 5), 1, aspects=("exit", "object", "symbols"))
    letters = [var(("v", num(1)), "w"), eq("v", bop(sym("v"), "*", num(2))), eq("w", sym("v")), data(2, sym("v"), sym("w")),
               if_(bop(sym("v"), ">", num(2)), [eq("w", num(9))], [eq("v", bop(sym("v"), "+", num(2)))])]
    c.alphabet("assignments under conditions", letters, q(c, 4, 6), 1, aspects=("exit", "object", "symbols"))
    # values of every size
    both = lambda n: data(2, bop(par(bop(sym(n), ">>", num(16))), "&", num(0xFFFF)), bop(sym(n), "&", num(0xFFFF)))
    ps = []
    for x in q(c, (0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, 1 << 28, LIMIT),
               [k + d for k in (1 << i for i in range(1, 29)) for d in (-1, 0, 1)] + [LIMIT]):
        for v in (x, -x):
            ps += [Program([var(("v", wide(v))), both("v"), eq("v", bop(sym("v"), "/", num(3))), both("v")]),
                   Program([var("v", ("w", num(1))), eq("v", wide(v)), eq("w", sym("v")), both("w"), if_(bop(sym("w"), "==", wide(v)), [ins("nop")])]),
                   Program([var("v"), macdef("m", [both("v"), if_(sym("v"), [ins("inx")])]), eq("v", wide(v)), call("m"), eq("v", num(3)), call("m")]),
                   Program([eq("k", wide(v)), data(2, sym("k"))]), Program([data(2, bop(sym("k"), "&", num(255))), eq("k", wide(v))]),
                   Program([eq("k", par(bop(wide(v), "-", sym("l")))), data(2, sym("k")), eq("l", bop(wide(v), "-", num(7)))])]
    c.batch("values of every size", ps, ("exit", "object", "symbols"))
    c.random("constants and variables", q(c, 12, 300), aspects=("exit", "object", "symbols"), size=20,
             weights={"const": 8, "var": 5, "assign": 8, "data": 8, "label": 2})


# ---------------------------------------------------------------- C08 sections
@plan("C08")
def c08(c):
    letters = [sect("s"), sect("t"), ends(), lab("n"), eq("n", num(7)), data(2, sym("n")), data(2, sym("s.n")),
               data(2, sym("s.t.n"))]
    c.alphabet("sections and the names in them", letters, q(c, 4, 5), 2, aspects=("exit", "object", "symbols"))
    c.batch("trees of sections", list(_section_trees(q(c, 4, 5))), ("exit", "object", "symbols"))
    m = [macdef("m", [data(2, sym("n")), ins("lda", "dir", sym("n")), if_(bop(sym("n"), "<", num(6)), [ins("nop")])])]
    letters = [sect("s"), sect("t"), ends(), eq("n", num(7)), lab("n"), call("m"), data(1, num(2))]
    c.alphabet("macros called in and between sections", letters, q(c, 4, 6), 2, pre=m, post=[ends(), eq("n", num(0x1234))],
               aspects=("exit", "object", "symbols"))
    m = [macdef("m", [data(2, sym("n"), param(1)), ins("sta", "dir", bop(sym("n"), "+", param(1)))])]
    ps = []
    for own in itertools.product((0, 1, 2), repeat=3):       # in s, in t inside of s, in u: none, a constant, a label
        d = [[[], [eq("n", num(3 + i))], [lab("n")]][o] for i, o in enumerate(own)]
        for order in range(8):
            k = [call("m", num(i + 1)) for i in range(6)]
            for i in range(3):
                if order >> i & 1:
                    k[i] = nop()
            ps.append(Program(m + [k[0], sect("s")] + d[0] + [k[1], sect("t")] + d[1] + [k[2], ends(), k[3], ends(), k[4], sect("u")] + d[2] +
                              [k[5], ends(), call("m", num(9)), eq("n", num(99))]))
    c.batch("a macro called from every section", ps, ("exit", "object", "symbols"))
    c.random("sections", q(c, 12, 400), aspects=("exit", "object", "symbols"), size=28,
             weights={"section": 6, "label": 8, "const": 5, "ins": 10, "data": 5}, backward=0.3)


def _section_trees(n):
    """every nesting of n sections, the same name having a value of its own in each, in most of them and in none"""
    def shapes(k):
        if k == 0:
            return [()]
        return [((a,) + b) for i in range(k) for a in shapes(i) for b in shapes(k - 1 - i)]
    for k in range(1, n + 1):
        for t in shapes(k):
            for own in range(3):
                m = [0]
                quals = []

                def build(ts, path):
                    out = []
                    for x in ts:
                        m[0] += 1
                        i = m[0]
                        q = path + ["s%d" % i]
                        out.append(sect("s%d" % i))
                        if (own == 0) or (own == 1 and i % 2):
                            out.append(eq("k", num(i)) if i % 3 else lab("k"))
                            quals.append(".".join(q) + ".k")
                        out += [data(2, sym("k"))] + build(x, q) + [data(2, sym("k")), ends(), data(2, sym("k"))]
                    return out
                body = build(t, [])
                yield Program([eq("k", num(99))] + body + [data(2, *[sym(x) for x in quals + ["k"]])])
                yield Program([data(2, *[sym(x) for x in quals + ["k"]])] + body + [eq("k", num(99))])


# ---------------------------------------------------------------- C09 local labels
@plan("C09")
def c09(c):
    letters = [lab("p"), lab("q1"), lab("@l"), ins("bne", "dir", sym("@l")), data(2, sym("@l")), ins("nop"), lab("@m"),
               ins("jmp", "dir", sym("@m"))]
    c.alphabet("local labels between global ones", letters, q(c, 4, 5), 2)
    c.random("local labels", q(c, 14, 400), size=24, only=["ins", "label", "local", "branch", "macro", "call", "cond", "section",
                                                        "anon", "const"],
             weights={"local": 8, "branch": 10, "label": 6, "macro": 2, "call": 3})


def far_anons(ns):
    ps = []
    for n in ns:
        for x in ([ins("nop")], [data(1, num(1), num(2))], [anon("-")], [anon("+")]):
            y = x * n
            ps += [Program([anon("-")] + y + [ins("jmp", "dir", anonref("-")), anon("-"), ins("nop")]),
                   Program([ins("jmp", "dir", anonref("+"))] + y + [anon("+"), ins("nop")]),
                   Program([org(num(0x2000)), anon("-"), inc("f.inc", y + [anon("-"), ins("beq", "dir", anonref("-"))]),
                            ins("jmp", "dir", anonref("-"))])]
    return ps


def same_file():
    """letters: files that come again, files whose names differ in case only"""
    b = lambda n, m: [anon("-"), data(1, num(n)), ins("bne", "dir", anonref(m)), ins(m == "-" and "beq" or "bcc", "dir", anonref(m)), anon("+")]
    one, two = inc("ab.inc", b(1, "-")), inc("AB.inc", b(2, "+"))
    return [one, two, inc("aB.inc", [copy.deepcopy(one), ins("nop")]), anon("-"), anon("+"), ins("bmi", "dir", anonref("-")),
            ins("bpl", "dir", anonref("+", 2))]


# ---------------------------------------------------------------- C10 anonymous labels
@plan("C10")
def c10(c):
    letters = [anon("-"), anon("+"), ins("bne", "dir", anonref("-")), ins("beq", "dir", anonref("+")),
               ins("bcc", "dir", anonref("-", 2)), ins("bcs", "dir", anonref("+", 2)), ins("nop")]
    c.alphabet("anonymous labels and references", letters, q(c, 4, 5), 2)
    c.alphabet("files that come again", same_file(), q(c, 3, 4), 1)
    c.batch("anonymous labels far apart", far_anons(q(c, (250, 256, 300), range(240, 300, 3))))
    c.random("anonymous labels", q(c, 14, 400), size=26, only=["ins", "anon", "branch", "label", "cond", "include", "local",
                                                            "loop", "section", "fill"],
             weights={"anon": 10, "branch": 12, "include": 1})


# ---------------------------------------------------------------- C11 macros
@plan("C11")
def c11(c):
    m1 = macdef("m1", [data(2, param(1))])
    m2 = macdef("m2", [lab("@l"), ins("lda", "imm", uop("<", param(2))), call("m1", bop(param(1), "+", param(2))),
                       ins("bne", "dir", sym("@l")), data(2, param(1))])
    letters = [m2, call("m1", num(5)), call("m2", num(1), num(0x203)), call("m1", sym("f")), lab("f"),
               call("m2", sym("f"), bop(pc(), "&", num(255)))]
    c.alphabet("definitions and calls in every order", letters, q(c, 4, 5), 1, pre=[m1])
    ps = []
    for n in range(1, q(c, 8, 40)):
        ms = [macdef("c0", [lab("@l"), data(1, param(1)), ins("bne", "dir", sym("@l"))])]
        for i in range(1, n):
            ms.append(macdef("c%d" % i, [lab("@l"), call("c%d" % (i - 1), bop(param(1), "+", num(i))),
                                         data(2, param(1), sym("@l")), call("c%d" % (i // 2 if n < 9 else 0), param(2), param(1))]
                             if i < 5 or i % 3 else [call("c%d" % (i - 1), param(1), param(2)), data(1, param(1))]))
        ps.append(Program(ms + [call("c%d" % (n - 1), num(3), num(100)), data(1, num(0xFF))]))
    for n in list(range(1, q(c, 12, 70))) + q(c, [15, 16, 17, 18, 25, 26, 31, 32, 33, 64, 65, 99, 100, 101, 130], [99, 100, 101, 127, 128, 129, 255, 256, 257, 300]):
        # many parameters
        ps.append(Program([macdef("m", [data(1, *[param(i) for i in range(n, 0, -1)])]), call("m", *[num(i + 3) for i in range(n)]),
                           call("m", *[sym("f") if i % 3 == 0 else uop("<", sym("f")) for i in range(n)]), setpc(num(0x20)), lab("f")],
                          ))
    c.batch("macros that call macros, many parameters", ps)
    c.random("macros", q(c, 16, 400), size=24, weights={"macro": 5, "call": 9, "section": 1.5, "local": 2, "include": 1})


# ---------------------------------------------------------------- C12 conditionals
@plan("C12")
def c12(c):
    y, n = [data(1, num(1))], [data(1, num(2))]
    letters = [if_(bop(sym("k"), "==", num(5)), y, n), if_(sym("k"), y), ifdef("k", y, n), ifdef("k", y, neg=True),
               eq("k", num(5)), if_(bop(sym("f"), ">", num(0x1001)), [eq("g", num(3))], [eq("g", num(4))]), lab("f"),
               ifdef("d1", [ifdef("g", y, n)], n)]
    for d in ((), (("d1", 1), ("k", 5))):
        c.alphabet("conditions on names, %d defined on the command line" % len(d), letters, q(c, 3, 4), 1,
                   post=[data(1, num(0x77))], opts=opts(d=d))
    c.random("conditionals", q(c, 16, 400), size=22, d=0.5, weights={"cond": 8, "ifdef": 6, "const": 4, "loop": 1.5})


# ---------------------------------------------------------------- C13 loops
def inc1(v):
    return eq(v, bop(sym(v), "+", num(1)))


@plan("C13")
def c13(c):
    ps = []
    rng = range(0, q(c, 4, 7))
    for a in rng:
        for b in rng:
            for st in (1, 2, -1, -2, 3):
                ps.append(Program([var("i"), for_("i", num(a), num(b), [data(1, sym("i"))], num(st) if st != 1 else None),
                                   data(2, sym("i"))]))
            for kind, e in (("while", bop(sym("i"), "<", num(b))), ("do", bop(sym("i"), "<", num(b))),
                            ("repeat", bop(sym("i"), ">=", num(b)))):
                ps.append(Program([var(("i", num(a))), loop(kind, e, [data(1, sym("i")), eq("i", bop(sym("i"), "+", num(1)))]),
                                   data(1, sym("i"))]))
            ps.append(Program([var("i", "j"), for_("i", num(0), num(a), [for_("j", sym("i"), num(b), [
                data(1, bop(bop(sym("i"), "*", num(16)), "+", sym("j")))])])]))
    c.batch("loops with small bounds", ps)
    ps = []
    for o in (0xFFF8, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF):
        for n in range(0, q(c, 12, 20)):
            b = [data(1, num(0xEA)), eq("i", bop(sym("i"), "+", num(1)))]
            ps += [Program([org(num(o)), var(("i", num(0)))] + x) for x in (
                [loop("while", bop(sym("i"), "<", num(n)), b)], [loop("do", bop(sym("i"), "<", num(n)), b)],
                [loop("repeat", bop(sym("i"), ">=", num(n)), b)], [for_("i", num(1), num(n), b[:1])])]
    c.batch("loops up to the end of the memory", ps)
    ps = []
    for a, b in ((0, 3), (2, 2), (3, 1)):
        f = for_("i", num(a), num(b), [data(1, sym("i"))])
        d = var(("i", num(7)), "j")
        for x in ([d, sect("s"), f, ends(), data(1, sym("i"))], [sect("s"), d, f, ends(), data(1, sym("s.i"))],
                  [d, sect("s"), var("i"), f, ends(), data(1, sym("i"), sym("s.i"))], [d, sect("s"), sect("t"), f, ends(), f, ends(), f],
                  [d, sect("s"), for_("j", num(0), num(2), [f]), data(1, sym("j")), ends(), sect("u"), f, ends(), data(1, sym("i"))],
                  [d, macdef("m", [f]), call("m"), sect("s"), call("m"), ends(), call("m"), data(1, sym("i"))],
                  [sect("s"), d, sect("t"), f, ends(), data(1, sym("i")), ends()],
                  [d, sect("s"), loop("repeat", bop(sym("i"), ">=", num(3)), [f]), ends()],
                  [d, sect("s"), f, lab("after"), ends(), data(2, sym("s.after"), sym("i"))]):
            ps += [Program(x), Program([ins("lda", "dir", sym("late"))] + x + [lab("late")])]
    c.batch("loops in sections", ps, ("exit", "object", "symbols"))
    # loops whose variables change in the body
    def change(v, d):
        return eq(v, bop(sym(v), "+" if d > 0 else "-", num(abs(d))))
    ps = []
    decl = var("i", ("n", num(4)), ("t", num(1)))
    for body in ([], [change("n", -1)], [change("n", 1)], [change("i", 1)], [change("t", 1)], [change("n", -1), change("i", -1), change("i", 1)],
                 [if_(bop(sym("i"), "==", num(2)), [eq("n", num(0))])], [if_(bop(sym("i"), ">=", sym("n")), [change("n", -3)])]):
        for z in (sym("n"), bop(sym("n"), "+", sym("t")), bop(sym("l"), "-", sym("b"))):
            for st in (None, sym("t")):
                for pre in (True, False):
                    b = body + [data(1, sym("i"))] if pre else [data(1, sym("i"))] + body
                    ps.append(Program([lab("b"), data(2, num(1)), lab("l"), decl, for_("i", num(1), z, b, st), data(1, sym("i"), sym("n"), sym("t"))]))
        ps.append(Program([decl, for_("i", num(1), num(3), [for_("n", sym("i"), sym("t"), body[:1] and [change("t", 1), data(1, sym("n"))] or
                                                                [data(1, sym("n"))], num(1)), data(1, sym("n"))])]))
    c.batch("loops that change their own bounds", ps)
    # conditions of every size
    ps = []
    for v in (1, -1, 2, -2, 128, 255, 256, -256, 32768, -32768, 65535, 65536, -65536, 3 * 65536, 1 << 24, LIMIT, -LIMIT):
        v = wide(v)
        once = [data(1, sym("i")), inc1("i"), eq("n", num(0))]
        for kind in ("while", "do"):
            ps.append(Program([var(("i", num(0)), ("n", v)), loop(kind, sym("n"), once), data(1, sym("i"))]))
            ps.append(Program([var(("i", num(0))), loop(kind, bop(par(bop(sym("i"), "<", num(3))), "*", v), once[:2]), data(1, sym("i"))]))
        ps.append(Program([var(("i", num(0)), ("n", num(0))), loop("repeat", sym("n"), once[:2] + [if_(bop(sym("i"), "==", num(2)), [eq("n", v)])]),
                           data(1, sym("i"))]))
        ps.append(Program([var(("i", v), ("j", num(0))), loop("while", bop(sym("i"), "!=", par(bop(v, "-", num(3)))), [
            eq("i", bop(sym("i"), "-", num(1))), data(1, sym("j")), inc1("j")])]))
        ps.append(Program([var("i", ("j", num(0))), for_("i", v, par(bop(v, "-", num(3))), [data(1, sym("j")), inc1("j")], num(-1)),
                           data(1, sym("j"))]))
        ps.append(Program([var("i", ("j", num(0))), for_("i", par(bop(v, "-", num(4))), par(bop(v, "-", num(1))), [data(1, sym("j")), inc1("j")], num(2)),
                           data(1, sym("j"))]))
    for a, b, d in ((-3, 0, 1), (3, 0, -1), (-2, 2, 1), (-4, 4, 2), (0, -6, -3), (5, 1, -2)):
        for kind, e in (("while", par(bop(sym("i"), "-", wide(b)))), ("do", par(bop(sym("i"), "-", wide(b)))),
                        ("repeat", bop(sym("i"), "==", wide(b)))):
            ps.append(Program([var(("i", wide(a)), ("j", num(0))), loop(kind, e, [data(1, sym("j")), inc1("j"),
                                                                                 eq("i", bop(sym("i"), "+", wide(d)))])] + [data(1, sym("j"))]))
    for d in (127, 128, 129, 200, 255, 256, 300, 1000, 32767, 32768, 65535, 65536, 70000, 1 << 20, LIMIT // 4) if c.quick else (
            [x + y for x in (1 << k for k in range(1, 27)) for y in (-1, 0, 1) if x + y > 0]):
        for k in (d, -d):
            for a in (0, 7, -k):
                for e in (a + 3 * k, a + 2 * k + (k > 0 and 1 or -1), a + 3 * k - (k > 0 and 1 or -1)):
                    ps.append(Program([var("i", ("j", num(0))), for_("i", wide(a), wide(e), [data(1, sym("j")), data(2, bop(sym("i"), "&", num(0xFFFF))), inc1("j")],
                                                                    wide(k)), data(1, sym("j"))]))
    c.batch("conditions, bounds and steps of every size", ps)
    letters = [loop("repeat", bop(sym("i"), ">=", num(3)), [ins("lda", "dir", sym("f")), inc1("i")]),
               loop("while", bop(sym("i"), "<", num(4)), [data(1, sym("i")), inc1("i")]),
               loop("do", bop(sym("i"), "<", num(5)), [if_(bop(sym("i"), "&", num(1)), [ins("nop")], [ins("inx"), ins("iny")]), inc1("i")]),
               for_("j", num(2), num(0), [data(1, sym("j"), sym("i"))], num(-1)), eq("i", num(0)), lab("f"),
               ins("bne", "dir", sym("f"))]
    c.alphabet("loops one after another", letters, q(c, 3, 4), 1, pre=[var("i", "j")])
    c.random("loops", q(c, 16, 400), size=18, weights={"loop": 6, "forloop": 6, "cond": 2, "macro": 1, "call": 3, "assign": 2})


# ---------------------------------------------------------------- C15 data
@plan("C15")
def c15(c):
    ps = []
    for n in range(1, 256):     # a zero in a string is a known finding
        ps.append(Program([data(z, bytes([n, 65]), num(n), bytes([66, n, 67])) for z in (0, 1, 2)]))
    for z in (0, 1, 2):
        for n in (2, 3, 4, 5, 31, 32, 33, 100, 255, 256, 257):
            ps.append(Program([data(z, bytes(65 + i % 26 for i in range(n)), num(7)), ins("nop")]))
        for n in range(1, 30):
            ps.append(Program([data(z, *[num(i) for i in range(n)]), ins("nop")]))
    for n in list(range(0, 12)) + [255, 256, 257, 1000]:
        ps.append(Program([fill(num(0xAB), num(n)), ins("nop")]))
        ps.append(Program([fill(sym("b"), sym("n")), ins("nop"), eq("b", num(0xAB)), eq("n", num(n))]))
        ps.append(Program([ins("nop"), ds(num(n)), lab("e"), eq("z", sym("e"))]))
        ps.append(Program([ds(num(n)), setpc(pc()), lab("e"), data(2, sym("e"))]))
    c.batch("characters, lengths and counts", ps, ("exit", "object", "listing"))
    ps = []
    lims = [0, 1, 127, 128, 254, 255, 256, 257, 0x7FFF, 0x8000, 0xFEFF, 0xFF00, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x100FF, 0x10100, 0x1FF00,
            -1, -2, -127, -128, -129, -254, -255, -256, -257, -0x7FFF, -0x8000, -0xFF00, -0xFF01, -0xFFFE, -0xFFFF, -0x10000, -0x10001, -0x100FF]
    for v in lims:
        for z in (0, 1, 2):
            e = bop(num(0xFFFF), "+", num(v - 0xFFFF)) if v > 0xFFFF else num(v)
            for x in (e, sym("late"), bop(sym("late2"), "+", num(1))):
                tail = [lab("e1"), ins("jmp", "dir", sym("e1")), data(2, sym("e1"))]
                if x is not e and not 0 < v <= 0xFFFF:
                    continue
                ps.append(Program([data(z, x)] + tail + [eq("late", num(max(0, min(v, 0xFFFF)))), eq("late2", num(max(0, min(v, 0xFFFF) - 1)))]))
                ps.append(Program([data(z, num(1), x, num(2), b"ab", x)] + tail + [eq("late", num(max(0, min(v, 0xFFFF)))),
                                                                                  eq("late2", num(max(0, min(v, 0xFFFF) - 1)))]))
    c.batch("values of every size", ps, ("exit", "object", "symbols", "listing"))
    letters = [data(1, num(200), b"ab"), data(2, b"abc", num(1)), data(2, sym("f"), b"xy"), data(0, num(300), b"q\\z", num(3)),
               fill(num(9), num(3)), lab("f"), data(1, uop("<", sym("f")), uop(">", sym("f")))]
    c.alphabet("data one after another", letters, q(c, 4, 5), 1)
    c.random("data", q(c, 12, 300), size=18, weights={"data": 12, "string": 12, "fill": 5, "ins": 2, "branch": 1, "seg": 1, "load": 1})


# ---------------------------------------------------------------- C16 object image
@plan("C16")
def c16(c):
    letters = [org(num(0x2000)), setpc(num(0x2005)), setpc(bop(pc(), "+", num(3))), ds(num(3)), data(1, num(1)),
               setpc(pc()), data(2, sym("f")), lab("f"), end()]
    for c64 in (False, True):
        c.alphabet("segments and gaps%s" % (", with a load address" if c64 else ""), letters, q(c, 3, 4), 1, opts=opts(c64=c64))
    ps = []
    for o in (0, 1, 0x0801, 0x1000, 0x7FFF, 0x8000, 0xC000, 0xFFF0):
        for c64 in (False, True):
            for body in ([ins("lda", "dir", sym("f")), lab("f"), data(2, sym("f"))], [ds(num(3)), setpc(pc()), data(2, pc())],
                         [fill(num(1), num(3))], [lab("f"), ins("bne", "dir", sym("f"))], []):
                ps.append(Program([org(num(o))] + body, opts(c64=c64)))
                ps.append(Program([setpc(num(o))] + body, opts(c64=c64)))
                ps.append(Program([mode("c64"), org(num(o))] + body))
    for o in (0xFFF8, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF):
        for n in range(0, q(c, 10, 20)):
            ps += [Program([org(num(o))] + x) for x in (
                [fill(num(1), num(n))], [ds(num(n)), lab("q")], [ds(num(n)), lab("q"), data(2, sym("q"))],
                [ds(num(n)), ins("lda", "dir", num(300)), lab("q"), data(2, sym("q"))], [ds(num(n)), ins("bne", "dir", pc())],
                [ds(num(n)), setpc(pc()), data(2, num(1), num(2))], [load("x.bin", bytes(range(n)))])]
    c.batch("origins", ps, ("exit", "object", "symbols", "listing"))
    # .ds and .fill with operands that are out of range as long as a name is unknown; space in front of, between and behind bytes
    ps = []
    for k in (0x1000, 300, 0xFFFF):
        for n in (0, 1, 3, 200):
            for e in (bop(sym("late"), "-", num(k - n)) if n <= k else num(n), bop(par(bop(num(k), "+", num(n))), "-", sym("late"))):
                for x in ([fill(num(7), e)], [fill(e, num(2))], [fill(e, e)], [ds(e)], [ds(e), setpc(pc())], [setpc(pc()), ds(e)]):
                    for c64 in (False, True):
                        ps.append(Program(x + [lab("e1"), data(2, sym("e1")), eq("late", num(k))], opts(c64=c64)))
                        if n and k == 0x1000:
                            ps.append(Program([ins("nop")] + x + [lab("e1"), data(2, sym("e1")), eq("late", num(k))], opts(c64=c64)))
    for c64 in (False, True):
        for first in ([], [ins("nop")], [org(num(0x2000))], [org(num(0x2000)), data(2, num(1), num(2))], [setpc(num(0x3000)), data(1, num(1)), setpc(num(0x2000))],
                      [data(1, num(1), num(2), num(3)), setpc(pc())], [load("h.bin", b"abcdefgh"), setpc(bop(pc(), "+", num(1)))]):
            for n in (1, 2, 3, 4, 5, 8, 9, 300):
                for last in ([], [ins("nop")], [data(1, num(1)), lab("q1")], [fill(num(1), num(n))], [load("l.bin", b"xyz")], [data(1, b"s")],
                             [ins("bne", "dir", pc())], [fill(num(0), num(0))]):
                    ps.append(Program(first + [ds(num(n))] + last, opts(c64=c64)))
                    ps.append(Program(first + [ds(num(n)), setpc(pc())] + last + [ds(num(n))], opts(c64=c64)))
                    ps.append(Program(first + [ins("inx"), ds(num(n))] + last, opts(c64=c64)))
    # space and data of every length
    for n in q(c, (127, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 20000, 32767, 32768, 40000),
               [x + d for x in (1 << k for k in range(5, 16)) for d in (-1, 0, 1, 7)] + [40000, 50000, 60000, 0xEFFE]):
        tail = [lab("e1"), setpc(num(0x1000)), data(2, sym("e1"))]
        ps += [Program([org(num(0x1000)), ins("nop"), ds(num(n))] + tail, opts(c64=bool(n & 1))), Program([ds(num(n)), lab("q1"), ds(num(n // 3))] + tail),
               Program([setpc(num(n)), ds(num(9)), ds(num(n // 2)), lab("q1"), setpc(num(n)), data(2, sym("q1"), pc())])]
        for v in (1, 0x1FF):
            if n * (1 + (v > 255)) < 0xF000 and n < 21000:
                ps.append(Program([fill(num(v), num(n)), lab("e1"), data(2, sym("e1"))]))
    c.batch("reserved space and operands that are known late", ps, ("exit", "object", "symbols"))
    inc1 = eq("i", bop(sym("i"), "+", num(1)))
    letters = [if_(num(1), [ins("inx"), end(), ins("iny")], [ins("dex")]), if_(bop(sym("g"), ">", num(0x1004)), [end()]),
               ifdef("g", [end(), ins("inx")]), loop("repeat", bop(sym("i"), ">=", num(3)), [data(1, sym("i")), inc1, end()]),
               loop("repeat", bop(sym("i"), ">=", num(5)), [inc1, if_(bop(sym("i"), "==", num(2)), [end()]), data(1, sym("i"))]),
               loop("while", bop(sym("i"), "<", num(5)), [inc1, if_(bop(sym("i"), "==", num(2)), [end()]), data(1, sym("i"))]),
               for_("j", num(0), num(4), [data(1, sym("j")), if_(bop(sym("j"), "==", num(1)), [end()])]),
               reg("x", num(0), num(3), True, [ins("nop"), end()]), inc("end.inc", [lab("g"), data(2, sym("h")), end(), ins("sei")]),
               call("me"), data(2, sym("h")), lab("h")]
    c.alphabet("where a program ends", letters, q(c, 2, 3), 1, pre=[var("i", "j"), macdef("me", [ins("clc"), end(), ins("cli")])],
               post=[ins("rts")], aspects=("exit", "object", "symbols", "listing"))
    c.random("segments", q(c, 10, 300), aspects=("exit", "object", "listing"), size=18, c64=0.5,
             weights={"seg": 5, "fill": 3, "data": 6, "far": 0.5})


# ---------------------------------------------------------------- C17 several files
@plan("C17")
def c17(c):
    i1 = inc("one.inc", [lab("x1"), data(2, sym("x1"), sym("f"))])
    i2 = inc("two.inc", [inc("three.inc", [anon("-"), ins("bne", "dir", anonref("-"))]), ins("jmp", "dir", sym("x1"))])
    ld = load("raw.bin", bytes(range(0, 255, 7)) + b"\n\r\x1a\0")
    letters = [inc("a1.inc", [data(1, num(1)), call("m", num(3))]), i2, ld, lab("f"), macdef("m", [data(1, param(1))]),
               load("missing.bin", None), inc("e.inc", [if_(bop(sym("f"), ">", num(0x1003)), [data(1, num(8))])])]
    c.alphabet("included and loaded files", letters, q(c, 3, 4), 1, pre=[i1], aspects=("exit", "object", "symbols"))
    ps = []
    for n in q(c, (1100,), (300, 1030, 2200)):      # more files than can be open at a time
        ps.append(Program([inc("one.inc", [data(1, num(1))]) for _ in range(n)] + [lab("e1"), data(2, sym("e1"))]))
        ps.append(Program([load("r%d.bin" % (i % 7), bytes([i % 7])) for i in range(n)] + [lab("e1"), data(2, sym("e1"))]))
    c.batch("many files", ps, ("exit", "object", "symbols"))
    c.alphabet("files that come again", same_file(), q(c, 3, 4), 1, aspects=("exit", "object", "symbols"))
    ps = []
    for n in q(c, (1, 2, 255, 256, 257, 4095, 4096, 4097, 4098, 5001, 20000),
               [x + d for x in (128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768) for d in (-1, 0, 1, 2)] + [49152, 57000]):
        raw = c.rng("raw", n).randbytes(n)
        ps.append(Program([load("raw.bin", raw), lab("e1"), ins("jmp", "dir", sym("e1"))]))
        ps.append(Program([org(num(0x200)), ins("nop"), inc("l.inc", [load("raw.bin", raw[:n // 2 + 1]), load("RAW.bin", raw[::-2] or b"z")]), lab("e1"),
                           data(2, sym("e1"))]))
    c.batch("binaries of every length", ps, ("exit", "object", "symbols"))
    c.random("programs in several files", q(c, 12, 300), aspects=("exit", "object", "symbols"), make=split_program)
    c.random("includes", q(c, 10, 300), aspects=("exit", "object", "symbols", "listing"), size=24,
             weights={"include": 4, "load": 1.5, "anon": 2, "macro": 2})


def split_program(r):
    """one program in one to four input files"""
    p = gens.Gen(r, size=20, mains=0, weights={"include": 0.6}).program()
    ss = p.mains[0][1]
    n = r.randint(1, 4)
    cuts = sorted(r.randint(0, len(ss)) for _ in range(n - 1))
    parts = []
    last = 0
    for k, x in enumerate(cuts + [len(ss)]):
        parts.append(("m%d.asm" % k, ss[last:x] or [nop()]))
        last = x
    return Program(parts, p.opts)
