"""Random programs.  Gen(rng, **weights) makes one program of the language the specification covers."""
import random
import re

from prog import *

# what one letter of a program may be; the numbers are relative frequencies
DEFAULT = dict(ins=10, branch=4, label=4, const=2, data=4, string=1.5, local=2, anon=1.5, macro=1.2, call=2, cond=1.5,
               ifdef=0.8, loop=0.8, forloop=0.8, reg=0.6, section=0.7, var=0.8, assign=0.8, fill=0.5, seg=0.4, load=0.2,
               include=0.3, prnt=0.4, mode=0.2, far=0.2)

NMOS_DIR = "adc and asl bit cmp cpx cpy dec eor inc lda ldx ldy lsr ora rol ror sbc sta stx sty".split()
NMOS_ABSONLY = ["jmp", "jsr"]
NMOS_X = "adc and asl cmp dec eor inc lda ldy lsr ora rol ror sbc sta sty".split()
NMOS_Y = "adc and cmp eor lda ldx ora sbc sta stx".split()
NMOS_IND = "adc and cmp eor lda ora sbc sta".split()
IMM = "adc and cmp cpx cpy eor lda ldx ldy ora sbc".split()
IMP = "brk clc cld cli clv dex dey inx iny nop pha php pla plp rti rts sec sed sei tax tay tsx txa txs tya".split()
ACC = "asl lsr rol ror".split()
BRANCH = "bcc bcs beq bmi bne bpl bvc bvs".split()
CMOS_IMP = "phx phy plx ply".split()
ILL_DIR = "slo rla sre rra sax lax dcp isc".split()
ZP_ONLY_X = ["sty"]         # sty zp,x has no absolute form
ZP_ONLY_Y = ["stx"]


class Gen:
    def __init__(self, rng, size=14, cpu=None, ill=None, weights=None, only=None, org=None, errors=0.04, d=0.15,
                 backward=0.5, c64=0.15, nowarn=0.15, mains=0.12):
        self.r = rng
        self.size = size
        self.w = dict(DEFAULT)
        if only is not None:
            self.w = {k: v for k, v in self.w.items() if k in only}
        if weights:
            self.w.update(weights)
        self.errors = errors
        self.cpu = cpu or rng.choice(["6502", "6502", "65c02"])
        self.ill = (self.cpu == "6502" and rng.random() < 0.2) if ill is None else ill
        self.org = org
        self.pd = d
        self.backward = backward
        self.pc64 = c64
        self.pnowarn = nowarn
        self.pmains = mains     # several input files
        self.globals = []       # labels and constants known so far
        self.promised = []      # names referred to, to be defined later
        self.locals = []
        self.spent = []         # local labels in front, in other sections
        self.vars = []
        self.macros = []        # (name, arity)
        self.sections = []      # open sections: (name, [names])
        self.closed = []        # qualified names
        self.dnames = []
        self.n = 0
        self.arity = None       # inside a macro
        self.files = 0
        self.depth = 0
        self.again = []         # included files that define nothing
        self.anon_ok = False
        self.minus = 0          # anonymous labels in this file so far
        self.plus = 0           # and those that are still to come
        self.loopvars = []

    # ------------------------------------------------------------ helpers
    def fresh(self, p):
        self.n += 1
        r = self.r.random()
        if r < 0.8:
            return "%s%d" % (p, self.n)
        if r < 0.84:
            # words of the language with something behind them
            return self.r.choice(["lda", "and", "not", "x", "y", "a", "inc", "org", "if", "rol", "b", "reg", "byte", "to"]) + str(self.n)
        if r < 0.87:
            return self.r.choice(["_%s%d", "__%s_%d", "%s_%d_"]) % (p, self.n)
        if r < 0.9:
            return "%s%d%s" % (p, self.n, self.r.choice(["andy", "lda", "x", "a", "_"]))
        if r < 0.97:
            return ("a_name_of_many_letters_%s" % p)[:self.r.randint(13, 24)] + str(self.n)
        return p * self.r.randint(30, 60) + str(self.n)

    def chance(self, p):
        return self.r.random() < p

    def lit(self, big=False):
        r = self.r.random()
        if r < 0.5:
            return self.r.randint(0, 255)
        if r < 0.7:
            return self.r.choice([0, 1, 2, 127, 128, 254, 255])
        if r < 0.85:
            return self.r.choice([256, 257, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x100, 0xFF00])
        return self.r.randint(0, 0xFFFF)

    def name(self, forward=True):
        """some symbol, or None"""
        c = []
        if self.globals:
            c += ["g"] * 4
        if self.sections and self.sections[-1][1]:
            c += ["s"] * 4
        if self.closed:
            c += ["q"] * 2
        if forward and self.chance(1 - self.backward):
            c += ["f"] * 3
        if self.vars:
            c += ["v"] * 2
        if self.loopvars:
            c += ["l"] * 2
        if not c:
            return None
        k = self.r.choice(c)
        if k == "g":
            return self.r.choice(self.globals)
        if k == "s":
            return self.r.choice(self.sections[-1][1])
        if k == "q":
            return self.r.choice(self.closed)
        if k == "v":
            return self.r.choice(self.vars)
        if k == "l":
            return self.r.choice(self.loopvars)
        if self.promised and self.chance(0.6):
            return self.r.choice(self.promised)
        n = self.fresh("f")
        self.promised.append(n)
        return n

    def atom(self, elem=False):
        r = self.r.random()
        if self.arity and r < 0.45:
            return param(self.r.randint(1, self.arity))
        if r < 0.5:
            return num(self.lit())
        if r < 0.56:
            return pc()
        if r < 0.62:
            v = self.r.randint(1, 300)
            return num(-v)
        n = self.name()
        return sym(n) if n else num(self.lit())

    def expr(self, depth=2):
        r = self.r.random()
        if depth == 0 or r < 0.35:
            return self.atom()
        if r < 0.45:
            return par(self.expr(depth - 1))
        if r < 0.55:
            o = self.r.choice(["<", ">", "~", "!"])
            e = self.expr(depth - 1)
            # a second < or > has to be in parentheses
            return uop(o, par(e) if self.chance(0.5) or e[0]["t"] in ("u", "pc") else e)
        if r < 0.6:
            return neg(self.expr(depth - 1))
        o = self.r.choice(["+", "-", "+", "-", "*", "/", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=",
                           "&&", "||"])
        a, b = self.expr(depth - 1), self.expr(depth - 1)
        if o in ("<<", ">>"):
            b = num(self.r.randint(0, 8))
        if o == "/" and not self.chance(0.1):
            b = num(self.r.randint(1, 9))
        if o in ("&&", "||"):
            b = num(self.r.randint(0, 3))
        return bop(a, o, b)

    def byte(self):
        """an expression that fits a byte"""
        if self.chance(self.errors):
            return self.expr(2)
        r = self.r.random()
        if r < 0.4:
            return num(self.r.randint(0, 255))
        if self.arity and r < 0.6:
            return bop(param(self.r.randint(1, self.arity)), "&", num(255)) if self.chance(0.7) else \
                uop("<", param(self.r.randint(1, self.arity)))
        e = self.expr(2)
        return uop(self.r.choice("<>"), par(e))

    def word(self):
        if self.chance(self.errors):
            return self.expr(2)
        r = self.r.random()
        if r < 0.45:
            return num(self.r.randint(0, 0xFFFF))
        if r < 0.8:
            return self.addr()
        return bop(par(self.expr(2)), "&", num(0xFFFF))

    def addr(self):
        r = self.r.random()
        if self.arity and r < 0.3:
            return param(self.r.randint(1, self.arity))
        n = self.name()
        if n is None:
            return num(self.lit())
        if r < 0.75:
            return sym(n)
        return bop(sym(n), self.r.choice(["+", "-"]), num(self.r.randint(0, 9)))

    def cond(self):
        r = self.r.random()
        a = self.atom()
        if r < 0.7:
            return bop(a, self.r.choice(["==", "!=", "<", ">", "<=", ">="]), num(self.r.choice([0, 1, 5, 100, 4096, 8192])))
        return self.expr(2)

    # ------------------------------------------------------------ statements
    def ins(self):
        r = self.r.random()
        c = self.r.choice
        if self.cpu == "65c02" and r < 0.12:
            x = self.r.random()
            if x < 0.3:
                return ins(c(CMOS_IMP))
            if x < 0.5:
                return ins(c(["stz", "trb", "tsb"]), "dir", self.addr())
            if x < 0.6:
                return ins("stz", "dirx", self.addr())
            if x < 0.8:
                return ins(c(NMOS_IND), "ind", uop("<", par(self.expr(1))))
            return ins(c(["bit", "lda"]), "imm", self.byte())
        if self.ill and r < 0.12:
            return ins(c(ILL_DIR), "dir", self.addr())
        r = self.r.random()
        if r < 0.2:
            return ins(c(IMP))
        if r < 0.25:
            return ins(c(ACC), "acc")
        if r < 0.42:
            return ins(c(IMM), "imm", self.byte())
        if r < 0.7:
            return ins(c(NMOS_DIR), "dir", self.addr() if self.chance(0.7) else num(self.lit()))
        if r < 0.8:
            m = c(NMOS_X)
            return ins(m, "dirx", self.byte() if m in ZP_ONLY_X else self.addr())
        if r < 0.86:
            m = c(NMOS_Y)
            return ins(m, "diry", self.byte() if m in ZP_ONLY_Y else self.addr())
        if r < 0.9:
            return ins(c(NMOS_IND), c(["indx", "indy"]), self.byte())
        if r < 0.92:
            return ins("jmp", "ind", self.addr())
        return ins(c(NMOS_ABSONLY), "dir", self.addr())

    def target(self):
        """what a branch may go to"""
        r = self.r.random()
        if self.locals and r < 0.3:
            return sym(self.r.choice(self.locals))
        if self.anon_ok and r < 0.55 and self.depth == 0:
            ch, n = self.r.choice("+-"), self.r.choice([1, 1, 1, 2])
            if ch == "+":
                self.plus = max(self.plus, n)
            if ch == "+" or n <= self.minus or self.chance(self.errors):
                return anonref(ch, n)
        n = self.name()
        if n is None or self.chance(0.15):
            return bop(pc(), self.r.choice("+-"), num(self.r.randint(0, 126)))
        return sym(n)

    def branch(self):
        m = self.r.choice(BRANCH + (["bra"] * 3 if self.cpu == "65c02" else []))
        return ins(m, "dir", self.target())

    def elements(self, z, strings):
        xs = []
        for _ in range(self.r.randint(1, 4)):
            if self.chance(strings):
                xs.append(self.text())
            elif z == 1:
                xs.append(self.byte())
            else:
                xs.append(self.word())
        return xs

    def text(self):
        n = self.r.randint(2, 9)
        if self.chance(0.2):
            return bytes(self.r.choice([7, 8, 9, 10, 13, 34, 39, 92, 127, 200, 255, 1, 59, 47, 42]) for _ in range(n))
        return bytes(self.r.choice(b"abcXYZ 019,.;:*/+-()#'\\\"$%") for _ in range(n))

    def data(self, strings=0.1):
        z = self.r.choice([1, 1, 2, 2, 0])
        return data(z, *self.elements(z, strings))

    def simple(self):
        r = self.r.random()
        if r < 0.6:
            return self.ins()
        if r < 0.8:
            return self.branch()
        return self.data()

    def define_name(self, p):
        """a name for a new label or constant"""
        if self.promised and self.chance(0.6) and not self.sections:
            n = self.promised.pop(self.r.randrange(len(self.promised)))
        else:
            n = self.fresh(p)
            if self.sections and self.closed and self.chance(0.3):
                # the same name in another section
                m = self.r.choice(self.closed).rsplit(".", 1)[-1]
                if m not in self.globals and m not in self.promised and m not in self.sections[-1][1]:
                    n = m
        if self.sections:
            self.sections[-1][1].append(n)
        else:
            self.globals.append(n)
        return n

    def body(self, n, in_macro=False):
        """statements inside of another statement"""
        self.depth += 1
        vs = list(self.vars)
        out = []
        for _ in range(self.r.randint(1, n)):
            k = self.pick(["ins", "branch", "data", "string", "call", "cond", "loop", "forloop", "reg", "assign", "ifdef",
                           "prnt"] if self.depth < 3 else ["ins", "branch", "data"])
            out += self.make(k)
        self.depth -= 1
        if not self.chance(self.errors):
            self.vars = vs
        return out

    def pick(self, among=None):
        ks = [k for k in (among or self.w) if self.w.get(k, 0) > 0]
        if not ks:
            return "ins"
        return self.r.choices(ks, [self.w[k] for k in ks])[0]

    def make(self, k):
        """a list of statements of kind k"""
        top = self.depth == 0
        if k == "ins":
            return [self.ins()]
        if k == "branch":
            return [self.branch()]
        if k == "data":
            return [self.data()]
        if k == "string":
            return [self.data(0.7)]
        if k == "label":
            self.locals, self.spent = [], []
            return [lab(self.define_name("l"))]
        if k == "local":
            n = "@" + self.r.choice(["a", "b", "c1", "loop", "a_local_of_many_letters", "a_local_of_many_letters_2"])
            if n in self.locals or (n in self.spent and not self.chance(self.errors)):
                return [self.branch()]
            self.locals.append(n)
            return [lab(n)]
        if k == "anon":
            self.anon_ok = True
            ch = self.r.choice("+-")
            if ch == "-":
                self.minus += 1
            else:
                self.plus = max(0, self.plus - 1)
            return [anon(ch), self.simple()]
        if k == "const":
            e = self.expr(2) if self.chance(0.5) else num(self.lit())
            if self.chance(0.8):
                e = bop(par(e), "&", num(0xFFFF))
            return [eq(self.define_name("c"), e)]
        if k == "var":
            n = self.fresh("v")
            x = var((n, self.expr(1))) if self.chance(0.6) else var(n)
            self.vars.append(n)
            return [x]
        if k == "assign":
            if not self.vars or self.arity is not None:
                return [self.ins()]
            n = self.r.choice(self.vars)
            return [eq(n, bop(sym(n), self.r.choice("+-"), num(self.r.randint(0, 9))) if self.chance(0.7) else self.expr(1))]
        if k == "macro":
            a = self.r.choice([0, 1, 1, 2, 3])
            n = self.fresh("mac")
            save = (self.arity, self.locals, self.anon_ok, self.minus, self.plus)
            self.arity, self.locals, self.anon_ok = a, [], False
            b = []
            if self.chance(0.5):
                self.locals = ["@m"]
            b = self.body(4)
            if self.locals:
                b.insert(self.r.randint(0, len(b)), lab("@m"))
            self.arity, self.locals, self.anon_ok, self.minus, self.plus = save
            self.macros.append((n, a))
            return [macdef(n, b)]
        if k == "call":
            if not self.macros:
                return [self.ins()]
            n, a = self.r.choice(self.macros)
            return [call(n, *[self.word() if self.chance(0.6) else self.byte() for _ in range(a)])]
        if k == "cond":
            return [if_(self.cond(), self.body(3), self.body(3) if self.chance(0.5) else None)]
        if k == "ifdef":
            ns = self.globals + self.dnames + self.promised + ["nowhere"]
            return [ifdef(self.r.choice(ns), self.body(2), self.body(2) if self.chance(0.5) else None,
                          neg=self.chance(0.5))]
        if k == "loop":
            if self.arity is not None:
                return [self.ins()]
            v = self.fresh("v")
            kind = self.r.choice(["while", "repeat", "do"])
            if self.depth > 0 and kind != "repeat":
                kind = "repeat"     # .while ends a .do that it stands in
            n = self.r.randint(1, 4)
            cond = bop(sym(v), "<", num(n)) if kind != "repeat" else bop(sym(v), ">=", num(n))
            self.loopvars.append(v)
            save = self.w
            self.w = dict(self.w, loop=0)
            b = self.body(2)
            self.w = save
            self.loopvars.pop()
            b.insert(self.r.randint(0, len(b)), eq(v, bop(sym(v), "+", num(1))))
            self.vars.append(v)
            return [var((v, num(self.r.choice([0, 0, 1, 9]))) if kind != "do" else (v, num(0))), loop(kind, cond, b)]
        if k == "forloop":
            v = self.fresh("i")
            a, z = self.r.randint(0, 5), self.r.randint(0, 5)
            st = None
            if self.chance(0.5):
                s = self.r.choice([1, 2, 3, -1, -2])
                st = num(s)
            self.loopvars.append(v)
            b = self.body(2)
            self.loopvars.pop()
            return [var(v), for_(v, num(a), num(z), b, st)]
        if k == "reg":
            used = getattr(self, "regs", set())
            r = self.r.choice("xy")
            if r in used or self.arity is not None:
                return [self.ins()]
            up = self.chance(0.6)
            a, z = self.r.choice([0, 0, 1, 5, 250]), self.r.choice([0, 1, 3, 10, 254, 255])
            if not up:
                a, z = max(a, z), max(1, min(a, z))
            self.regs = used | {r}
            w = self.w
            self.w = dict(w, call=0)
            b = self.body(3)
            self.w = w
            self.regs = used
            return [reg(r, num(a), num(z), up, b)]
        if k == "section":
            if len(self.sections) >= 4 or not top:
                return [self.ins()]
            n = self.fresh("s")
            self.sections.append((n, []))
            saveloc = self.locals
            out = [sect(n)]
            saved, savedloop = self.vars, self.loopvars
            self.vars, self.loopvars = list(saved), []
            for _ in range(self.r.randint(1, 5)):
                out += self.make(self.pick(["ins", "branch", "data", "label", "const", "local", "call", "cond", "section",
                                            "forloop", "var", "assign", "loop", "anon", "include", "ifdef", "fill", "macro", "prnt"]))
            path = ".".join(x[0] for x in self.sections)
            _, names = self.sections.pop()
            names = names + [v for v in self.vars if v not in saved]
            self.vars, self.loopvars = (self.vars if self.chance(self.errors) else saved), savedloop
            self.closed += [path + "." + x for x in names]
            self.spent = self.spent + saveloc + self.locals
            self.locals = []
            return out + [ends()]
        if k == "fill":
            return [fill(self.byte(), num(self.r.randint(0, 9)))]
        if k == "seg":
            if not top:
                return [self.ins()]
            if self.chance(0.5):
                return [ds(num(self.r.randint(1, 20))), setpc(pc())]
            return [setpc(num(self.r.choice([0x0080, 0x2000, 0x3000, 0x80F0])))]
        if k == "load":
            self.files += 1
            return [load("f%d.bin" % self.files, bytes(self.r.randrange(256) for _ in range(self.r.randint(1, 20))))]
        if k == "include":
            if not top or self.files > 6:
                return [self.ins()]
            if self.again and self.chance(0.3):     # a file once more
                return [self.r.choice(self.again)]
            self.files += 1
            name = "i%d.inc" % self.files
            if self.chance(0.2):        # names that differ in case only
                name = "I%d.inc" % (self.files - 1)
            anon_ok = self.anon_ok, self.minus, self.plus
            self.anon_ok, self.minus, self.plus = False, 0, 0
            self.nest = getattr(self, "nest", 0) + 1
            b = []
            w = self.w
            if self.nest > 2:
                self.w = dict(w, include=0)
            for _ in range(self.r.randint(1, 5)):
                b += self.make(self.pick())
            self.w = w
            self.nest -= 1
            b += self.comes()
            self.anon_ok, self.minus, self.plus = anon_ok
            if not re.search(r"'o': '(lab|eq|macdef|sect|var|mode|org|ifdef|end)'", repr(b)):
                self.again.append(inc(name, b))
            return [inc(name, b)]
        if k == "prnt":
            return [prnt(*[self.text() if self.chance(0.5) else self.expr(1) for _ in range(self.r.randint(1, 3))],
                         all=self.chance(0.3))]
        if k == "mode":
            if not top:
                return [self.ins()]
            x = self.r.choice(["warn", "nowarn", "list", "nolist", "c64"])
            return [mode(x)]
        if k == "far":
            # something for branches to be too far for
            return [fill(num(0xEA), num(self.r.choice([90, 118, 124, 126, 127, 130])))]
        raise ValueError(k)

    def comes(self):
        """the anonymous labels that were referred to and are still missing"""
        out = []
        while self.plus > 0:
            self.plus -= 1
            if not self.chance(self.errors):
                out += [anon("+"), ins(self.r.choice(IMP))]
        return out

    def program(self):
        out = []
        d = []
        if self.chance(self.pd):
            for _ in range(self.r.randint(1, 2)):
                n = self.fresh("d")
                d.append((n, self.lit()))
                self.globals.append(n)
                self.dnames.append(n)
        if self.org is not None:
            out.append(org(num(self.org)))
        elif self.chance(0.6):
            out.append(org(num(self.r.choice([0, 0x0010, 0x00F0, 0x0801, 0x1000, 0x2000, 0xC000]))))
        mains = []
        files = self.r.choice([2, 2, 3, 4]) if self.chance(self.pmains) else 1
        for i in range(self.size):
            out += self.make(self.pick())
            if (i + 1) * files // self.size > len(mains) and len(mains) < files - 1:
                # anonymous labels belong to their file
                out += self.comes()
                mains.append(("m%d.asm" % len(mains), out))
                out = []
                self.anon_ok, self.minus = False, 0
        out += self.comes()
        while self.promised:
            if self.chance(self.errors):
                self.promised.pop()
                continue
            n = self.promised.pop()
            self.globals.append(n)
            if self.chance(0.5):
                out += [lab(n), self.simple()]
            else:
                out.append(eq(n, num(self.lit())))
        return Program(mains + [("m.asm", out)] if mains else out, opts(self.cpu, self.ill, self.chance(self.pnowarn), self.chance(self.pc64), d))


def mentioned(p):
    """the names that occur in expressions anywhere in the program, the parts behind the last dot"""
    names = set()
    defined = set()

    def toks(ts):
        for t in ts:
            if t.get("t") in ("id", "qid"):
                names.add(t["n"].rsplit(".", 1)[-1])

    def walk(ss, inner=True):
        for s in ss:
            for k in ("e", "a", "s"):
                if isinstance(s.get(k), list):
                    toks([t for t in s[k] if isinstance(t, dict)])
            if s["o"] == "fill":
                toks(s["n"])
            if s["o"] == "ifdef":
                names.add(s["n"].rsplit(".", 1)[-1])
            if s["o"] in ("lab", "eq"):     # a name defined once more
                n = s["n"]["n"].rsplit(".", 1)[-1]
                if n in defined or inner:
                    names.add(n)
                defined.add(n)
            for x in s.get("xs", []):
                if "e" in x:
                    toks(x["e"])
            for a in s.get("as", []):
                toks(a)
            for b in s.get("bs", []):
                walk(b)
            for k in ("t", "f", "body"):
                if isinstance(s.get(k), list):
                    walk(s[k])
    for _, ss in p.mains:
        walk(ss, False)
    return names
