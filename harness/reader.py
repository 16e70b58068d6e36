"""Reads source text into the statements of prog.py: the way back, for programs that somebody else wrote.  All names
become lower case: upper and lower case mean the same.

Only what the specification covers is read; anything else raises Unreadable.
"""
import re

import prog
from prog import Program

MNEMONICS = """ora and eor adc sbc cmp cpx cpy dec dex dey inc inx iny asl rol lsr ror lda sta ldx stx ldy sty tax txa tay
tya tsx txs pla pha plp php bpl bmi bvc bvs bcc bcs bne beq brk rti jsr rts jmp bit clc sec cld sed cli sei clv
nop""".split()
M65C02 = "bra phx phy plx ply stz trb tsb stp wai".split()
BRANCH_OPS = {"<>": "!="}
TOKEN = re.compile(r"""
    (?P<str>"(?:[^"\\]|\\.)*") | (?P<chr>'(?:\\x[0-9a-f]+|\\[0-7]{3}|\\.|[^\\])') |
    (?P<num>\$[0-9a-f]+ | %[01]+ | 0b[01]+ | [0-9]+) |
    (?P<dir>\.[a-z0-9]+) | (?P<mp>\\[1-9][0-9]*) | (?P<sym>@?[a-z_][a-z0-9_.]*:?) |
    (?P<sign>[+-]+) | (?P<op><<|>>|<=|>=|<>|==|!=|\|\||&&|\?\?|[|&^*/<>=~(),\#?]) | (?P<ws>[ \t]+)
""", re.I | re.X)
ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "'": 39, '"': 34, "\\": 92}


class Unreadable(Exception):
    pass


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        c = s[i + 1:i + 2].lower()
        m = re.compile(r"x([0-9a-f]+)", re.I).match(s, i + 1)
        if m:
            h = m.group(1)
            h = h if len(h) % 2 == 0 else "0" + h
            out += bytes.fromhex(h)
            i = m.end()
        elif c in ESC:
            out.append(ESC[c])
            i += 2
        else:
            raise Unreadable("escape " + s)
    return bytes(out)


def without_comments(text):
    """the lines of the text, comments taken away, as [(line number, text)]"""
    out = []
    inside = False
    r = ""
    for no, ln in enumerate(text.replace("\r\n", "\n").split("\n"), 1):
        i = 0
        while i < len(ln):
            if inside:
                k = ln.find("*/", i)
                if k < 0:
                    i = len(ln)
                else:
                    inside = False
                    i = k + 2
                continue
            if ln.startswith("/*", i):
                inside = True
                i += 2
                continue
            if ln[i] == ";" or ln.startswith("//", i):
                break
            m = TOKEN.match(ln, i)
            if not m:
                raise Unreadable("%d: %s" % (no, ln))
            r += m.group(0)
            i = m.end()
        if not inside:      # the end of a line in a comment is none
            out.append((no, r))
            r = ""
    if inside:
        raise Unreadable("a comment without an end")
    return out


def tokens(ln):
    out = []
    i = 0
    while i < len(ln):
        m = TOKEN.match(ln, i)
        if not m:
            raise Unreadable(ln)
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group(0)))
        i = m.end()
    return out


def number(k, t):
    if k == "num":
        if t[0] == "$":
            return int(t[1:], 16)
        if t[0] == "%":
            return int(t[1:], 2)
        if t[:2].lower() == "0b":
            return int(t[2:], 2)
        return int(t)
    if k == "chr":
        m = re.fullmatch(r"'\\([0-7]{3})'", t)
        if m:
            return int(m.group(1), 8)
        m = re.fullmatch(r"'\\x([0-9a-f]+)'", t, re.I)
        if m:
            return int(m.group(1), 16)
    b = unescape(t[1:-1])
    if len(b) != 1 or t.lower().startswith('"\\x'):
        raise Unreadable(t)
    return b[0]


def expression(ts):
    """the tokens of the specification for the tokens of the text"""
    out = []
    operand = True      # whether an operand is due
    i = 0
    while i < len(ts):
        k, t = ts[i]
        nxt = ts[i + 1] if i + 1 < len(ts) else ("", "")
        if operand:
            operand = False
            if k in ("num", "chr", "str"):
                out += prog.num(number(k, t))
            elif k == "sym":
                if t.lower() == "not":
                    out.append({"t": "u", "n": "!"})
                    operand = True
                elif t.lower() in ("x", "y", "a") or t.endswith(":") or t.startswith("."):
                    raise Unreadable(t)
                else:
                    out += prog.sym(t.lower())
            elif k == "mp":
                out += prog.param(int(t[1:]))
            elif t == "*":
                out += prog.pc()
            elif t == "(":
                out.append({"t": "("})
                operand = True
            elif k == "op" and t in "<>~":
                out.append({"t": "u", "n": t})
                operand = True
            elif k == "sign" and len(set(t)) == 1:
                if t == "-" and (nxt[0] in ("num", "chr") or nxt[1] == "("):
                    out.append({"t": "neg"})
                    operand = True
                else:
                    out += prog.anonref(t[0], len(t))
            else:
                raise Unreadable(t)
        else:
            if t == ")":
                out.append({"t": ")"})
            elif (k == "op" and t in "<<>>==!=<=>=||&&^*/") or (k == "sign" and len(t) == 1):
                out.append({"t": "b", "n": BRANCH_OPS.get(t, t)})
                operand = True
            else:
                raise Unreadable(t)
        i += 1
    if operand:
        raise Unreadable("expression expected")
    return out


def split(ts, sep=","):
    """the parts between the commas outside of parentheses"""
    out = [[]]
    depth = 0
    for k, t in ts:
        depth += {"(": 1, ")": -1}.get(t if k == "op" else "", 0)
        if t == sep and k == "op" and depth == 0:
            out.append([])
        else:
            out[-1].append((k, t))
    return out


def element(ts):
    if len(ts) == 1 and ts[0][0] == "str":
        return unescape(ts[0][1][1:-1])
    return expression(ts)


def named(ts):
    if len(ts) != 1 or ts[0][0] != "sym":
        raise Unreadable(ts)
    return ts[0][1].lower()


class Reader:
    def __init__(self, files, cpu="6502"):
        """files: name (as it is written in an .inc) -> text"""
        self.texts = files
        self.macros = set()
        self.read = []
        self.mnemonics = set(MNEMONICS + (M65C02 if cpu == "65c02" else []))

    def file(self, name):
        if name in self.read or name not in self.texts:
            raise Unreadable("file " + name)
        self.read.append(name)
        save = getattr(self, "lines", None), getattr(self, "pos", None)
        self.lines = without_comments(self.texts[name])
        if self.lines[-1][1].strip():
            raise Unreadable("no end of line at the end of " + name)
        self.pos = 0
        out = self.body((), True)
        self.lines, self.pos = save
        return out

    def body(self, ends, top=False):
        """statements up to a line with one of these directives, which is left in self.last"""
        out = []
        while self.pos < len(self.lines):
            ln = self.lines[self.pos][1]
            self.pos += 1
            ts = tokens(ln)
            if ts and ts[0][0] == "dir" and ts[0][1].lower() in ends:
                self.last = (ts[0][1].lower(), ts[1:])
                return out
            for s in self.statement(ts, top):
                s["_l"] = self.lines[self.pos - 1][0]
                out.append(s)
        if ends:
            raise Unreadable("end of file")
        return out

    def statement(self, ts, top):
        if not ts:
            return []
        k, t = ts[0]
        low = t.lower()
        if k == "sign" and top:
            if len(t) != 1:
                raise Unreadable(t)
            return [prog.anon(t)] + self.statement(ts[1:], top)
        if k == "sym" and low in self.mnemonics:
            return [self.instruction(low, ts[1:])]
        if k == "sym":
            if low in self.macros:
                return [prog.call(low, *[expression(x) for x in split(ts[1:])])] if ts[1:] else [prog.call(low)]
            if len(ts) > 1 and (ts[1][1] == "=" or ts[1][1].lower() == ".equ"):
                return [prog.eq(low, expression(ts[2:]))]
            name = low[:-1] if t.endswith(":") else low
            if "." in name or name in ("a", "x", "y") or name in M65C02:
                raise Unreadable(t)
            if len(ts) > 1 and not top:
                raise Unreadable("a label and a statement in a body")
            return [prog.lab(name)] + self.statement(ts[1:], top)
        if t == "*" and len(ts) > 1 and (ts[1][1] == "=" or ts[1][1].lower() == ".equ"):
            return [prog.setpc(expression(ts[2:]))]
        if k == "dir" or t in ("?", "??"):
            return [self.directive(low, ts[1:], top)]
        raise Unreadable(ts)

    def instruction(self, m, ts):
        if not ts:
            return prog.ins(m)
        if len(ts) == 1 and ts[0][1].lower() == "a":
            return prog.ins(m, "acc")
        if ts[0][1] == "#":
            return prog.ins(m, "imm", expression(ts[1:]))
        if ts[0][1] == "(":
            depth = 0
            for i, (k, t) in enumerate(ts):
                depth += {"(": 1, ")": -1}.get(t if k == "op" else "", 0)
                if depth == 0:
                    break
            inner, rest = ts[1:i], ts[i + 1:]
            ps = split(inner)
            if not rest:
                if len(ps) == 2 and len(ps[1]) == 1 and ps[1][0][1].lower() == "x":
                    return prog.ins(m, "indx", expression(ps[0]))
                return prog.ins(m, "ind", expression(inner))
            if len(rest) == 2 and rest[0][1] == "," and rest[1][1].lower() == "y":
                return prog.ins(m, "indy", expression(inner))
        ps = split(ts)
        if len(ps) == 1:
            return prog.ins(m, "dir", expression(ts))
        if len(ps) == 2 and len(ps[1]) == 1 and ps[1][0][1].lower() in ("x", "y"):
            return prog.ins(m, "dir" + ps[1][0][1].lower(), expression(ps[0]))
        raise Unreadable(ts)

    def directive(self, d, ts, top):
        if d in (".byte", ".db"):
            return prog.data(1, *[element(x) for x in split(ts)])
        if d in (".word", ".dw", ".dcw"):
            return prog.data(2, *[element(x) for x in split(ts)])
        if d in (".str", ".text", ".string"):
            return prog.data(0, *[element(x) for x in split(ts)])
        if d == ".ds":
            return prog.ds(expression(ts))
        if d == ".org":
            return prog.org(expression(ts))
        if d == ".fill":
            a, n = split(ts)
            return prog.fill(expression(a), expression(n))
        if d == ".var":
            xs = []
            for x in split(ts):
                xs.append(named(x[:1]) if len(x) == 1 else (named(x[:1]), expression(x[2:])))
                if len(x) > 1 and x[1][1] != "=":
                    raise Unreadable(x)
            return prog.var(*xs)
        if d in (".print", "?", ".printall", "??"):
            if len(ts) == 1 and ts[0][1].lower() in ("on", "off"):
                if not top:
                    raise Unreadable(d)
                return prog.mode("list" if ts[0][1].lower() == "on" else "nolist")
            return prog.prnt(*[element(x) for x in split(ts)] if ts else [], all=d in (".printall", "??"))
        if d in (".section", ".sect"):
            return prog.sect(named(ts))
        if d in (".endsection", ".ends"):
            return prog.ends()
        if d in (".macro", ".mac"):
            n = named(ts)
            b = self.body((".endm", ".endmacro"))
            self.macros.add(n)
            return prog.macdef(n, b)
        if d == ".if":
            a = self.body((".else", ".endif"))
            b = self.body((".endif",)) if self.last[0] == ".else" else None
            return prog.if_(expression(ts), a, b)
        if d in (".ifdef", ".ifndef"):
            a = self.body((".else", ".endif"), top)
            b = self.body((".endif",), top) if self.last[0] == ".else" else None
            return prog.ifdef(named(ts), a, b, d == ".ifndef")
        if d == ".while":
            return prog.loop("while", expression(ts), self.body((".wend",)))
        if d == ".repeat":
            b = self.body((".until",))
            return prog.loop("repeat", expression(self.last[1]), b)
        if d == ".do":
            b = self.body((".while",))
            return prog.loop("do", expression(self.last[1]), b)
        if d == ".for" and ts[0][0] == "sym":
            low = [t.lower() for _, t in ts]
            i = low.index(".to")
            j = low.index(".step") if ".step" in low else len(ts)
            if ts[1][1] != "=":
                raise Unreadable(ts)
            b = self.body((".next",))
            if named(self.last[1]) != low[0]:
                raise Unreadable(".next")
            return prog.for_(low[0], expression(ts[2:i]), expression(ts[i + 1:j]), b,
                             expression(ts[j + 1:]) if j < len(ts) else None)
        if d == ".inc" and top and ts[0][0] == "str":
            n = unescape(ts[0][1][1:-1]).decode("latin1")
            return prog.inc(n, self.file(n))
        if d == ".end" and not ts:
            return prog.end()
        raise Unreadable(d)


class Text(Program):
    """A program as somebody wrote it.  As long as no style is asked for, its files are the original ones."""

    def __init__(self, mains, texts, options=None, cpu="6502"):
        r = Reader(texts, cpu)
        super().__init__([(n, r.file(n)) for n in mains], options)
        self.texts = {n: texts[n] for n in r.read}

    def lower(self, style=None):
        j = super().lower(style)
        for b in self.blocks:
            for s in b:
                s.pop("_l", None)
        if style is None or style.rng is None:
            self.files = dict(self.texts)
            for b, ss in self.lists.items():
                for s, x in zip(ss, self.blocks[b - 1]):
                    if x["l"]:
                        x["l"] = s["_l"]
        return j


def samples(repo):
    """the programs that come with pasm, as far as they can be read: [(name, Text)]"""
    import glob
    import os
    out = []
    top = os.path.join(repo, "CMakePasm", "samples", "Commodore")

    def texts(d):
        r = {}
        for f in sorted(glob.glob(os.path.join(top, d, "*.asm"))):
            with open(f, encoding="latin1", newline="") as fd:
                # all files of a program are in one directory here
                r[os.path.basename(f)] = fd.read().replace("../include/", "")
        return r
    shared = texts("include")
    for d in sorted(os.listdir(top)) if os.path.isdir(top) else []:
        mine = texts(d)
        every = dict(shared, **mine)
        included = set()
        for t in every.values():
            included |= set(re.findall(r'\.inc\s+"([^"]*)"', t, re.I))
        for n in sorted(mine):
            if n in included or d == "include":
                continue
            for o in ((("org", 0x8000),), (("org", 0xC000),)) if re.search(r"=\s*ORG\b", mine[n]) else ((),):
                try:
                    out.append(("%s/%s" % (d, n), Text([n], every, prog.opts(d=o, c64=bool(o)))))
                except (Unreadable, ValueError, IndexError):
                    pass
    return out


def _names(x, out):
    """names in expressions, and macros called"""
    if isinstance(x, dict):
        if x.get("t") == "id":
            out.add(x["n"])
        if x.get("o") == "call":
            out.add(x["n"])
        for v in x.values():
            _names(v, out)
    elif isinstance(x, list):
        for v in x:
            _names(v, out)


def _flat(stmts):
    out = []
    for s in stmts:
        out += _flat(s["body"]) if s["o"] == "inc" else [s]
    return out


def fragment(rng, programs):
    """a part of one of these programs, with what it needs"""
    import copy
    p = rng.choice([x for x in programs if len(_flat([s for _, ss in x.mains for s in ss])) > 50])
    every = _flat([s for _, ss in p.mains for s in ss])
    macros = {s["n"]: s for s in every if s["o"] == "macdef"}
    code = [s for s in every if s["o"] not in ("macdef", "end")]
    n = rng.choice((20, 40, 80))
    k = rng.randrange(max(1, len(code) - n))
    part = code[k:k + n]
    for _ in range(rng.choice((0, 0, 1, 3))):       # and something is changed
        i = rng.randrange(len(part))
        part[i:i + 1] = rng.choice(([], [part[i], part[i]], [rng.choice(code)], [rng.choice(code), part[i]]))
    defined = {s["n"]["n"] for s in part if s["o"] in ("lab", "eq")} | \
              {x["n"] for s in part if s["o"] == "var" for x in s["xs"]}
    used, need, done = set(), [], set()
    _names(part, used)
    while True:
        todo = [m for m in sorted(used) if m in macros and m not in done]
        if not todo:
            break
        for m in todo:
            done.add(m)
            need.append(macros[m])
            _names(macros[m]["bs"], used)
    need.sort(key=every.index)      # in the order of the program
    own = set()
    for m in need:
        _names([s["n"] for s in m["bs"][0] if s["o"] in ("lab", "eq")], own)
    pre = [prog.eq(x, prog.num(rng.choice((3, 0x80, 0xFF, 0x100, 0x1234, 0xD020))))
           for x in sorted(used - defined - own - set(macros))]
    part = copy.deepcopy(pre + need + [prog.org(prog.num(rng.choice((0xF0, 0x200, 0xC000))))] +
                         [s for s in part if s["o"] != "org"])
    for s in part:
        s.pop("_l", None)
    return Program(part)
