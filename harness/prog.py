"""Programs as trees of statements: construction, the JSON form the specification reads, and rendering to source.

A program is built from plain dictionaries.  Bodies of compound statements are Python lists; lower() numbers them as
blocks for the specification while it renders them, so the specification and the source text are two views of one tree.
"""
import random

# ---------------------------------------------------------------- expression tokens


def num(v):
    return [{"t": "neg"}, {"t": "n", "v": -v}] if v < 0 else [{"t": "n", "v": v}]


def pc():
    return [{"t": "pc"}]


def sym(n):
    if n.startswith("@"):
        return [{"t": "loc", "n": n}]
    if "." in n:
        s, b = n.rsplit(".", 1)
        return [{"t": "qid", "n": n, "s": s, "b": b}]
    return [{"t": "id", "n": n}]


def param(i):
    return [{"t": "mp", "v": i}]


def anonref(c, depth=1):
    return [{"t": "an", "n": c, "v": depth}]


def par(e):
    return [{"t": "("}] + e + [{"t": ")"}]


def bop(a, o, b):
    return a + [{"t": "b", "n": o}] + b


def uop(o, a):
    return [{"t": "u", "n": o}] + a


def neg(e):
    """-( e )"""
    return [{"t": "neg"}] + par(e)


# ---------------------------------------------------------------- statements


def lab(n):
    return {"o": "lab", "n": sym(n)[0]}


def anon(c):
    return {"o": "anon", "c": c}


def eq(n, e):
    return {"o": "eq", "n": sym(n)[0], "e": e}


def var(*xs):
    """names, or (name, expression)"""
    return {"o": "var", "xs": [{"n": x, "e": []} if isinstance(x, str) else {"n": x[0], "e": x[1]} for x in xs]}


def org(e):
    return {"o": "org", "e": e}


def setpc(e):
    return {"o": "pc", "e": e}


def ins(m, k="imp", e=None):
    return {"o": "ins", "m": m, "k": k, "e": e or []}


def _element(x):
    # a string of one character is its number
    if isinstance(x, bytes) and len(x) == 1:
        return {"e": num(x[0])}
    return {"s": list(x)} if isinstance(x, bytes) else {"e": x}


def data(z, *xs):
    """z: 1 .byte, 2 .word, 0 .str;  elements: expressions or bytes"""
    return {"o": "data", "z": z, "xs": [_element(x) for x in xs]}


def ds(e):
    return {"o": "ds", "e": e}


def fill(a, n):
    return {"o": "fill", "a": a, "n": n}


def load(name, content):
    """content None: the file does not exist"""
    return {"o": "load", "ok": content is not None, "b": list(content or b""), "file": name}


def sect(n):
    return {"o": "sect", "n": n}


def ends():
    return {"o": "ends"}


def macdef(n, body):
    return {"o": "macdef", "n": n, "bs": [body]}


def call(n, *args):
    return {"o": "call", "n": n, "as": list(args)}


def if_(e, a, b=None):
    return {"o": "if", "e": e, "bs": [a] if b is None else [a, b]}


def ifdef(n, a, b=None, neg=False):
    return {"o": "ifdef", "n": n, "neg": neg, "t": a, "f": b}


def loop(kind, e, body):
    return {"o": kind, "e": e, "bs": [body]}


def for_(n, a, e, body, step=None):
    return {"o": "for", "n": sym(n)[0], "a": a, "e": e, "s": step or [], "bs": [body]}


def reg(r, a, e, up, body):
    return {"o": "reg", "r": r, "a": a, "e": e, "up": up, "bs": [body]}


def inc(name, body):
    return {"o": "inc", "file": name, "body": body}


def prnt(*xs, all=False):
    return {"o": "print", "all": all, "xs": [_element(x) for x in xs]}


def mode(d):
    return {"o": "mode", "d": d}


def end():
    return {"o": "end"}


def nop():
    return {"o": "nop"}


def opts(cpu="6502", ill=False, nowarn=False, c64=False, d=()):
    return {"cpu": cpu, "ill": ill, "nowarn": nowarn, "c64": c64, "d": [{"n": n, "v": v} for n, v in d]}


def ifdef_names(stmts):
    """names tested by .ifdef anywhere inside"""
    r = []
    for s in stmts:
        if s["o"] == "ifdef":
            r.append(s["n"])
            r += ifdef_names(s["t"] or []) + ifdef_names(s["f"] or [])
        elif "bs" in s:
            for b in s["bs"]:
                r += ifdef_names(b)
    return r


# ---------------------------------------------------------------- rendering

DIRECTIVES = {
    "byte": [".byte", ".db"], "word": [".word", ".dw", ".dcw"], "str": [".str", ".text", ".string"],
    "sect": [".section", ".sect"], "ends": [".endsection", ".ends"], "mac": [".macro", ".mac"],
    "endm": [".endmacro", ".endm"], "eq": ["=", ".equ"], "print": [".print", "?"], "printall": [".printall", "??"],
}
MODES = {"6502": ".6502 on", "65c02": ".65c02 on", "ill": ".illegal on", "noill": ".illegal off", "warn": ".warn on",
         "nowarn": ".warn off", "c64": ".c64", "list": ".print on", "nolist": ".print off"}
ESC = {7: "\\a", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v", 92: "\\\\", 34: '\\"', 39: "\\'"}


class Style:
    """How a program is written down.  Without a generator: one canonical way."""

    def __init__(self, rng=None):
        self.rng = rng

    def pick(self, xs):
        return xs[0] if self.rng is None else self.rng.choice(xs)

    def flip(self, p):
        return self.rng is not None and self.rng.random() < p

    def case(self, w):
        if self.rng is None:
            return w
        r = self.rng.random()
        if r < 0.4:
            return w
        if r < 0.7:
            return w.upper()
        return "".join(c.upper() if self.rng.random() < 0.5 else c for c in w)

    def name(self, n):
        """a name; upper and lower case mean the same"""
        return self.case(n) if self.flip(0.12) else n

    def label(self, n):
        return self.name(n) + (":" if self.flip(0.2) else "")

    def word(self, key):
        return self.case(self.pick(DIRECTIVES[key]))

    def sp(self):
        """white space that has to be there"""
        return " " if self.rng is None else self.rng.choice([" ", " ", "  ", "\t", " \t"])

    def osp(self):
        """white space that may be there"""
        return "" if self.rng is None else self.rng.choice(["", "", " ", "\t"])

    def number(self, v):
        if self.rng is None:
            return str(v)
        r = self.rng.random()
        if r < 0.4:
            return str(v)
        if r < 0.6:
            return "$%x" % v
        if r < 0.75:
            return "$%04X" % v
        if r < 0.85:
            return "%" + bin(v)[2:]
        if r < 0.95:
            return "0b" + bin(v)[2:]
        if v < 256 and r < 0.97:
            return self.case(self.rng.choice(["'\\x%x'" % v, "'\\x%02x'" % v, "'\\%03o'" % v]))
        if v in ESC:
            return "'" + self.case(ESC[v]) + "'"
        if 32 < v < 127 and v not in (34, 39, 92):
            return self.rng.choice(["'%c'", '"%c"']) % v
        return str(v)

    def indent(self, depth):
        if self.rng is None:
            return "        "
        return self.rng.choice([" ", "\t", "    ", "        ", "\t\t"]) + "  " * depth

    def comment(self):
        if not self.flip(0.2):
            return ""
        return self.rng.choice(["  ; comment", " ;", "\t// lda #1", " ;; .byte \"x\"", " ; '", "  // \"", " ;.endif"])

    def filler(self):
        """a line of no meaning"""
        if not self.flip(0.15):
            return None
        return self.rng.choice(["", "   ", "; lda #$ff", "\t", "// foo", "  ; \"unbalanced", "/* one line */",
                                "/* lda #1\n   two: .byte 3\n*/", "/* * / ; // */"])


def string_literal(bs, st):
    out = []
    prevhex = False
    for b in bs:
        if b in ESC and b != 39:
            c = ESC[b]
        elif 32 <= b < 127 and not (prevhex and chr(b) in "0123456789abcdefABCDEF") and not (prevhex and st.flip(0.3)):
            c = chr(b)
            if b == 39 and st.flip(0.5):
                c = "\\'"
            if st.flip(0.05):
                c = "\\x%02x" % b
        else:
            c = "\\x%02x" % b
        ishex = c.startswith("\\x")
        if ishex and prevhex and st.flip(0.5):
            c = c[2:]       # one escape of many digits
        elif len(c) > 1 and st.flip(0.2):
            c = c.upper()
        prevhex = ishex
        out.append(c)
    return '"' + "".join(out) + '"'


BINARY = {"!=": ["!=", "<>"]}


def expr(toks, st, wrap_star=True):
    out = []
    i = 0
    if len(toks) == 1 and toks[0]["t"] == "pc":
        return "(*)" if wrap_star else "*"
    for i, t in enumerate(toks):
        k = t["t"]
        if k == "n":
            glued = i > 0 and toks[i - 1]["t"] == "neg"
            # a quoted character behind a minus is a number as well, but plain digits are enough there
            out.append(str(t["v"]) if glued else st.number(t["v"]))
        elif k == "pc":
            # "*=" would assign the program counter
            bare = i == 0 and len(toks) > 1 and toks[1].get("n") in ("+", "-", "/", "&", "<", ">")
            out.append("*" if bare else "(*)")
        elif k in ("id", "qid", "loc"):
            out.append(st.name(t["n"]))
        elif k == "mp":
            out.append("\\%d" % t["v"])
        elif k == "an":
            out.append(t["n"] * t["v"])
        elif k == "(":
            out.append("(" + st.osp())
        elif k == ")":
            out.append(st.osp() + ")")
        elif k == "neg":
            out.append("-")
        elif k == "u":
            out.append({"!": st.case("not") + " "}.get(t["n"], t["n"] + st.osp()))
        elif k == "b":
            o = st.pick(BINARY.get(t["n"], [t["n"]]))
            out.append(st.sp() + o + st.sp())
        else:
            raise ValueError(k)
    return "".join(out)


class Program:
    def __init__(self, mains, options=None):
        """mains: list of statements (one input file), or a list of (file name, statements)"""
        if mains and isinstance(mains[0], tuple):
            self.mains = mains
        else:
            self.mains = [("a.asm", mains)]
        self.opts = options or opts()

    # lower() renders and numbers the blocks in one walk
    def lower(self, style=None):
        st = style or Style()
        self.blocks = []
        self.lists = {}     # of which statements each block is
        self.files = {}
        self.styles = {}
        self.fileof = {}    # the name of the file that a block is
        self.base = 0       # lines in front of the statement of the file
        self.lined = True   # statements have lines of their own
        ids = []
        for name, stmts in self.mains:
            ids.append(self._file(name, stmts, st))
        return {"blocks": self.blocks, "mains": ids, "opts": self.opts}

    def _new(self):
        self.blocks.append([])
        return len(self.blocks)

    def _file(self, name, stmts, st):
        b = self._new()
        self.lists[b] = stmts
        self.fileof[b] = name
        if st.rng is not None:      # the same file once more: the same text
            k = (name, repr(stmts))
            if k in self.styles:
                st.rng.setstate(self.styles[k])
            else:
                self.styles[k] = st.rng.getstate()
        lines = ["; " + name]       # a label needs an end of line in front of it
        base, lined = self.base, self.lined
        self.lined = True
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            f = st.filler()
            if f is not None:
                lines.extend(f.split("\n"))
            if s["o"] in ("lab", "anon") and i + 1 < len(stmts) and \
                    stmts[i + 1]["o"] in ("ins", "data", "ds", "fill") and st.flip(0.6):
                # label and statement share a line
                sub = []
                self.base = len(lines)
                j = self._stmt(stmts[i + 1], st, sub, 0)
                pre = self._label(s, st)
                lines.append(pre + st.sp() + sub[0].lstrip() + st.comment())
                lines.extend(sub[1:])
                out.append(dict(self._label_json(s), l=len(lines), nd=[]))
                out.append(dict(j, l=len(lines), nd=[]))
                i += 2
                continue
            if s["o"] in ("lab", "anon"):
                lines.append((st.osp() if st.rng else "") + self._label(s, st) + st.comment())
                out.append(dict(self._label_json(s), l=len(lines), nd=[]))
                i += 1
                continue
            sub = []
            self.base = len(lines)
            j = self._stmt(s, st, sub, 0)
            lines.extend(sub)
            out.append(dict(j, l=len(lines), nd=sorted(set(ifdef_names([s])))))
            i += 1
        self.base, self.lined = base, lined
        self.blocks[b - 1] = out
        eol = st.pick(["\n", "\n", "\n", "\r\n"])
        self.files[name] = "\n".join(lines).replace("\n", eol) + eol
        return b

    def _block(self, stmts, st, lines, depth, lined=False):
        b = self._new()
        save, self.lined = self.lined, lined
        self.lists[b] = stmts
        out = []
        for s in stmts:
            if s["o"] == "lab":
                lines.append(st.indent(depth) + st.label(s["n"]["n"]) + st.comment())
                out.append(dict(self._label_json(s), l=0, nd=[]))
                continue
            j = self._stmt(s, st, lines, depth)
            out.append(dict(j, l=self.base + len(lines) if lined else 0, nd=[]))
        self.lined = save
        if not stmts:
            lines.append("")
        self.blocks[b - 1] = out
        return b

    @staticmethod
    def _label(s, st):
        return s["c"] if s["o"] == "anon" else st.label(s["n"]["n"])

    @staticmethod
    def _label_json(s):
        return dict(s)

    def _elements(self, xs, st):
        return ("," + st.osp()).join(
            string_literal(x["s"], st) if "s" in x else expr(x["e"], st) for x in xs)

    def _stmt(self, s, st, lines, depth):
        o = s["o"]
        ind = st.indent(depth)
        w = st.case

        def put(text):
            lines.append(ind + text + st.comment())

        r = dict(s)
        if o == "eq":
            op = st.word("eq")
            n = st.name(s["n"]["n"])
            e = expr(s["e"], st)
            if op == "=":
                text = n + (st.sp() if st.rng is None else st.osp()) + op + " " + e
            else:
                text = n + st.sp() + op + st.sp() + e
            lines.append((ind if (depth or st.flip(0.5)) else "") + text + st.comment())
        elif o == "var":
            put(w(".var") + st.sp() + ("," + st.osp()).join(
                st.name(x["n"]) + (st.osp() + "=" + " " + expr(x["e"], st) if x["e"] else "") for x in s["xs"]))
        elif o == "org":
            put(w(".org") + st.sp() + expr(s["e"], st))
        elif o == "pc":
            put("*" + st.osp() + "= " + expr(s["e"], st))
        elif o == "ins":
            e = expr(s["e"], st) if s["e"] else ""
            m = w(s["m"])
            c = st.osp() + "," + st.osp()
            k = s["k"]
            if k == "dir" or k == "dirx" or k == "diry":
                # a bare * is not an operand of these
                if e == "(*)":
                    e = "* + 0"
                # and a parenthesis in front makes the operand an indirect one
                elif e.startswith("("):
                    e = "0 + " + e
            if k == "imp":
                put(m)
            elif k == "acc":
                put(m + st.sp() + w("a"))
            elif k == "imm":
                put(m + st.sp() + "#" + st.osp() + e)
            elif k == "dir":
                put(m + st.sp() + e)
            elif k == "dirx":
                put(m + st.sp() + e + c + w("x"))
            elif k == "diry":
                put(m + st.sp() + e + c + w("y"))
            elif k == "ind":
                put(m + st.sp() + "(" + st.osp() + e + st.osp() + ")")
            elif k == "indx":
                put(m + st.sp() + "(" + st.osp() + e + c + w("x") + st.osp() + ")")
            elif k == "indy":
                put(m + st.sp() + "(" + st.osp() + e + ")" + c + w("y"))
            else:
                raise ValueError(k)
        elif o == "data":
            put(st.word({1: "byte", 2: "word", 0: "str"}[s["z"]]) + st.sp() + self._elements(s["xs"], st))
        elif o == "ds":
            put(w(".ds") + st.sp() + expr(s["e"], st))
        elif o == "fill":
            put(w(".fill") + st.sp() + expr(s["a"], st) + st.osp() + "," + st.osp() + expr(s["n"], st))
        elif o == "load":
            put(w(".load") + st.sp() + '"%s"' % s["file"])
            if s["ok"]:
                self.files[s["file"]] = bytes(s["b"])
            r.pop("file")
        elif o == "sect":
            put(st.word("sect") + st.sp() + st.name(s["n"]))
        elif o == "ends":
            put(st.word("ends"))
        elif o == "macdef":
            put(st.word("mac") + st.sp() + st.name(s["n"]))
            b = self._block(s["bs"][0], st, lines, depth + 1)
            put(st.word("endm"))
            r["bs"] = [b]
        elif o == "call":
            put(st.name(s["n"]) + ((st.sp() + ("," + st.osp()).join(expr(a, st) for a in s["as"])) if s["as"] else ""))
        elif o == "if":
            put(w(".if") + st.sp() + expr(s["e"], st))
            bs = [self._block(s["bs"][0], st, lines, depth + 1)]
            if len(s["bs"]) > 1:
                put(w(".else"))
                bs.append(self._block(s["bs"][1], st, lines, depth + 1))
            put(w(".endif"))
            r["bs"] = bs
        elif o == "ifdef":
            put(w(".ifndef" if s["neg"] else ".ifdef") + st.sp() + st.name(s["n"]))
            r["t"] = self._block(s["t"], st, lines, depth + 1, self.lined)
            if s["f"] is not None:
                lines.append(ind + w(".else"))
                r["f"] = self._block(s["f"], st, lines, depth + 1, self.lined)
            else:
                r["f"] = 0
            lines.append(ind + w(".endif"))
        elif o == "while":
            put(w(".while") + st.sp() + expr(s["e"], st))
            r["bs"] = [self._block(s["bs"][0], st, lines, depth + 1)]
            put(w(".wend"))
        elif o == "repeat":
            put(w(".repeat"))
            r["bs"] = [self._block(s["bs"][0], st, lines, depth + 1)]
            put(w(".until") + st.sp() + expr(s["e"], st))
        elif o == "do":
            put(w(".do"))
            r["bs"] = [self._block(s["bs"][0], st, lines, depth + 1)]
            put(w(".while") + st.sp() + expr(s["e"], st))
        elif o == "for":
            put(w(".for") + st.sp() + st.name(s["n"]["n"]) + " = " + expr(s["a"], st) + st.sp() + w(".to") + st.sp() +
                expr(s["e"], st) + (st.sp() + w(".step") + st.sp() + expr(s["s"], st) if s["s"] else ""))
            r["bs"] = [self._block(s["bs"][0], st, lines, depth + 1)]
            put(w(".next") + st.sp() + st.name(s["n"]["n"]))
        elif o == "reg":
            put(w(".for") + st.sp() + w(".reg" + s["r"]) + " = " + expr(s["a"], st) + st.sp() +
                w(".to" if s["up"] else ".downto") + st.sp() + expr(s["e"], st))
            r["bs"] = [self._block(s["bs"][0], st, lines, depth + 1)]
            put(w(".next") + st.sp() + w(s["r"]))
        elif o == "inc":
            r.pop("body")
            name = r.pop("file")
            put(w(".inc") + st.sp() + '"%s"' % name)
            r["b"] = self._file(name, s["body"], st)
        elif o == "print":
            put(st.word("printall" if s["all"] else "print") +
                (st.sp() + self._elements(s["xs"], st) if s["xs"] else ""))
        elif o == "mode":
            put(w(MODES[s["d"]]))
        elif o == "end":
            put(w(".end"))
        elif o == "nop":
            put("")
        else:
            raise ValueError(o)
        return r

    def args(self):
        a = []
        o = self.opts
        if o["cpu"] == "65c02":
            a.append("-65c02")
        if o["ill"]:
            a.append("-i")
        if o["nowarn"]:
            a.append("-nowarn")
        if o["c64"]:
            a.append("-c64")
        for x in o["d"]:
            a += ["-d", x["n"], str(x["v"])]
        return a
