"""Compares what pasm did with what the specification says about the same program."""
import re

from runpasm import branch_warnings

ROW = re.compile(r"^\$([0-9A-F]{4}):((?: \$[0-9A-F]{2})+)(?:\s+(\S.*)?)?$")
SYMPAIR = re.compile(r"(\S+)\s+\$([0-9A-Fa-f]+)")
WRITTEN = re.compile(r"^(\d+) bytes written to (.*)$", re.M)

ASPECTS = ("exit", "object", "symbols", "listing", "print", "warnings", "message")


def expected_object(rep):
    out = bytearray()
    if rep["hdr"] >= 0:
        out += bytes([rep["hdr"] & 255, rep["hdr"] >> 8 & 255])
    for r in rep["rows"]:
        out += bytes(r["b"])
    return bytes(out)


def listing_rows(text):
    rows = []
    for ln in text.split("\n"):
        m = re.match(r"^\$([0-9A-F]{4}):((?: \$[0-9A-F]{2})+)", ln)
        if m:
            rows.append((int(m.group(1), 16), [int(x[1:], 16) for x in m.group(2).split()],
                         ln[m.end():45].strip()))
    return rows


# an operand as it is written in each addressing mode; %s: its value
FORMS = {"imp": "", "acc": "", "imm": "#%s", "rel": "%s", "zp": "%s", "zpx": "%s,x", "zpy": "%s,y", "abs": "%s", "abx": "%s,x",
         "aby": "%s,y", "izx": "(%s,x)", "izy": "(%s),y", "zpi": "(%s)", "ind": "(%s)", "aix": "(%s,x)"}


def instruction(r):
    """the instruction of a row of Asm as the listing shows it"""
    b = r["b"]
    if r["f"] == "rel":
        v = "$%04x" % ((r["pc"] + 2 + b[1] - (b[1] & 128) * 2) & 0xFFFF)
    elif len(b) == 2:
        v = "$%02x" % b[1]
    elif len(b) == 3:
        v = "$%04x" % (b[1] | b[2] << 8)
    else:
        return r["m"]
    return r["m"] + " " + FORMS[r["f"]] % v


def shown_bytes(text):
    """the bytes that a .db row names, or None"""
    if not text.startswith(".db "):
        return None
    out, i = [], 4
    while i < len(text):
        m = re.match(r"'(.)'|\$([0-9A-F]{2})", text[i:], re.S)
        if not m:
            return None
        out.append(ord(m.group(1)) if m.group(1) else int(m.group(2), 16))
        i += m.end()
        if i < len(text):
            if text[i:i + 2] != ", ":
                return None
            i += 2
    return out


def flat(rows):
    return [((a + i) & 0xFFFF, b) for a, bs, _ in rows for i, b in enumerate(bs)]


def parse_symbols(text):
    res = {}
    for n, v in SYMPAIR.findall(text):
        res.setdefault(n.lower(), []).append(int(v, 16))
    return res


def printed(out):
    """what stands between the echo of the command line and the summary"""
    t = out.decode("latin1")
    t = t.split("\n", 1)[1] if "\n" in t else ""
    return re.sub(r"\n?\d+ bytes written to [^\n]*\n\n?$", "", t)


def expected_print(rep, last=False):
    """last: only what the final pass prints"""
    t = ""
    for ln in rep["log"]:
        if last and not ln["f"]:
            continue
        for x in ln["x"]:
            if "s" in x:
                t += " " + bytes(x["s"]).decode("latin1")
            else:
                t += (" $%02X" % x["h"] if x["h"] else "") + " $%02X" % x["l"]
        t += "\n"
    return t


def _included(stmts, names):
    """the files of the program, as often as they are read, and whether the listing is turned off somewhere"""
    off = False
    for s in stmts:
        if s["o"] == "inc":
            names.append(s["file"])
            off |= _included(s["body"], names)
        elif s["o"] == "mode":
            off |= s["d"] in ("list", "nolist")
        elif s["o"] == "ifdef":
            off |= _included(s["t"] or [], names) | _included(s["f"] or [], names)
    return off


def source_column(rep, lst, p):
    """The text of the source beside the rows: every line at its first row, all lines in order.  p: the program, lowered
    the way it was written.  Returns what is wrong."""
    names = []
    off = False
    for n, ss in p.mains:
        names.append(n)
        off |= _included(ss, names)
    if len(set(names)) != len(names):
        return None     # a line that is read twice is shown once
    alphabet = bool(rep.get("c"))
    exp = [r for r in rep["rows"] if r["l"] for _ in r["b"]]
    lines = {n: p.files[n].replace("\r", "").split("\n") for n in names}
    lst = lst.replace("\r", "")
    rows = {}
    seen = set()
    shown = {}
    cur = None
    pos = 0
    # behind a file without an end of line the next heading stands in the source column
    ragged = any(not p.files[n].endswith("\n") for n in names)
    for ln in lst.split("\n"):
        if ln.startswith("; Processing ") or ragged and ln.strip().startswith("; Processing "):
            cur = ln.strip()[13:]
            continue
        m = re.match(r"^\$([0-9A-F]{4}):((?: \$[0-9A-F]{2})+)", ln)
        text = ln[45:]
        if text.strip():
            shown.setdefault(cur, []).append(text)
        if not m:
            if ln[:45].strip():
                return "a line that is neither a row nor a line of the source: %r" % ln[:80]
            continue
        f, b, i = exp[pos]["at"]
        pos += len(m.group(2).split())
        if alphabet and (f, b) != (1, 1):
            continue
        name = p.fileof[f]
        line = p.blocks[b - 1][i - 1]["l"]
        want = "" if (name, line) in seen else lines[name][line - 1]
        seen.add((name, line))
        if cur != name:
            return "the row at $%s belongs to %s, not %s" % (m.group(1), name, cur)
        if text != want and not off:
            return "the row at $%s shows %r, expected %r" % (m.group(1), text, want)
    for n, got in shown.items():
        src = [x for x in lines.get(n, []) if x.strip()]
        if not off and got != src[:len(got)]:
            k = [x != y for x, y in zip(got, src + [None] * len(got))].index(True)
            return "line %r of %s shown where %r is expected" % (got[k], n, (src + [None] * len(got))[k])
        if off:
            it = iter(src)
            if not all(x in it for x in got):
                return "the lines of %s are not shown in order" % n
    return None


NEAR = re.compile(r"^(.*) File (\S+) near line (\d+)$")


def stretches(rep, program):
    """the lines that the statements take up that are being executed"""
    for b, i in rep["path"]:
        block = program.blocks[b - 1]
        for k in (i, i - 1):
            if 1 <= k <= len(block) and block[k - 1]["l"] > 0:
                yield block[k - 2]["l"] if k > 1 else 1, block[k - 1]["l"]


def wrong_messages(rep, err, program):
    """every message shows lines of the file that it names; the first error is at the statement where the specification
    has it"""
    lines = {n: (t if isinstance(t, str) else t.decode("latin1")).split("\n") for n, t in program.files.items()}
    shown = err.split("\n")
    first = True
    for k, ln in enumerate(shown):
        m = NEAR.match(ln)
        if not m:
            continue
        text, name, near = m.group(1), m.group(2), int(m.group(3))
        if name not in lines:
            return "a message about a file %s that is not there" % name
        src, last, seen = lines[name], None, set()
        for x in shown[k + 1:]:
            y = re.match(r"^(\d+) +?  ?(.*)$", x)
            if not y or not x[5:7].isspace():
                break
            n = int(x[:5])
            if last is not None and n != last + 1:
                return "line %d is shown behind line %d" % (n, last)
            last = n
            seen.add(n)
            if abs(n - near) > 4:
                return "line %d is shown in a message about line %d" % (n, near)
            want = src[n - 1].rstrip("\r") if n <= len(src) else ""
            part = x[7:].rstrip("\r")
            if part != want and not (len(part) > 2000 and want.startswith(part)):
                return "%r is shown as line %d of %s, which is %r" % (x[7:], n, name, want)
        missing = [n for n in (near - 1, near) if 1 <= n <= len(src) and src[n - 1] and n not in seen]
        if missing:
            return "line %d of %s is not shown in a message about line %d" % (missing[0], name, near)
        if first and not text.startswith("Branch out of range, creating"):
            first = False
            at = re.match(r"\w+ <<(\d+), (\d+)>>$", rep["at"])
            if at and rep["res"] == "error":
                f, line = program.fileof[int(at.group(1))], int(at.group(2))
                if name != f or not any(a - 1 <= near <= b + 2 for a, b in stretches(rep, program)):
                    return "%r is reported for line %d of %s, but line %d of %s is in error" % (text, near, name, line, f)
    return None


def differences(rep, act, mentioned=None, aspects=ASPECTS, exact=False, program=None):
    """rep: report of the specification; act: runpasm.Result.  Returns {aspect: text}."""
    d = {}
    if act.timeout:
        return {"exit": "pasm did not come to an end"}
    if act.rc < 0 or act.rc in (134, 136, 139):
        return {"exit": "pasm crashed, exit %d" % act.rc}
    if rep["res"] == "undefined":
        return d
    if rep["res"] == "error":
        if act.rc == 0:
            d["exit"] = "accepted, but the program is in error: " + rep["at"]
        elif not act.err.strip():
            d["message"] = "rejected without a message"
        elif program is not None and "message" in aspects:
            w = wrong_messages(rep, act.err.decode("latin1"), program)
            if w:
                d["message"] = w
        return {k: v for k, v in d.items() if k in aspects or k == "exit"}
    if act.rc != 0:
        return {"exit": "exit %d, but the program is correct: %s" % (act.rc, act.err[:300].decode("latin1"))}
    want = expected_object(rep)
    if act.bin != want:
        got = act.bin if act.bin is not None else b""
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        d["object"] = "object file differs at offset %d: expected %s got %s (lengths %d, %d)" % (
            i, want[max(0, i - 4):i + 12].hex(), got[max(0, i - 4):i + 12].hex(), len(want), len(got))
    m = WRITTEN.search(act.out.decode("latin1"))
    if not m or int(m.group(1)) != len(act.bin or b""):
        d["object"] = d.get("object", "") + " number of bytes reported: %s, written: %d" % (
            m.group(1) if m else None, len(act.bin or b""))
    # symbol file
    if act.sym is not None:
        got = parse_symbols(act.sym.decode("latin1"))
        table = {s["n"].lower(): s for s in rep["syms"]}     # upper and lower case mean the same
        bad = []
        low = {x.lower() for x in mentioned} if mentioned is not None else None
        for n, s in table.items():
            if s["k"] == "sym" and s["i"] and (s["r"] or s["d"]):
                if n not in got:
                    bad.append("%s is missing" % n)
        for n, vs in got.items():
            if len(vs) != 1:
                bad.append("%s is listed %d times" % (n, len(vs)))
            s = table.get(n)
            if s is None or s["k"] != "sym" or not s["i"]:
                bad.append("%s is listed" % n)
            else:
                if vs[0] != s["v"] & 0xFFFF and vs[0] != s["v"] & 0xFFFFFFFF:
                    bad.append("%s = $%X, expected $%X" % (n, vs[0], s["v"]))
                if not (s["r"] or s["d"]) and mentioned is not None and n.rsplit(".", 1)[-1] not in low:
                    bad.append("%s is listed, but nothing refers to it" % n)
        vs = [int(v, 16) for _, v in SYMPAIR.findall(act.sym.decode("latin1"))]
        if vs != sorted(vs) and max(vs) <= 0xFFFF:
            bad.append("the symbols are not in the order of their values")
        if bad:
            d["symbols"] = "symbol file: " + "; ".join(bad[:5])
    else:
        d["symbols"] = "no symbol file"
    # listing
    if act.lst is not None:
        got = listing_rows(act.lst.decode("latin1"))
        rows = [r for r in rep["rows"] if r["l"]]
        exp = [((r["pc"] + i) & 0xFFFF, b) for r in rows for i, b in enumerate(r["b"])]
        g = flat(got)
        if g != exp:
            i = 0
            while i < min(len(g), len(exp)) and g[i] == exp[i]:
                i += 1
            d["listing"] = "listing differs at byte %d: expected %s got %s" % (
                i, ["%04X:%02X" % x for x in exp[i:i + 4]], ["%04X:%02X" % x for x in g[i:i + 4]])
        else:
            # an instruction is one row that shows the instruction
            at = {}
            for a, bs, text in got:
                at.setdefault(a, []).append((bs, text.lower()))
            for r in rows:
                if r["k"] not in ("ins", "neg"):
                    continue
                c = [t for bs, t in at.get(r["pc"], []) if bs == r["b"]]
                if not c or instruction(r) not in c:
                    d["listing"] = "listing: no row for %s at $%04X: %s" % (instruction(r), r["pc"], c)
                    break
            else:
                # every other row names the bytes it shows
                ins = {(r["pc"], tuple(r["b"])) for r in rows if r["k"] in ("ins", "neg")}
                why = None
                for a, bs, text in got:
                    if (a, tuple(bs)) not in ins and shown_bytes(text) != bs:
                        why = "the row at $%04X shows %r for the bytes %s" % (a, text, " ".join("%02X" % b for b in bs))
                if not why:
                    why = source_column(rep, act.lst.decode("latin1"), program) if program else None
                if why:
                    d["listing"] = "listing: " + why
    else:
        d["listing"] = "no listing"
    # print lines
    # .printall shows values of earlier passes too, which only some programs determine
    exact = exact or program is not None and not any("'all': True" in repr(b) for _, b in program.mains)
    e, g = expected_print(rep, not exact), printed(act.out)
    if (e != g) if exact else not g.endswith(e):
        d["print"] = "printed %r, expected %r" % (g[:80], e[:80])
    w = branch_warnings(act)
    if w != rep["warned"]:
        d["warnings"] = "%d warnings, expected %d" % (w, rep["warned"])
    if rep["warned"] == 0 and act.err.strip():
        d["message"] = "accepted, but there are messages: %r" % act.err[:200]
    elif rep["warned"] and program is not None and "message" in aspects:
        w = wrong_messages(rep, act.err.decode("latin1"), program)
        if w:
            d["message"] = w
    return {k: v for k, v in d.items() if k in aspects}
