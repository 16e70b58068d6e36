"""Known findings: inputs on which pasm breaks a property, recorded and not repaired.  known-findings.txt lists them,
known/<name>.json has the input and what pasm does with it today."""
import json
import os
import re

import runpasm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINE = re.compile(r"^known: property=(\w+) (\S+) (.*)$")


def listed(prop):
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for ln in f:
            m = LINE.match(ln.strip())
            if m and m.group(1) == prop:
                yield m.group(2), m.group(3)


def report(check):
    """the lines to print: the listed findings that are still there"""
    out = []
    for name, what in listed(check.prop):
        with open(os.path.join(VERIF, "known", name + ".json")) as f:
            k = json.load(f)
        r = runpasm.run(check.pasm, {"a.asm": k["source"]}, ["a.asm"], k["args"], timeout=10)
        obj = r.bin.hex() if r.rc == 0 and r.bin is not None else None
        if r.rc == k["exit"] and obj == k["object"]:
            out.append("KNOWN-FINDING: property=%s %s (known/%s.json)" % (check.prop, what, name))
            check.known.append(name)
    return out
