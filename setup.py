#!/usr/bin/env python3
"""Builds pasm from /repo and lets TLC parse and check a first program, so that the checks find everything there."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import buildpasm
import tlc
from prog import Program, ins


def main():
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("pasm is built in", buildpasm.build())
    reps, st = tlc.outcomes([Program([ins("nop")]).lower()])
    assert len(reps) == 1 and reps[0]["res"] == "ok", reps
    print("TLC runs the specification: %d states" % st["distinct"])
    return 0


sys.exit(main())
