"""Makes a failing program smaller, by leaving out statements as long as it still fails."""
import copy

from prog import Program


def lists(stmts):
    """every list of statements of a program"""
    yield stmts
    for s in stmts:
        if "bs" in s:
            for b in s["bs"]:
                yield from lists(b)
        for k in ("t", "f", "body"):
            if isinstance(s.get(k), list):
                yield from lists(s[k])


def all_lists(p):
    r = []
    for _, ss in p.mains:
        r += list(lists(ss))
    return r


def without(p, n, lo, hi):
    q = Program([(name, copy.deepcopy(ss)) for name, ss in p.mains], copy.deepcopy(p.opts))
    t = all_lists(q)[n]
    del t[lo:hi]
    return q


def candidates(p):
    res = []
    for n, t in enumerate(all_lists(p)):
        keep = 0 if any(t is ss for _, ss in p.mains) else 1
        size = len(t)
        k = size
        while k >= 1:
            if size - k >= keep:
                for lo in range(0, size - k + 1, k):
                    res.append(without(p, n, lo, lo + k))
            k //= 2
    return res


def reduce(p, fails, rounds=12, width=160):
    """fails: list of programs -> index of the first that fails, or None"""
    for _ in range(rounds):
        c = candidates(p)
        c.sort(key=lambda q: sum(len(t) for t in all_lists(q)))
        i = None
        for lo in range(0, min(len(c), width), 40):
            i = fails(c[lo:lo + 40])
            if i is not None:
                p = c[lo + i]
                break
        if i is None:
            return p
    return p
