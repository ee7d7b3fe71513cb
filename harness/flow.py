"""Flows through layouts, as certificates that NetFree.tla checks."""
from fractions import Fraction as F
from math import gcd
from lib import *

VEC = ((1, 0), (0, -1), (-1, 0), (0, 1))


class Traced:
    """Runs and splitters of a layout that obeys the belt rules, as Runs.tla names them."""

    def __init__(self, g, w, h):
        self.g, self.w, self.h = g, w, h
        self.start = {}
        self.ports = []
        for n, t in enumerate(g):
            k, i, o, head = TILES[t]
            if k == SPLIT and head:
                x, y = n % w, n // w
                d = tile_dir(t)
                dx, dy = VEC[(d + 1) % 4]
                cells = [(x, y), (x + dx, y + dy)]
                ins, outs = [], []
                for c in cells:
                    kk, ii, oo, _ = TILES[self.at(c)]
                    ins.append(self.run(c) if ii == d else None)
                    outs.append(self.run((c[0] + VEC[d][0], c[1] + VEC[d][1])) if oo == d else None)
                self.ports.append((ins, outs))
        self.enters = [c for c in self.cells() if self.i(c) != NONE and not self.inside(self.behind(c, self.i(c)))]
        self.leaves = [c for c in self.cells() if self.o(c) != NONE and not self.inside((c[0] + VEC[self.o(c)][0], c[1] + VEC[self.o(c)][1]))]

    def cells(self):
        return [(n % self.w, n // self.w) for n in range(self.w * self.h)]

    def at(self, c):
        return self.g[c[1] * self.w + c[0]]

    def i(self, c):
        return TILES[self.at(c)][1]

    def o(self, c):
        return TILES[self.at(c)][2]

    def inside(self, c):
        return 0 <= c[0] < self.w and 0 <= c[1] < self.h

    def behind(self, c, d):
        return c[0] - VEC[d][0], c[1] - VEC[d][1]

    def upstream(self, c):
        k, i, o, _ = TILES[self.at(c)]
        if k == UGOUT:
            p = self.behind(c, o)
            while self.inside(p):
                kk = TILES[self.at(p)]
                if kk[0] in (UGIN, UGOUT) and tile_dir(self.at(p)) % 2 == o % 2:
                    return p
                p = self.behind(p, o)
            return None
        if i == NONE:
            return None
        p = self.behind(c, i)
        return None if not self.inside(p) or TILES[self.at(p)][0] == SPLIT else p

    def run(self, c):
        seen = set()
        while True:
            if c in seen or not self.inside(c):
                return None
            seen.add(c)
            u = self.upstream(c)
            if u is None:
                return c
            c = u


def solve(splitters, fixed):
    """splitters: (ins, outs) lists of runs; each gives its outputs equal parts.  fixed: run -> dict amount.  run -> dict, or None."""
    eq, order = {}, []
    for ins, outs in splitters:
        for r in outs:
            e = {}
            for s in ins:
                e[s] = e.get(s, 0) + F(1, len(outs))
            eq[r] = e
    for r in list(eq):
        e = eq[r]
        own = e.pop(r, 0)
        if own:
            if own == 1:
                return None
            e = {k: v / (1 - own) for k, v in e.items()}
        eq[r] = e
        for q in eq:
            if q != r and r in eq[q]:
                f = eq[q].pop(r)
                for k, v in e.items():
                    eq[q][k] = eq[q].get(k, 0) + f * v
    res = {}
    for r, e in eq.items():
        tot = {}
        for s, v in e.items():
            for j, a in fixed.get(s, {}).items():
                tot[j] = tot.get(j, 0) + v * a
        res[r] = tot
    for r, a in fixed.items():
        res.setdefault(r, a)
    return res


def pow2(n):
    p = 1
    while p < n:
        p *= 2
    return p


def amounts(a, b):
    """(forward input amount, backward input amount)"""
    if a == b:
        f = a * (pow2(a) // gcd(pow2(a), a))
        return f, f
    m = 1
    for x in (pow2(min(a, b)), 2, a, b):
        m = m * x // gcd(m, x)
    return m * min(a, b) // a, m * min(a, b) // b


EMPTY_CERT = {'unit': 1, 'runs': [], 'fwd': [], 'bwd': []}


def certificate(g, w, h, a, b):
    """The flows of a layout with a inputs and b outputs, for NetFree.tla; None when the numbers are too large for TLC."""
    t = Traced(g, w, h)
    sp = [([r for r in ins if r], [r for r in outs if r]) for ins, outs in t.ports]
    ins, outs = {t.run(c): c[1] for c in t.enters}, {t.run(c): c[1] for c in t.leaves}
    runs = sorted(set(ins) | set(outs) | {r for s in sp for side in s for r in side if r}, key=str)
    if None in runs:
        return EMPTY_CERT
    # runs that lie between the inputs and the outputs; the rest carries nothing
    def closure(start, edges):
        seen, todo = set(start), list(start)
        while todo:
            r = todo.pop()
            for p, q in edges:
                if p == r and q not in seen:
                    seen.add(q)
                    todo.append(q)
        return seen
    edges = [(p, q) for i, o in sp for p in i for q in o]
    if closure(ins, edges) != closure(outs, [(q, p) for p, q in edges]):
        return EMPTY_CERT
    live = closure(ins, edges)
    sp = [(i, o) for i, o in sp if all(r in live for r in i)]
    fi, bi = amounts(a, b)
    fwd = solve(sp, {r: {y % a: F(fi)} for r, y in ins.items()})
    bwd = solve([(o, i) for i, o in sp], {r: {y % b: F(bi)} for r, y in outs.items()}) if a != b else {}
    if fwd is None or bwd is None:
        return EMPTY_CERT
    unit = 1
    for f in (fwd, bwd):
        for v in f.values():
            for x in v.values():
                unit = unit * F(x).denominator // gcd(unit, F(x).denominator)
    if unit * max(fi, bi) * 4 * max(a, b) >= 2 ** 30:
        return None
    vec = lambda f, n: [[int(f.get(r, {}).get(j, 0) * unit) for j in range(n)] for r in runs]
    return {'unit': unit, 'runs': [list(r) for r in runs], 'fwd': vec(fwd, a), 'bwd': vec(bwd, b) if a != b else vec(fwd, a)}


def certificate_or_none(g, w, h, a, b):
    """As certificate; for a layout that breaks the belt rules an empty one (TLC then reports the broken rule, or that a certificate is missing)."""
    try:
        return certificate(g, w, h, a, b)
    except (IndexError, ZeroDivisionError, KeyError):
        return EMPTY_CERT
