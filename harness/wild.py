"""Varied layouts that obey the belt rules, with the splitter network TLC reads out of them (Trace.tla)."""
from rules import *


def trace(items, shards=4, timeout=600):
    """items: (w, h, L, layout).  TLC's reading: dicts with broken, enter, leave, through, nodes."""
    if not items:
        return []
    shards = min(shards, max(1, len(items) // 16))
    per = [list(range(k, len(items), shards)) for k in range(shards)]

    def job(ix):
        def run():
            keys, cfgs, cases = {}, [], []
            for i in ix:
                w, h, L, g = items[i]
                if (w, h, L) not in keys:
                    cfgs.append(cfg(w, h, L=L, ub=(True,) * 4))
                    keys[w, h, L] = len(cfgs)
                cases.append([keys[w, h, L], list(g)])
            return ix, run_tlc('Trace', 'INIT TInit\nNEXT TNext\nINVARIANT TEmit\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json(cfgs), 'CASES': write_json(cases)},
                               workers=max(1, CORES // shards), timeout=timeout, heap='3g')
        return run
    res = [None] * len(items)
    for ix, r in parallel([job(ix) for ix in per], shards):
        for l, broken, a, b, t, nodes in r.jsons('T'):
            res[ix[l - 1]] = {'broken': sorted(broken), 'enter': a, 'leave': b, 'through': t, 'nodes': nodes}
    if any(r is None for r in res):
        raise MachineryError('TLC gave no reading of some layout')
    return res


def _draw(job):
    """Layouts with k splitters, at most one unconnected side each (any number with loose), drawn at random."""
    w, h, L, k, n, seed, loose = job
    from factorio_sat.solver import Grid
    from pysat.card import CardEnc, EncType
    from pysat.formula import IDPool
    rnd = random.Random(seed)
    g = Grid(w, h, None, L)
    g.prevent_intersection()
    g.prevent_bad_undergrounding()
    g.enforce_maximum_underground_length()
    g.block_underground_through_edges()
    o = Oracle(g)
    heads = [o.lits[c][5] for c in range(w * h)]
    top = max(max(s.values()) for s in o.sel)
    for c in CardEnc.equals(heads, k, vpool=IDPool(start_from=top + 1), encoding=EncType.seqcounter).clauses:
        o.solver.add_clause(c)
    vec = ((1, 0), (0, -1), (-1, 0), (0, 1))
    if not loose:
        # few belts cross the edge, so that most pass a splitter
        def crossing(field, sign):
            return [o.lits[y * w + x][field + d] for y in range(h) for x in range(w) for d in range(4) if not (0 <= x + sign * vec[d][0] < w and 0 <= y + sign * vec[d][1] < h)]
        for field, sign in ((6, -1), (10, 1)):
            for c in CardEnc.atmost(crossing(field, sign), max(1, k + rnd.choice([0, 0, 1])), vpool=IDPool(start_from=o.solver.nof_vars() + 1), encoding=EncType.seqcounter).clauses:
                o.solver.add_clause(c)
    nonfull = lambda d, head: [t for t in ALL_TILES if TILES[t][0] == SPLIT and tile_dir(t) == d and TILES[t][3] == head and NONE in TILES[t][1:3]]
    if not loose:
        for y in range(h):
            for x in range(w):
                for d in range(4):
                    dx, dy = vec[(d + 1) % 4]
                    if 0 <= x + dx < w and 0 <= y + dy < h:
                        for t in nonfull(d, True):
                            for u in nonfull(d, False):
                                o.solver.add_clause([-o.sel[y * w + x][t], -o.sel[(y + dy) * w + x + dx][u]])
    res = []
    for _ in range(n):
        # random wishes for a few cells, dropped one by one if they cannot be met
        wish = [o.sel[c][rnd.choice(ALL_TILES)] for c in rnd.sample(range(w * h), min(w * h, 3 + w * h // 3))]
        chosen = []
        for v in wish:
            if o.solver.solve(assumptions=chosen + [v]):
                chosen.append(v)
        o.solver.set_phases([v if rnd.random() < .3 else -v for s in o.sel for v in s.values()])
        if not o.solver.solve(assumptions=chosen):
            break
        m = set(v for v in o.solver.get_model() if v > 0)
        lay = [next((t for t, v in s.items() if v in m), None) for s in o.sel]
        if None in lay:
            raise Violation('the rule engine admits a cell that is no tile', {'layout': lay})
        res.append((w, h, L, tuple(lay)))
        o.block(lay)
    o.close()
    return res


def draw(sizes, per, seed, loose=False):
    """sizes: (w, h, L, splitters).  Returns (w, h, L, layout) without duplicates."""
    jobs = [(w, h, L, k, per, '%s/%s/%d' % (seed, n, loose), loose) for n, (w, h, L, k) in enumerate(sizes)]
    return [x for xs in pmap(_draw, jobs) for x in xs]
