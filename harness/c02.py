"""C02: the rule engine admits exactly the valid layouts."""
from rules import *
from factorio_sat.solver import Grid
from factorio_sat.template import EdgeMode


def build(conf, L):
    em = tuple(EdgeMode.WRAP if b else EdgeMode.NO_WRAP for b in (conf['wx'], conf['wy']))
    g = Grid(conf['w'], conf['h'], None, L, edge_mode=em)
    g.prevent_intersection()
    g.prevent_bad_undergrounding()
    if L >= 1:
        g.enforce_maximum_underground_length()
    if any(conf['ub']):
        g.block_underground_through_edges(tuple(conf['ub']))
    if any(conf['bb']):
        g.block_belts_through_edges(tuple(conf['bb']))
    return g


def body(check):
    T4, F4 = (True,) * 4, (False,) * 4
    cases = []

    def add(w, h, **kw):
        L = kw.get('L', 4)
        cases.append((cfg(w, h, **kw), L))
    INF = float('inf')
    add(1, 1)
    add(2, 2, L=1); add(2, 2, L=INF)
    add(3, 1, L=1); add(1, 3, L=1); add(3, 1, L=2); add(1, 3, L=3)
    add(2, 2, L=2, ub=T4, bb=F4)
    add(3, 2, L=2, ub=T4); add(2, 3, L=1, ub=T4)
    # every axis combination
    for wx, wy in ((True, False), (False, True), (True, True)):
        add(2, 2, wx=wx, wy=wy, L=2)
        add(3, 2, wx=wx, wy=wy, L=2, ub=(not wx, not wy) * 2)
        add(2, 3, wx=wx, wy=wy, L=1, ub=(not wx, not wy) * 2)
        add(1, 2, wx=wx, wy=wy, L=3); add(2, 1, wx=wx, wy=wy, L=1); add(1, 1, wx=wx, wy=wy, L=2)
    # every single closed side, belts and undergrounds
    for s in range(4):
        side = tuple(i == s for i in range(4))
        other = tuple(i != s for i in range(4))
        add(2, 2, L=1, ub=side); add(2, 2, L=1, bb=side); add(2, 2, L=2, ub=other, bb=side); add(3, 1, L=1, ub=side, bb=other); add(1, 3, L=1, ub=side, bb=other)
        add(2, 2, L=2, wx=True, wy=True, ub=side, bb=other)
    add(3, 3, L=1, ub=T4, bb=T4); add(4, 4, L=2, ub=T4, bb=T4); add(3, 3, wx=True, L=3, ub=(False, True) * 2, bb=(False, True) * 2)
    add(3, 3, wy=True, L=1, ub=(True, False) * 2, bb=(True, False) * 2)
    # long undergrounds: strips over a reduced alphabet
    H = [0, 1, 7, 13, 15, 17, 19, 14]
    V = [0, 4, 10, 14, 16, 18, 20, 13]
    for L in (1, 2, 3, 4, 5):
        add(7, 1, L=L, ub=T4, allowed=[H]); add(1, 7, L=L, ub=T4, allowed=[V])
        add(6, 1, L=L, allowed=[[0, 13, 15, 17, 19]]); add(1, 6, L=L, allowed=[[0, 14, 16, 18, 20]])
        add(6, 1, L=L, wx=True, allowed=[[0, 13, 15, 17, 19, 1]]); add(1, 6, L=L, wy=True, allowed=[[0, 14, 16, 18, 20, 4]])
    add(8, 1, L=INF, ub=T4, allowed=[[0, 1, 13, 15, 17, 19]])
    add(8, 1, L=6, ub=T4, allowed=[[0, 1, 13, 15, 17, 19]]); add(1, 8, L=5, ub=T4, allowed=[[0, 4, 14, 16, 18, 20]])
    if not check.quick:
        add(4, 3, wx=True, L=3, ub=(False, True) * 2, bb=(False, True) * 2); add(3, 4, wy=True, L=2, ub=(True, False) * 2, bb=(True, False) * 2)
        add(4, 1, L=2); add(1, 4, L=3); add(3, 2, L=2, wx=True, wy=True); add(3, 3, L=2, wx=True, wy=True, allowed=[NO_SPLIT])
        add(3, 3, L=2, ub=T4, bb=(True, False, False, True)); add(4, 2, L=3, ub=T4); add(2, 4, L=1, ub=T4)
        add(5, 4, L=3, ub=T4, bb=T4); add(4, 5, L=2, ub=T4, bb=T4); add(5, 5, L=2, ub=T4, bb=T4)
        for ub in range(16):
            for bb in range(16):
                add(2, 2, L=1, ub=tuple(bool(ub >> i & 1) for i in range(4)), bb=tuple(bool(bb >> i & 1) for i in range(4)))
    check.section('TLC: %d configurations' % len(cases))

    layouts = enumerate_many([c for c, _ in cases], timeout=780 if check.quick else 20000)
    check.section('comparing with the clause sets')
    sizes = []
    for (conf, L), ls in zip(cases, layouts):
        name = ' '.join('%s=%s' % (k, v if not isinstance(v, list) else ''.join('01'[x] for x in v)) for k, v in conf.items() if k != 'allowed') + ('' if len(conf['allowed'][0]) == 45 else ' alphabet=%s' % conf['allowed'][0])
        exact(check, name, build(conf, L), ls, None if len(conf['allowed'][0]) == 45 else conf['allowed'])
        sizes.append(len(ls))
    check.extra['configurations'] = len(cases)
    check.extra['layouts_per_configuration'] = sizes
    check.assumptions += ['pysat decides satisfiability correctly', 'layouts larger than the enumerated sizes are covered by sampled judgement only']


if __name__ == '__main__':
    main('C02', body)
