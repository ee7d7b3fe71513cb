"""C08: belt blocks honour their options.

TLC builds every block meeting a combination of options (Block.tla); the constraints make_block hands to the solver must admit
exactly these.  Larger blocks it admits are judged by the same specification, and their images must be admitted as well."""
from rules import *

BLOCK_CFG = 'INIT KInit\nNEXT KNext\nINVARIANT KEmit\nINVARIANT CompleteIsValid\nCHECK_DEADLOCK FALSE\n'


def block_cfg(w, h, tile=False, empty=False, L=4, par=False, single=False):
    tiles = [t for t in NO_SPLIT if (t or empty) and (L > 0 or TILES[t][0] not in (UGIN, UGOUT))]
    side = (not tile,) * 4
    return cfg(w, h, wx=tile, wy=tile, L=L, ub=side, bb=side, allowed=[tiles], rules=['small-loop'] + (['empty-underground'] if L > 0 else []), noPar=par, single=single)


def block_args(c):
    tile, empty = c['wx'], 0 in c['allowed'][0]
    return [c['w'], c['h'], '--underground-length', c['L']] + ['--tile'] * tile + ['--allow-empty'] * empty + ['--no-parallel'] * c['noPar'] + ['--single-loop'] * c['single']


def requests(quick):
    cs = []

    def add(w, h, **kw):
        cs.append(block_cfg(w, h, **kw))
    # closed blocks
    add(1, 1); add(2, 2); add(3, 3); add(4, 4); add(5, 2, empty=True); add(4, 4, empty=True, L=2); add(4, 4, L=0); add(4, 4, L=0, empty=True); add(5, 3, L=2); add(3, 5, L=1)
    add(4, 4, L=1, par=True, empty=True); add(4, 4, L=2, par=True); add(4, 4, single=True); add(4, 3, single=True, L=0); add(3, 4, single=True); add(4, 4, single=True, L=1); add(4, 4, single=True, par=True)
    add(5, 4, single=True, L=2); add(4, 5, L=2); add(6, 2, empty=True, L=3); add(2, 6, empty=True, L=1); add(5, 4, L=3, par=True); add(6, 3, L=3)
    # tilable blocks
    for w, h in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)):
        for L in (0, 1, 2):
            add(w, h, tile=True, L=L); add(w, h, tile=True, L=L, empty=True)
            add(w, h, tile=True, L=L, single=True)
        add(w, h, tile=True, par=True, L=4); add(w, h, tile=True, par=True, empty=True, L=1)
    add(3, 2, tile=True, L=2); add(2, 3, tile=True, L=2); add(3, 2, tile=True, L=1, par=True); add(2, 3, tile=True, L=1, par=True); add(3, 3, tile=True, L=1); add(3, 3, tile=True, L=0)
    add(3, 3, tile=True, single=True, L=1); add(3, 3, tile=True, single=True, L=2); add(3, 2, tile=True, single=True); add(2, 3, tile=True, single=True, L=2); add(5, 1, tile=True, single=True); add(1, 5, tile=True, single=True, L=3)
    add(4, 1, tile=True, single=True); add(1, 4, tile=True, empty=True, L=3); add(5, 1, tile=True, empty=True, L=3); add(6, 1, tile=True, L=4); add(1, 6, tile=True, L=2, single=True); add(4, 2, tile=True, L=3)
    add(2, 4, tile=True, L=3, single=True); add(4, 2, tile=True, single=True, L=2, par=True); add(3, 3, tile=True, L=2, par=True); add(3, 3, tile=True, single=True, L=0)
    if not quick:
        add(5, 5, L=2); add(5, 5, single=True); add(6, 4, single=True); add(6, 5, L=0); add(6, 6, L=0, single=True); add(5, 4, empty=True, L=2, par=True); add(4, 3, tile=True, L=2); add(3, 4, tile=True, L=3, single=True)
        add(4, 4, tile=True, L=1, single=True); add(4, 4, tile=True, L=0); add(3, 3, tile=True, L=2, empty=True); add(5, 2, tile=True, L=4, single=True); add(4, 3, tile=True, par=True, L=2); add(4, 4, tile=True, L=3, single=True, par=True)
    return cs


def body(check):
    cs = requests(check.quick)
    check.section('TLC builds the blocks of %d requests' % len(cs))
    layouts = enumerate_many(cs, 'Block', BLOCK_CFG, timeout=700 if check.quick else 20000)
    check.section('comparing with the generator')
    exact_grids(check, [(name(c), 'make_block', block_args(c), ls) for c, ls in zip(cs, layouts)], 'exact')
    check.extra['layouts_per_request'] = {name(c): len(ls) for c, ls in zip(cs, layouts)}
    # larger blocks: what is printed is judged
    check.section('larger blocks')
    sampled(check, [(name(c), 'make_block', block_args(c), c) for c in larger()], 'Block', 8 if check.quick else 40, 6)
    check.assumptions += ['pysat decides satisfiability correctly', 'exhaustive for the requests listed; larger blocks are judged one by one']


def name(c):
    return 'make_block ' + ' '.join(map(str, block_args(c)))


def larger():
    big = []
    for w, h, kw in ((6, 6, {}), (8, 6, dict(L=3)), (6, 6, dict(tile=True, L=2)), (7, 5, dict(tile=True)), (6, 5, dict(single=True)), (6, 6, dict(tile=True, single=True, L=2)), (8, 8, dict(empty=True)),
                     (6, 6, dict(par=True, L=2)), (6, 7, dict(tile=True, par=True, L=3)), (7, 4, dict(L=0, empty=True)), (6, 6, dict(L=0, tile=True)), (10, 4, dict(tile=True, empty=True, L=4)),
                     (4, 9, dict(single=True, tile=True, L=3)), (5, 6, dict(single=True, par=True, L=3)), (12, 3, dict(L=6)), (6, 6, dict(single=True)), (6, 6, dict(single=True, tile=True)), (3, 12, dict(L=5, tile=True))):
        big.append(block_cfg(w, h, **kw))
    return big


if __name__ == '__main__':
    main('C08', body)
