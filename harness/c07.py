"""C07: interchanges.

TLC builds every interchange of small sizes (Interchange.tla); the constraints the command hands to the solver must admit exactly
these.  Larger interchanges that it admits or prints, and layouts drawn from weaker constraints, are judged by the same specification."""
from rules import *
from c04 import partial_text

GENERIC = ['small-loop', 'empty-underground', 'belt-hook', 'mergeable-underground', 'semicircle', 'underground-hook', 'zigzag', 'awkward-entry']
SYMMETRIC = ['expand-underground', 'small-loop', 'empty-underground', 'belt-hook', 'mergeable-underground', 'semicircle', 'underground-hook', 'awkward-entry']
IC_CFG = 'INIT WInit\nNEXT WNext\nINVARIANT IEmit\nINVARIANT CompleteIsValid\nCHECK_DEADLOCK FALSE\n'


def conf(w, h, L=4, alt=False, rot=False, allowed=None):
    return cfg(w, h, L=L, ub=(True,) * 4, bb=(False, True) * 2, allowed=allowed or [NO_SPLIT], alt=alt, rot=rot, rules=SYMMETRIC if rot else GENERIC)


def args_of(c):
    return [c['w'], c['h'], '--underground-length', c['L']] + ['--alternating'] * c['alt'] + ['--rot-symmetry'] * c['rot']


def name_of(c):
    return 'interchange ' + ' '.join(map(str, args_of(c)))


def relaxed(w, h, L, n, seed):
    """Layouts drawn from weaker constraints: the belt rules, the ends and some of the pruning rules."""
    from factorio_sat import optimisations
    from factorio_sat.solver import Grid
    rnd = random.Random(seed)
    grid = Grid(w, h, None, L)
    for y in range(h):
        grid.clauses.append([grid.get_tile_instance(0, y).input_direction[0]])
        grid.clauses.append([grid.get_tile_instance(w - 1, y).output_direction[0]])
    for t in grid.iterate_tiles():
        grid.clauses.append([-t.is_splitter])
    grid.block_underground_through_edges()
    grid.block_belts_through_edges((False, True))
    grid.prevent_bad_undergrounding()
    grid.prevent_intersection()
    grid.enforce_maximum_underground_length()
    if rnd.random() < .8:
        optimisations.apply_generic_optimisations(grid)
    return [m for m in sample_grid(grid, n, rnd) if all(isinstance(t, int) for t in m)]


def upside_down(g, w, h):
    a = mirrored(list(g), w, h)
    for _ in range(2):
        a = turned(*a)
    return list(a[0])


def larger(quick):
    big = [conf(8, 6), conf(9, 6, alt=True), conf(9, 6, rot=True), conf(8, 8, rot=True, L=6), conf(7, 8), conf(8, 10, alt=True, L=8), conf(6, 6, L=3), conf(9, 4, L=2), conf(7, 4)]
    if not quick:
        big += [conf(12, 8), conf(10, 6, rot=True), conf(12, 10, rot=True), conf(8, 22, alt=True, L=8)]
    return big


def body(check):
    cs = []

    def add(*a, **k):
        cs.append(conf(*a, **k))
    for w in range(1, 8):
        add(w, 2, L=(w % 4) + 1)
    add(6, 2, alt=True); add(5, 2, rot=True); add(8, 2, L=5); add(6, 2, rot=True, L=2); add(7, 2, alt=True, L=3)
    for L in (1, 2, 3, 4, 6):
        add(4, 4, L=L); add(5, 4, L=L, rot=L % 2 == 0, alt=L == 3)
    add(6, 4); add(6, 4, alt=True); add(6, 4, L=3); add(7, 4, rot=True); add(3, 6); add(4, 6); add(2, 6); add(6, 6, rot=True, L=3); add(7, 6, rot=True)
    if not check.quick:
        add(5, 6); add(7, 4); add(7, 4, L=3, alt=True); add(8, 4, L=2); add(8, 4, rot=True); add(7, 6, rot=True, L=5); add(5, 6, alt=True); add(8, 6, rot=True, L=3); add(4, 8)
    check.section('TLC builds the interchanges of %d requests' % len(cs))
    layouts = enumerate_many(cs, 'Interchange', IC_CFG, timeout=780 if check.quick else 20000, shards=8 if check.quick else 4)
    jobs = [(name_of(c), 'interchange', args_of(c), ls) for c, ls in zip(cs, layouts)]
    check.section('comparing with the command')
    # partial layouts keep exactly those interchanges that contain them
    rnd = random.Random(SEED)
    for c, ls in list(zip(cs, layouts)):
        for k in range(2 if ls else 0):
            lay = rnd.choice(ls)
            cells = rnd.sample([n for n, t in enumerate(lay) if t], rnd.choice([1, 2, 3, 4]) if len(lay) > 8 else 1)
            tiles = {n: lay[n] for n in cells}
            if k:
                tiles[cells[0]] = rnd.choice(range(1, 21))
            fill = rnd.sample([n for n, t in enumerate(lay) if not t], 1) if rnd.random() < .5 and 0 in lay else []
            part = partial_text(c['w'], c['h'], {(n % c['w'], n // c['w']): t for n, t in tiles.items()}, {(n % c['w'], n // c['w']) for n in fill})
            keep = [l for l in ls if all(l[n] == t for n, t in tiles.items()) and all(l[n] == 0 for n in fill)]
            jobs.append((name_of(c) + ' with a partial layout %d %s' % (len(jobs), tiles), 'interchange', args_of(c) + ['--partial', write_file(part, 'partial')], keep))
    exact_grids(check, jobs, 'exact')
    check.extra['layouts_per_request'] = {j[0]: len(j[3]) for j in jobs}

    check.section('larger interchanges')
    big = larger(check.quick)
    drawn = []

    def draw(c):
        r = random.Random('%s/%s' % (SEED, name_of(c)))
        ms = sample_grid(capture('interchange', args_of(c)), 10 if check.quick else 40, r)
        return ms, relaxed(c['w'], c['h'], c['L'], 12 if check.quick else 60, '%s/r/%s' % (SEED, name_of(c)))
    for c, (ms, rs) in zip(big, pmap(draw, big)):
        for m in ms:
            if not all(isinstance(t, int) for t in m):
                check.violation('%s: the constraints admit a cell that is no tile' % name_of(c), {'layout': m})
                continue
            drawn.append(dict(c, g=m))
            for o in (dict(alt=not c['alt']), dict(rot=not c['rot']), dict(L=c["L"] - 1)):
                if rnd.random() < .3:
                    k = {x: c[x] for x in ('w', 'h', 'L', 'alt', 'rot')}
                    k.update(o)
                    drawn.append(dict(conf(**k), g=m))
            drawn.append(dict(c, g=upside_down(m, c['w'], c['h'])))
            drawn += [dict(c, g=a) for a in altered(m, c['w'], c['h'], rnd, 2, NO_SPLIT)]
        drawn += [dict(c, g=m) for m in rs]
    drawn += [dict(c, g=m) for c in larger(False) for m in witnesses(name_of(c))]
    agree(check, drawn, 'Interchange', 'interchange', args_of, name_of, 'judged', shards=8)
    check.assumptions += ['pysat decides satisfiability correctly', 'exhaustive for the sizes listed, larger interchanges judged one by one']


if __name__ == '__main__':
    main('C07', body)
