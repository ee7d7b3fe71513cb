"""C06: network-free balancers share every input equally among all outputs.

TLC builds the layouts of small requests (NetFree.tla) and judges their flows; the constraints the command hands to the solver must admit
exactly the balancers.  Larger balancers it admits are judged one by one, and layouts near them must be treated alike."""
from rules import *
from c04 import partial_text, same_tile
from c09 import GENERIC
import flow

NF_RULES = ['expand-underground-interior', *GENERIC, 'double-edge']
NF_CFG = 'INIT WInit\nNEXT WNext\nINVARIANT FEmit\nINVARIANT CompleteIsValid\nCHECK_DEADLOCK FALSE\n'


def conf(w, h, a, b, L=4, aligned=False):
    return cfg(w, h, L=L, ub=(True,) * 4, bb=(False, True) * 2, allowed=[ALL_TILES], nIn=a, nOut=b, aligned=aligned, rules=NF_RULES)


def args_of(c):
    return [c['w'], c['h'], c['nIn'], c['nOut'], '--underground-length', -1 if c['L'] >= 1000 else c['L']] + ['--aligned'] * c['aligned']


def name_of(c):
    return 'belt_balancer_net_free ' + ' '.join(map(str, args_of(c)))


def certified(confs):
    """confs with certificates; those TLC cannot count with are left out."""
    def one(ix):
        return [flow.certificate_or_none(confs[i]['g'], confs[i]['w'], confs[i]['h'], confs[i]['nIn'], confs[i]['nOut']) for i in ix]
    per = [list(range(k, len(confs), CORES * 4)) for k in range(CORES * 4)]
    res = [None] * len(confs)
    for ix, r in zip(per, pmap(one, per)):
        for i, x in zip(ix, r):
            res[i] = x
    return [dict(c, cert=x) for c, x in zip(confs, res) if x is not None]


def verdicts(confs, shards=8):
    v = judge(confs, 'NetFree', shards=shards)
    for c, x in zip(confs, v):
        if 'bad-certificate' in x or 'no-certificate' in x:
            raise MachineryError('certificate rejected: %s' % show(c['g'], c['w']))
    return v


def small(check, cs):
    check.section('TLC builds the layouts of %d requests' % len(cs))
    candidates = enumerate_many(cs, 'NetFree', NF_CFG, timeout=800 if check.quick else 20000, shards=8 if check.quick else 4)
    check.section('TLC judges the flows of %d layouts' % sum(map(len, candidates)))
    items = [dict(c, g=list(g)) for c, ls in zip(cs, candidates) for g in ls]
    certs = certified(items)
    if len(certs) != len(items):
        raise MachineryError('numbers too large')
    by = {}
    for c, v in zip(certs, verdicts(certs)):
        k = name_of(c)
        by.setdefault(k, {}).setdefault('undecided' if v == ['undecided'] else 'no' if v else 'yes', []).append(tuple(c['g']))
        for x in v:
            check.extra.setdefault('built_layouts_breaking', {}).setdefault(x, 0)
            check.extra['built_layouts_breaking'][x] += 1
    check.section('comparing with the command')
    jobs = [(name_of(c), 'net_free', args_of(c), by.get(name_of(c), {}).get('yes', []), by.get(name_of(c), {}).get('undecided', [])) for c in cs]
    rnd = random.Random(SEED)
    for c, j in list(zip(cs, jobs)):
        ls = j[3]
        for k in range(1 if ls else 0):
            lay = rnd.choice(ls)
            cells = rnd.sample([n for n, t in enumerate(lay) if t], rnd.choice([1, 2]))
            tiles = {n: lay[n] for n in cells}
            part = partial_text(c['w'], c['h'], {(n % c['w'], n // c['w']): t for n, t in tiles.items()})
            keep = lambda ls: [l for l in ls if all(l[n] in same_tile(t) for n, t in tiles.items())]
            jobs.append((j[0] + ' with a partial layout %s' % tiles, 'net_free', args_of(c) + ['--partial', write_file(part, 'partial')], keep(ls), keep(j[4])))
    exact_grids(check, jobs, 'exact')
    check.extra['layouts_per_request'] = {j[0]: len(j[3]) for j in jobs}
    check.extra['undecided'] = sum(len(j[4]) for j in jobs)


# ------------------------------------------------------------------------------------------- larger balancers
def upside_down(g, w, h):
    a = mirrored(list(g), w, h)
    for _ in range(2):
        a = turned(*a)
    return list(a[0])


def relaxed(c, n, seed, outer=None):
    """Layouts drawn from weaker constraints: the belt rules, the ends and some of the pruning rules, nothing about flows."""
    from factorio_sat import belt_balancer, belt_balancer_net_free, optimisations
    from factorio_sat.cardinality import library_equals
    from factorio_sat.solver import Belt, Grid
    from factorio_sat.direction import Direction
    rnd = random.Random(seed)
    w, h = c['w'], c['h']
    grid = Grid(w, h, None, c['L'])
    grid.block_underground_through_edges()
    grid.block_belts_through_edges((False, True))
    grid.prevent_bad_undergrounding()
    grid.prevent_intersection()
    grid.enforce_maximum_underground_length()
    if 'nIn' in c:
        belt_balancer_net_free.setup_balancer_ends(grid, c['nIn'], c['nOut'], c['aligned'])
        belt_balancer.prevent_double_edge_belts(grid)
    else:
        for y in range(h):
            for x in (0, w - 1):
                grid.set_tile(x, y, Belt(Direction.RIGHT, Direction.RIGHT))
    if outer:
        grid.clauses += library_equals([t.is_splitter_head for t in grid.iterate_tiles()], outer, grid.pool)
    optimisations.expand_underground(grid, min_x=1, max_x=w - 2)
    optimisations.apply_generic_optimisations(grid)
    return [m for m in sample_grid(grid, n, rnd) if all(isinstance(t, int) for t in m)]


def draw(check, confs, tool, args_of, name_of, k, n_relaxed):
    """Layouts the command admits, near ones, and ones drawn from weaker constraints."""
    def one(c):
        r = random.Random('%s/%s' % (SEED, name_of(c)))
        ms = sample_grid(capture(tool, args_of(c)), k, r)
        want = sum(1 for t in ms[0] if isinstance(t, int) and TILES[t][3]) if ms else None
        return ms, relaxed(c, n_relaxed, '%s/r/%s' % (SEED, name_of(c)), want)
    drawn = []
    rnd = random.Random(SEED)
    for c, (ms, rs) in zip(confs, pmap(one, confs)):
        check.extra.setdefault('larger_drawn', {})[name_of(c)] = len(ms)
        for m in ms:
            if not all(isinstance(t, int) for t in m):
                check.violation('%s: the constraints admit a cell that is no tile' % name_of(c), {'layout': m})
                continue
            drawn.append(dict(c, g=m))
            drawn.append(dict(c, g=upside_down(m, c['w'], c['h'])))
            drawn += [dict(c, g=a) for a in altered(m, c['w'], c['h'], rnd, 2)]
        drawn += [dict(c, g=m) for m in rs]
    return drawn


# ------------------------------------------------------------------------------------------- sizes that are powers of two
P2_RULES = ['expand-underground-interior', *GENERIC]
P2_CFG = 'INIT WInit\nNEXT WNext\nINVARIANT PEmit\nINVARIANT PBalanced\nINVARIANT CompleteIsValid\nCHECK_DEADLOCK FALSE\n'


def p2_conf(w, h, L=4):
    return cfg(w, h, L=L, ub=(True,) * 4, bb=(False, True) * 2, allowed=[ALL_TILES], rules=P2_RULES)


def p2_args(c):
    return [c['w'], c['h'], '--underground-length', -1 if c['L'] >= 1000 else c['L']]


def p2_name(c):
    return 'belt_balancer_net_free_power_of_2 ' + ' '.join(map(str, p2_args(c)))


def p2_big(quick):
    return [p2_conf(9, 4), p2_conf(10, 4), p2_conf(10, 8)] + ([] if quick else [p2_conf(12, 4), p2_conf(10, 8, 5), p2_conf(12, 8), p2_conf(12, 8, 6)])


def powers(check):
    cs = [p2_conf(*a) for a in ((1, 4), (2, 4), (3, 4), (4, 4, 1), (5, 4), (6, 4, 2), (7, 4, 3), (7, 4, 1000), (8, 4), (3, 8))]
    if not check.quick:
        cs += [p2_conf(*a) for a in ((8, 4, 3), (9, 4), (9, 4, 3), (9, 4, 1000), (10, 4, 3), (10, 4), (4, 8), (5, 8))]
    check.section('TLC builds the inner stages of %d requests' % len(cs))
    layouts = enumerate_many(cs, 'Pow2', P2_CFG, timeout=780 if check.quick else 20000, shards=5 if check.quick else 4)
    jobs = [(p2_name(c), 'pow2', p2_args(c), ls) for c, ls in zip(cs, layouts)]
    rnd = random.Random(SEED)
    for c, ls in list(zip(cs, layouts)):
        for k in range(2 if ls else 0):
            lay = rnd.choice(ls)
            tiles = {n: lay[n] for n in rnd.sample([n for n, t in enumerate(lay) if t], 3)}
            part = partial_text(c['w'], c['h'], {(n % c['w'], n // c['w']): t for n, t in tiles.items()})
            jobs.append((p2_name(c) + ' with a partial layout %s' % tiles, 'pow2', p2_args(c) + ['--partial', write_file(part, 'partial')],
                         [l for l in ls if all(l[n] == t for n, t in tiles.items())]))
    exact_grids(check, jobs, 'pow2-exact')
    check.extra['inner_stages_per_request'] = {j[0]: len(j[3]) for j in jobs}
    big = p2_big(check.quick)
    check.section('larger inner stages')
    drawn = draw(check, big, 'pow2', p2_args, p2_name, 8 if check.quick else 60, 6 if check.quick else 30)
    drawn += [dict(c, g=m) for c in p2_big(False) for m in witnesses(p2_name(c))]
    agree(check, drawn, 'Pow2', 'pow2', p2_args, p2_name, 'pow2-judged', shards=4)


QUICK = [(1, 1, 1, 1), (2, 1, 1, 1), (4, 1, 1, 1, 1), (3, 2, 1, 1), (4, 2, 1, 1, 1000), (3, 2, 2, 2), (4, 2, 2, 2), (5, 2, 2, 2, 2), (3, 3, 2, 2), (4, 3, 2, 2), (4, 3, 2, 2, 1, True),
         (3, 2, 1, 2), (4, 2, 1, 2), (4, 3, 1, 2), (4, 3, 1, 2, 4, True), (4, 3, 2, 1), (3, 2, 2, 1), (4, 2, 2, 1, 1000, True), (3, 3, 1, 3), (3, 3, 3, 1), (4, 3, 1, 3, 2),
         (3, 3, 3, 3), (3, 3, 2, 3), (3, 3, 3, 2), (2, 2, 3, 1), (3, 2, 1, 3), (3, 4, 1, 4), (3, 4, 4, 1), (3, 4, 2, 4), (3, 4, 4, 2), (3, 4, 4, 4)]
QUICK += [(5, 3, 2, 2), (5, 3, 1, 2), (5, 3, 2, 1), (4, 4, 2, 2), (4, 4, 1, 3), (4, 4, 3, 1), (4, 4, 1, 4), (4, 4, 4, 1), (4, 4, 2, 4), (4, 4, 4, 2), (5, 3, 3, 3), (4, 4, 3, 3), (4, 4, 4, 4),
          (5, 3, 1, 3), (4, 4, 2, 3), (4, 4, 3, 2), (5, 3, 1, 1), (6, 2, 2, 2), (6, 2, 1, 2, 3), (5, 4, 1, 4), (5, 4, 2, 4, 2), (5, 4, 4, 1, 4, True), (5, 4, 4, 4), (6, 3, 2, 2), (6, 3, 3, 3, 3), (5, 4, 2, 2, 4, True)]
THOROUGH = [(5, 4, 4, 1), (5, 4, 2, 4), (5, 4, 4, 2), (6, 3, 1, 3), (6, 3, 3, 3), (5, 4, 1, 3), (5, 4, 3, 1), (6, 3, 3, 1), (6, 3, 1, 2), (6, 3, 2, 1), (5, 4, 2, 2), (5, 4, 3, 3), (7, 2, 1, 2), (7, 2, 2, 2), (4, 5, 5, 1), (4, 5, 1, 5), (4, 5, 3, 3)]
BIG = [(9, 4, 4, 4), (10, 4, 4, 4, 2), (8, 5, 3, 3), (6, 4, 1, 3), (6, 4, 2, 4), (6, 4, 4, 2), (5, 4, 1, 4), (5, 4, 4, 1), (6, 5, 1, 4, 4, True), (7, 4, 3, 1), (5, 4, 2, 2)]
BIGGER = [(10, 5, 4, 4), (8, 5, 1, 5), (9, 5, 3, 3), (8, 5, 2, 4, 4, True), (6, 5, 4, 1), (6, 5, 2, 2, 2)]


def body(check):
    cs = [conf(*a) for a in QUICK + ([] if check.quick else THOROUGH)]
    small(check, cs)
    check.section('larger balancers')
    big = [conf(*a) for a in BIG + ([] if check.quick else BIGGER)]
    drawn = draw(check, big, 'net_free', args_of, name_of, 10 if check.quick else 60, 10 if check.quick else 60)
    drawn += [dict(c, g=m) for c in (conf(*a) for a in BIG + BIGGER) for m in witnesses(name_of(c))]
    n = len(drawn)
    drawn = certified(drawn)
    check.extra['not_judged_numbers_too_large'] = n - len(drawn)
    agree(check, drawn, 'NetFree', 'net_free', args_of, name_of, 'judged', shards=8)
    powers(check)
    check.assumptions += ['pysat decides satisfiability correctly', 'exhaustive for the sizes listed, larger balancers judged one by one',
                          'flows are certificates computed by the harness and verified by TLC']


if __name__ == '__main__':
    main('C06', body)
