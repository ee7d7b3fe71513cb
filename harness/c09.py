"""C09: each pruning rule removes exactly the layouts containing its pattern; symmetry breaking keeps one of each mirror pair.

TLC lists every instance of every pattern (Patterns.tla) in a grid.  For the clauses a rule adds to a grid that already
has the belt rules, the SAT solver decides over ALL layouts of that size: a layout containing an instance is excluded,
and a layout containing none is kept."""
from rules import *
from pysat.solvers import Solver
from factorio_sat import optimisations as opt
from factorio_sat import belt_balancer, interchange
from factorio_sat.solver import Grid
from factorio_sat.template import EdgeMode
import published

RULES = {
    'empty-underground': lambda g: opt.prevent_empty_along_underground(g),
    'small-loop': lambda g: opt.prevent_small_loops(g),
    'glue-splitter': lambda g: opt.glue_splitters(g),
    'glue-partial': lambda g: opt.glue_partial_splitters(g),
    'expand-underground': lambda g: opt.expand_underground(g),
    'expand-underground-interior': lambda g: opt.expand_underground(g, min_x=1, max_x=g.width - 2),
    'belt-hook': lambda g: opt.prevent_belt_hooks(g),
    'mergeable-underground': lambda g: opt.prevent_mergeable_underground(g),
    'semicircle': lambda g: opt.prevent_semicircles(g),
    'underground-hook': lambda g: opt.prevent_underground_hook(g),
    'zigzag': lambda g: opt.prevent_zigzags(g),
    'parallel-splitter': lambda g: opt.prevent_belt_parallel_splitter(g),
    'double-edge': lambda g: belt_balancer.prevent_double_edge_belts(g),
    'loose-underground': lambda g: opt.shrink_underground(g),
    'awkward-entry': lambda g: interchange.prevent_awkward_underground_entry(g),
}
GENERIC = ['small-loop', 'empty-underground', 'glue-splitter', 'belt-hook', 'mergeable-underground', 'semicircle', 'underground-hook', 'zigzag', 'parallel-splitter', 'glue-partial']
NAMES = list(RULES)


def base_grid(c):
    L = float('inf') if c['L'] >= 1000 else c['L']
    em = tuple(EdgeMode.WRAP if b else EdgeMode.NO_WRAP for b in (c['wx'], c['wy']))
    g = Grid(c['w'], c['h'], None, L, edge_mode=em)
    g.prevent_intersection()
    g.prevent_bad_undergrounding()
    g.enforce_maximum_underground_length()
    g.block_underground_through_edges((not c['wx'], not c['wy']))
    return g


class Decider:
    """base grid plus tile selectors plus one literal per pattern instance."""

    def __init__(self, c):
        self.c = c
        self.grid = base_grid(c)
        self.n_base = len(self.grid.clauses)
        self.base = list(self.grid.clauses)
        self.top = max(self.grid.pool.top, max(abs(l) for cl in self.base for l in cl))
        self.base_top = self.top
        self.lits = [cell_literals(self.grid.get_tile_instance(x, y)) for y in range(c['h']) for x in range(c['w'])]
        self.cache = {}
        self.extra = []
        self.sel = {}

    def fresh(self):
        self.top += 1
        return self.top

    def tile(self, n, t):
        if (n, t) not in self.sel:
            v = self.fresh()
            vals = [l if b else -l for l, b in zip(self.lits[n], TILE_VALUES[t])]
            self.extra += [[-v, x] for x in vals] + [[v] + [-x for x in vals]]
            self.sel[n, t] = v
        return self.sel[n, t]

    def among(self, n, tiles):
        key = (n, tuple(sorted(tiles)))
        if key not in self.cache:
            v = self.fresh()
            ls = [self.tile(n, t) for t in key[1]]
            self.extra.append([-v] + ls)
            self.extra += [[v, -l] for l in ls]
            self.cache[key] = v
        return self.cache[key]

    def all_tiles(self):
        for n in range(len(self.lits)):
            for t in ALL_TILES:
                self.tile(n, t)

    def picture(self, model):
        m = set(l for l in model if l > 0)
        lay = []
        for n in range(len(self.lits)):
            ids = [t for t in ALL_TILES if all((l in m) == v for l, v in zip(self.lits[n], TILE_VALUES[t]))]
            lay.append(ids[0] if ids else 0)
        return lay


def decide(c, name, rule, instances):
    """rule(grid) adds exactly the exclusion of `instances` to the belt rules of configuration c."""
    d = Decider(c)
    rule(d.grid)
    added = [list(cl) for cl in d.grid.clauses[d.n_base:]]
    d.top = max([d.top, d.grid.pool.top] + [abs(l) for cl in added for l in cl])
    case = '%s on %dx%d%s%s L=%s' % (name, c['w'], c['h'], ' wrap-x' if c['wx'] else '', ' wrap-y' if c['wy'] else '', c['L'])
    inst_lits = [[d.among(n, tiles) for n, tiles in inst] for inst in instances]
    if d.grid.clauses[:d.n_base] != d.base:
        raise Violation('%s: the rule changed other constraints' % case, {'case': case})
    # every instance is excluded
    s = Solver(name='glucose4', bootstrap_with=d.base + d.extra + added)
    plain = None
    possible = 0
    for inst, lits in zip(instances, inst_lits):
        if s.solve(assumptions=lits):
            lay = d.picture(s.get_model())
            s.delete()
            raise Violation('%s: a layout containing the pattern is kept' % case, {'case': case, 'instance': inst, 'picture': show(lay, c['w'])})
    s.delete()
    # nothing else is excluded
    aux = [v for cl in added for v in map(abs, cl) if v > d.base_top]
    extra = []
    for lits in inst_lits:
        extra.append([-l for l in lits])
    if not aux:
        broken = []
        for cl in added:
            v = d.fresh()
            extra += [[-v, -l] for l in cl]
            broken.append(v)
        s = Solver(name='glucose4', bootstrap_with=d.base + d.extra + extra + ([broken] if broken else [[d.fresh()], [-d.top]]))
        bad = s.solve()
        if bad:
            lay = d.picture(s.get_model())
            s.delete()
            raise Violation('%s: a layout without the pattern is removed' % case, {'case': case, 'picture': show(lay, c['w'])})
        s.delete()
    else:
        # the rule uses helper variables: sample pattern-free layouts and require that the rule keeps them
        d.all_tiles()
        rnd = random.Random(SEED)
        gen = Solver(name='glucose4', bootstrap_with=d.base + d.extra + extra)
        ver = Solver(name='glucose4', bootstrap_with=d.base + d.extra + added)
        for _ in range(300):
            gen.set_phases([v if rnd.random() < .5 else -v for v in range(1, d.base_top + 1)])
            if not gen.solve():
                break
            lay = d.picture(gen.get_model())
            fix = [d.tile(n, t) for n, t in enumerate(lay)]
            if not ver.solve(assumptions=fix):
                raise Violation('%s: a layout without the pattern is removed' % case, {'case': case, 'picture': show(lay, c['w'])})
            gen.add_clause([-l for l in fix])
        gen.delete()
        ver.delete()
    # how many instances occur in some valid layout (an instance that never can is vacuous)
    s = Solver(name='glucose4', bootstrap_with=d.base + d.extra)
    possible = sum(bool(s.solve(assumptions=lits)) for lits in inst_lits)
    s.delete()
    return name, case, len(instances), possible


def passing(c, instances):
    """interchange.prevent_passing: the pattern in a single colour is excluded, and nothing else is."""
    case = 'passing on %dx%d' % (c['w'], c['h'])
    g = Grid(c['w'], c['h'], 2, c['L'])
    g.prevent_intersection()
    g.prevent_bad_undergrounding()
    g.prevent_bad_colouring()
    g.enforce_maximum_underground_length()
    g.block_underground_through_edges()
    g.clauses += [[-tile.is_splitter] for tile in g.iterate_tiles()]       # an interchange has none
    o = Oracle(g)
    o.close()
    base = list(g.clauses)
    interchange.prevent_passing(g)
    added = [list(cl) for cl in g.clauses[len(base):]]
    top = [max([g.pool.top] + [abs(l) for cl in base + added for l in cl] + [v for s in o.sel for v in s.values()])]
    if g.clauses[:len(base)] != base:
        raise Violation('%s: the rule changed other constraints' % case, {'case': case})

    def fresh():
        top[0] += 1
        return top[0]
    extra = []
    for n, s in enumerate(o.sel):
        for t, v in s.items():
            vals = [l if b else -l for l, b in zip(o.lits[n], TILE_VALUES[t])]
            extra += [[-v, x] for x in vals] + [[v] + [-x for x in vals]]
    colour = [g.get_tile_instance(n % c['w'], n // c['w']).colour[0] for n in range(c['w'] * c['h'])]
    lits = []
    for inst in instances:
        for sign in (1, -1):
            ls = []
            for n, tiles in inst:
                v = fresh()
                extra.append([-v] + [o.sel[n][t] for t in tiles])
                extra += [[v, -o.sel[n][t]] for t in tiles]
                ls += [v, sign * colour[n]]
            lits.append(ls)
    possible = 0
    plain = Solver(name='glucose4', bootstrap_with=base + extra)
    with_rule = Solver(name='glucose4', bootstrap_with=base + extra + added)
    for ls in lits:
        possible += bool(plain.solve(assumptions=ls))
        if with_rule.solve(assumptions=ls):
            raise Violation('%s: belts of one colour passing each other are kept' % case, {'case': case})
    plain.delete()
    with_rule.delete()
    if any(abs(l) > g.pool.top for cl in added for l in cl):
        return 'passing', case, len(lits), possible
    broken = []
    for cl in added:
        v = fresh()
        extra += [[-v, -l] for l in cl]
        broken.append(v)
    s = Solver(name='glucose4', bootstrap_with=base + extra + [[-l for l in ls] for ls in lits] + [broken])
    if broken and s.solve():
        raise Violation('%s: a layout without the pattern is removed' % case, {'case': case})
    s.delete()
    return 'passing', case, len(lits), possible


BADP = ['belt-hook', 'semicircle', 'small-loop', 'underground-hook', 'zigzag', 'parallel-splitter']
FLAGS = {'--glue-splitters': ['glue-splitter', 'glue-partial'], '--edge-belts': ['double-edge'], '--expand-underground': ['expand-underground-interior'],
         '--prevent-mergeable-underground': ['mergeable-underground'], '--prevent-bad-patterns': BADP,
         '--fast': ['glue-splitter', 'glue-partial', 'expand-underground-interior', 'mergeable-underground', *BADP]}


def wired(job):
    """A generator called with pruning options: no instance of the chosen patterns is admitted, and a layout the plain request
    admits is still admitted when it contains none of them."""
    tool, args, flags, c, instances, plain = job
    case = '%s %s' % (tool, ' '.join([*[str(a) for a in args if '/' not in str(a)], *flags]))
    o = Oracle(capture(tool, [*args, *flags]))
    top = max(v for s in o.sel for v in s.values())
    n = skipped = 0

    def literals(o, top):
        made = {}
        res = []
        for inst in instances:
            ls = []
            for cell, tiles in inst:
                key = cell, tuple(tiles)
                if key not in made:
                    top += 1
                    made[key] = top
                    o.solver.add_clause([-top] + [o.sel[cell][t] for t in tiles])
                    for t in tiles:
                        o.solver.add_clause([top, -o.sel[cell][t]])
                ls.append(made[key])
            res.append(ls)
        return res
    for inst, ls in zip(instances, literals(o, top)):
        o.solver.conf_budget(20000)
        r = o.solver.solve_limited(assumptions=ls)
        if r:
            m = set(l for l in o.solver.get_model() if l > 0)
            lay = [next((t for t, v in s.items() if v in m), 0) for s in o.sel]
            raise Violation('%s: a layout containing an excluded pattern is admitted' % case, {'case': case, 'instance': inst, 'picture': show(lay, c['w'])})
        skipped += r is None
        n += 1
    kept = 0
    if plain:
        p = Oracle(capture(tool, args))
        for ls in literals(p, max(v for s in p.sel for v in s.values())):
            p.solver.add_clause([-l for l in ls])
        rnd = random.Random(SEED)
        for _ in range(60):
            p.solver.set_phases([v if rnd.random() < .25 else -v for s in p.sel for v in s.values()])
            p.solver.conf_budget(30000)
            if not p.solver.solve_limited():
                break
            m = set(l for l in p.solver.get_model() if l > 0)
            lay = [next((t for t, v in s.items() if v in m), None) for s in p.sel]
            if None in lay:
                break
            if not o.accepts(lay):
                raise Violation('%s: a layout without the excluded patterns is removed' % case, {'case': case, 'picture': show(lay, c['w'])})
            kept += 1
            p.solver.add_clause([-p.sel[k][lay[k]] for k in rnd.sample(range(len(lay)), max(1, len(lay) * 2 // 3))])
        p.close()
    o.close()
    return case, n, skipped, kept


def wirings(check):
    from c03 import NETS
    jobs = []
    sizes = [('2x2', 6, 4, 4), ('1x4', 6, 4, 2), ('chain', 7, 4, 3), ('feedback', 6, 5, 4), ('4x1', 5, 4, 1000)] + ([] if check.quick else [('2x2', 9, 3, 6), ('mixed', 7, 5, 4), ('parallel', 6, 6, 2), ('odd', 7, 6, 4)])
    confs = []

    def rules_at(w, h, L, rules, wx=False, wy=False):
        confs.append({'w': w, 'h': h, 'wx': wx, 'wy': wy, 'L': L, 'rules': list(rules)})
        return len(confs) - 1
    plans = []
    every = sorted({r for rs in FLAGS.values() for r in rs} | {'empty-underground'})
    for net, w, h, L in sizes:
        at = rules_at(w, h, L, every)
        f = write_file(network_text(NETS[net]))
        base = [f, w, h, '--underground-length', -1 if L >= 1000 else L]
        for flags in [[k] for k in FLAGS] + [['--glue-splitters', '--edge-belts', '--prevent-bad-patterns'], []]:
            rules = [r for k in flags for r in FLAGS[k]] + (['empty-underground'] if not flags else [])
            plans.append(('belt_balancer', base, flags, at, rules, bool(flags) and '--fast' not in flags))
    from c07 import SYMMETRIC
    from c06 import NF_RULES, P2_RULES
    at = rules_at(7, 6, 4, sorted({*GENERIC, *SYMMETRIC, 'expand-underground'}))
    plans.append(('interchange', [7, 6, '--underground-length', 4], [], at, GENERIC + ['awkward-entry'], False))
    plans.append(('interchange', [7, 6, '--underground-length', 4], ['--rot-symmetry'], at, SYMMETRIC, False))
    at = rules_at(6, 5, 4, sorted({*NF_RULES}))
    plans.append(('net_free', [6, 5, 3, 2, '--underground-length', 4], [], at, NF_RULES, False))
    at = rules_at(7, 4, 4, sorted({*P2_RULES}))
    plans.append(('pow2', [7, 4], [], at, P2_RULES, False))
    for tile in (False, True):
        at = rules_at(5, 4, 2, ['small-loop', 'empty-underground'], tile, tile)
        plans.append(('make_block', [5, 4, '--underground-length', 2, '--allow-empty'], ['--tile'] if tile else [], at, ['small-loop', 'empty-underground'], False))
    lists = list_patterns(confs)
    for tool, args, flags, at, rules, plain in plans:
        jobs.append((tool, args, flags, confs[at], [i for r in rules for i in lists[at][r]], plain))
    for case, n, skipped, kept in pmap(wired, jobs):
        check.count(n + kept, 'wiring')
        check.extra.setdefault('wiring', {})[case] = '%d instances (%d undecided within the budget), %d layouts kept' % (n, skipped, kept)


def edge_splitters(check):
    """--edge-splitters: every layout TLC builds for the request, and no other."""
    from c03 import NETS
    cases = [balancer_cfg(NETS[n], w, h, edge=True) for n, w, h in (('2x2', 5, 3), ('1x2', 5, 3), ('2x1', 4, 4), ('chain', 5, 3), ('3-way', 5, 3), ('feedback', 5, 3), ('series', 6, 2))]
    if not check.quick:
        cases += [balancer_cfg(NETS[n], w, h, edge=True) for n, w, h in (('chain', 6, 3), ('series', 6, 3), ('odd', 6, 3), ('1x4', 5, 4), ('4x1', 5, 4))]
    jobs = []
    for c, ls in zip(cases, enumerate_many(cases, 'Balancer', BAL_CFG, timeout=780 if check.quick else 20000)):
        jobs.append((balancer_name(c, options(c)), 'belt_balancer', [write_file(network_text(c['nodes'])), c['w'], c['h'], *options(c)], ls))
    exact_grids(check, jobs, 'edge-splitters')
    # the published balancers: recirculating ones among them; splitters turned away from the edge by one more column at an end
    rnd = random.Random(SEED)
    confs = []
    for label, nodes, L, w, h, g in published.balancers():
        confs.append(dict(balancer_cfg(nodes, w, h, L=L, edge=True), g=list(g)))
        for left in (True, False):
            wide = []
            for y in range(h):
                row = list(g[y * w:(y + 1) * w])
                wide += [row[0], *row] if left else [*row, row[-1]]
            confs.append(dict(balancer_cfg(nodes, w + 1, h, L=L, edge=True), g=wide))
    if check.quick:
        confs = rnd.sample(confs, min(len(confs), 60))
    published.agree(check, confs, 'edge-published')


def list_patterns(confs):
    r = run_tlc('PatternList', 'INIT PInit\nNEXT PNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json(confs)}, workers=CORES)
    res = [dict() for _ in confs]
    for ci, ri, insts in r.jsons('P'):
        res[ci - 1][confs[ci - 1]['rules'][ri - 1]] = insts
    return res


def symmetry(check):
    """breaking the vertical symmetry keeps a layout or its mirror image, and only ever removes layouts with a twin"""
    mirror_dir = [0, 3, 2, 1, 4]
    mirror = []
    for k, i, o, h in TILES:
        mirror.append(TILE_ID[(k, mirror_dir[i], mirror_dir[o], (not h) if k == SPLIT else False)])
    confs = []
    for w, h, kw in ((2, 2, {}), (3, 2, dict(bb=(False, True) * 2)), (2, 3, dict(bb=(True, False) * 2)), (3, 3, dict(bb=(True, False, True, True))),
                     (3, 4, dict(bb=(True,) * 4)), (4, 4, dict(bb=(True,) * 4)), (2, 5, dict(bb=(True,) * 4)), (3, 5, dict(bb=(True,) * 4, allowed=[NO_SPLIT]))):
        if not check.quick or w * h <= 12:
            confs.append(cfg(w, h, L=2, ub=(True,) * 4, **kw))
    for c, layouts in zip(confs, enumerate_many(confs, timeout=700 if check.quick else 9000)):
        g = base_grid(c)
        if any(c['bb']):
            g.block_belts_through_edges(tuple(c['bb']))
        opt.break_vertical_symmetry(g)
        o = Oracle(g)
        w, h = c['w'], c['h']
        known = set(layouts)
        lost = kept_both = removed = 0
        for lay in layouts:
            m = tuple(mirror[lay[(h - 1 - y) * w + x]] for y in range(h) for x in range(w))
            if m not in known or m < lay:
                continue
            a, b = o.accepts(lay), o.accepts(m)
            if not a and not b:
                check.violation('symmetry breaking %dx%d removes a layout and its mirror image' % (w, h), {'picture': show(lay, w)})
                lost += 1
                break
            removed += (not a) + (not b)
        o.close()
        check.count(len(layouts), 'symmetry')
        check.extra.setdefault('symmetry', []).append({'size': '%dx%d' % (w, h), 'layouts': len(layouts), 'removed': removed})


def body(check):
    confs = []

    def add(w, h, L, rules=None, wx=False, wy=False):
        confs.append({'w': w, 'h': h, 'wx': wx, 'wy': wy, 'L': L, 'rules': rules or NAMES})
    add(6, 5, 4); add(5, 6, 3); add(4, 4, 2); add(3, 3, 1); add(5, 4, 1000); add(4, 5, 1000); add(3, 5, 4); add(6, 3, 2)
    add(9, 2, 7, ['empty-underground', 'expand-underground', 'expand-underground-interior', 'mergeable-underground', 'loose-underground'])
    add(2, 9, 6, ['empty-underground', 'expand-underground', 'expand-underground-interior', 'mergeable-underground', 'loose-underground'])
    add(4, 4, 2, ['empty-underground', 'small-loop'], True, True)
    add(3, 4, 3, ['empty-underground', 'small-loop'], True, True)
    add(5, 3, 2, ['empty-underground', 'small-loop'], True, False)
    if not check.quick:
        for w in range(2, 9):
            for h in range(2, 9):
                for L in (1, 2, 4, 6, 1000):
                    add(w, h, L)
    check.section('TLC lists the pattern instances of %d grids' % len(confs))
    lists = list_patterns(confs)
    check.section('deciding each rule')
    jobs = []
    for c, ins in zip(confs, lists):
        for name, insts in ins.items():
            jobs.append((c, name, RULES[name], insts))
        if set(GENERIC) <= set(ins) and c['w'] >= 4:
            jobs.append((c, 'generic rules together', opt.apply_generic_optimisations, [i for r in GENERIC for i in ins[r]]))
        check.sample({'grid': '%dx%d L=%s' % (c['w'], c['h'], c['L']), 'instances': {k: len(v) for k, v in ins.items()}})
    jobs.sort(key=lambda j: -len(j[3]) * j[0]['w'] * j[0]['h'])
    for name, case, n, possible in pmap(lambda j: decide(*j), jobs):
        check.count(n + 1, name)
        check.extra.setdefault('instances_possible', {})[case] = '%d of %d' % (possible, n)
    check.section('belts passing each other')
    sizes = [(2, 2), (3, 2), (2, 3), (4, 4), (6, 4)] + ([] if check.quick else [(7, 6), (6, 8), (9, 8)])
    conf = [{'w': w, 'h': h, 'wx': False, 'wy': False, 'L': 4, 'rules': ['passing']} for w, h in sizes]
    for c, ins in zip(conf, list_patterns(conf)):
        name, case, n, possible = passing(c, ins['passing'])
        check.count(n + 1, name)
        check.extra.setdefault('instances_possible', {})[case] = '%d of %d' % (possible, n)
    check.section('options on the command lines')
    wirings(check)
    check.section('splitters at the edges')
    edge_splitters(check)
    check.section('symmetry breaking')
    symmetry(check)
    check.assumptions += ['pysat decides satisfiability correctly', 'the belt rules of the grid are exact (C02)']


if __name__ == '__main__':
    main('C09', body)
