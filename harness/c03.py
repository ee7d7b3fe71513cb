"""C03: a generated balancer implements exactly the requested network.

1. For small grids TLC builds every layout that realises the network (Balancer.tla) and the generator's constraints must
   admit exactly these.  2. Larger balancers printed by the generator are judged by TLC against the same specification.
3. Layouts of the larger balancers with one tile changed are judged by TLC and by the generator's constraints alike."""
from rules import *
import published
import wild

NETS = {
    '2x2': [(0, 0, 1, 1)], '1x2': [(-1, 0, 1, 1)], '2x1': [(0, 0, -1, 1)], '1x2b': [(0, -1, 1, 1)], '2x1b': [(0, 0, 1, -1)],
    'feedback': [(0, 1, 1, 2)], 'gap': [(2, 2, 5, 5)], 'reverse': [(3, 3, 0, 0)], 'series': [(0, 0, 1, 2), (1, 2, 3, 3)], 'series-order': [(2, 1, 3, 3), (0, 0, 1, 2)],
    'parallel': [(0, 0, 1, 1), (0, 0, 1, 1)], 'chain': [(0, 0, 1, 1), (1, 1, 2, 2)], 'half-chain': [(0, 0, -1, 1), (-1, 1, 2, 2)],
    '1x4': [(-1, 0, 1, 1), (-1, 1, 2, 2), (-1, 1, 2, 2)], '4x1': [(0, 0, -1, 1), (0, 0, -1, 1), (1, 1, -1, 2)], 'mixed': [(0, 0, 1, 2), (-1, 1, 3, 3), (-1, 2, 3, 3)],
    '3-way': [(0, 0, 1, 2), (1, 0, 2, 2)], 'odd': [(0, 2, 1, 1), (1, 1, 2, 3)],
}


def small(check):
    cases = []

    def add(net, w, h, **kw):
        cases.append((net, balancer_cfg(NETS[net], w, h, **kw)))
    for n in ('2x2', '1x2', '2x1', '1x2b', '2x1b', 'feedback', 'gap', 'reverse'):
        add(n, 4, 3)
    add('2x2', 4, 2); add('2x2', 5, 3, L=2); add('2x2', 6, 2); add('1x2', 5, 3, L=1); add('feedback', 5, 3); add('feedback', 4, 4); add('gap', 4, 4, L=1000)
    add('series', 5, 3); add('series-order', 5, 3); add('series', 6, 2); add('parallel', 4, 4); add('chain', 5, 3); add('chain', 5, 2); add('half-chain', 5, 3)
    add('1x4', 5, 4); add('mixed', 5, 4, L=3); add('3-way', 5, 3); add('odd', 4, 4); add('2x2', 3, 2, ends=-1); add('1x2', 3, 3, ends=-1, L=1); add('feedback', 3, 3, ends=-1, L=1)
    if not check.quick:
        add('4x1', 5, 4); add('2x2', 6, 3); add('series', 6, 3); add('feedback', 5, 4); add('feedback', 6, 3); add('mixed', 6, 4); add('3-way', 6, 3); add('odd', 5, 4); add('odd', 5, 3)
        add('chain', 6, 3); add('half-chain', 5, 4); add('2x2', 4, 3, ends=-1, L=2); add('series', 3, 4, ends=-1, L=1); add('1x2', 4, 3, ends=-1)
    check.section('TLC builds the layouts of %d balancer requests' % len(cases))
    confs = [c for _, c in cases]
    layouts = enumerate_many(confs, 'Balancer', BAL_CFG, timeout=780 if check.quick else 20000)
    check.section('comparing with the generator')
    jobs = []
    for (net, c), ls in zip(cases, layouts):
        args = [write_file(network_text(c['nodes'])), c['w'], c['h'], *options(c)]
        jobs.append((balancer_name(c, options(c)), 'belt_balancer', args, ls))
    exact_grids(check, jobs, 'small')
    check.extra['layouts_per_request'] = {j[0]: len(j[3]) for j in jobs}


LARGE = [('4x4', 10, 4, ['--fast'], 40), ('4x4', 8, 6, [], 20), ('3x3', 8, 5, ['--fast'], 20), ('2x3', 8, 4, [], 20), ('3x2', 8, 4, ['--fast'], 20), ('1x3', 7, 4, [], 30), ('1x6', 8, 6, [], 15),
         ('2x4', 6, 4, [], 30), ('4x2', 6, 4, [], 30), ('1x5', 8, 5, [], 15), ('4x8', 8, 8, [], 6), ('8x8', 12, 8, ['--fast'], 3), ('4x4', 11, 4, ['--fast', '--underground-length', '3'], 10),
         ('1x4', 5, 5, ['--90'], 20), ('1x4', 6, 5, ['--180'], 20), ('4x4', 11, 5, ['--use-ends', '--underground-length', '-1'], 10)]


def parse_network(path):
    with open(path) as f:
        return [[int(x) for x in line.split()] for line in f if line.strip() and not line.startswith('#')]


def large(check):
    check.section('larger balancers')

    def run(job):
        net, w, h, opts, n = job
        out, full, rc, err = stream_cli('belt_balancer', [os.path.join(REPO, 'networks', net), w, h, *opts, '--all'], n, timeout=90)
        return job, out, full, rc, err
    confs, meta = [], []
    for job, out, full, rc, err in parallel([(lambda j=j: run(j)) for j in LARGE], 8):
        net, w, h, opts, n = job
        if not out:
            check.violation('belt_balancer finds no %s balancer on %dx%d %s' % (net, w, h, opts), {'stderr': err[-1500:]})
            continue
        nodes = parse_network(os.path.join(REPO, 'networks', net))
        L = int(opts[opts.index('--underground-length') + 1]) if '--underground-length' in opts else 4
        for line in out:
            sol = json.loads(line)
            ids = ids_of(sol)
            c = balancer_cfg(nodes, w, h, L=1000 if L == -1 else L, ends=90 if '--90' in opts else 180 if '--180' in opts else 0, use_ends='--use-ends' in opts,
                             rules=FAST_RULES if '--fast' in opts else ())
            if None in ids or len(ids) != w * h:
                check.violation('belt_balancer %s prints a cell that is no tile' % (job,), {'solution': sol})
                continue
            c['g'] = ids
            confs.append(c)
            meta.append(job)
    check.section('TLC judges %d larger balancers' % len(confs))
    for job, c, broken in zip(meta, confs, judge(confs)):
        if broken:
            check.violation('belt_balancer %s printed a balancer that breaks: %s' % (job, ', '.join(broken)), {'picture': show(c['g'], c['w']), 'broken': broken})
        check.count(1, 'large')
    if confs:
        check.sample({'larger balancer': meta[0], 'picture': show(confs[0]['g'], confs[0]['w'])})
    return list(zip(meta, confs))


def mutants(check, pool):
    """Layouts with a tile or two changed: TLC and the generator's constraints must agree."""
    check.section('changed layouts')
    rnd = random.Random(SEED)
    by = {}
    for job, c in pool:
        by.setdefault(str(job), (job, []))[1].append(c)
    todo = []
    for job, cs in by.values():
        net, w, h, opts, n = job
        if w * h > 60:
            continue
        muts = []
        for c in cs[:2 if check.quick else 20]:
            muts.append(c)
            base = c['g']
            for _ in range(14 if check.quick else 60):
                g = list(base)
                kind = rnd.randrange(4)
                n1 = rnd.randrange(len(g))
                if kind == 0:
                    g[n1] = rnd.choice([t for t in ALL_TILES if TILES[t][0] == TILES[g[n1]][0]])
                elif kind == 1:
                    g[n1] = rnd.randrange(45)
                elif kind == 2:
                    n2 = rnd.randrange(len(g))
                    g[n1], g[n2] = g[n2], g[n1]
                else:
                    n2 = min(len(g) - 1, n1 + rnd.choice([1, w]))
                    g[n1], g[n2] = g[n2], g[n1]
                muts.append(dict(c, g=g))
        # mirrored and half-turned layouts, and other networks on the same layout
        for c in cs[:6]:
            nodes = [list(x) for x in c['nodes']]
            for _ in range(3):
                m = [list(x) for x in nodes]
                a, b = rnd.randrange(len(m)), rnd.randrange(len(m))
                i, j = rnd.choice([(0, 1), (2, 3)]), rnd.choice([(0, 1), (2, 3)])
                m[a][i[0]], m[b][i[1]] = m[b][i[1]], m[a][i[0]]
                if all(n.count(-1) <= 1 for n in m):
                    muts.append(dict(c, nodes=m))
        todo.append((job, muts))
    confs = [c for _, ms in todo for c in ms]
    verdicts = iter(judge(confs))
    plan = []
    for job, ms in todo:
        groups = {}
        for c in ms:
            groups.setdefault(json.dumps(c['nodes']), []).append((c, next(verdicts)))
        for key, items in groups.items():
            plan.append((job, json.loads(key), items))

    def one(item):
        (net, w, h, opts, n), nodes, items = item
        grid = capture('belt_balancer', [write_file(network_text(nodes)), w, h, *opts])
        o = Oracle(grid)
        bad = []
        # --edge-splitters (part of --fast) is not part of the verdict: only rejections by TLC bind there
        for c, broken in items:
            acc = o.accepts(c['g'])
            if acc and broken:
                bad.append(('the generator admits a layout that breaks: ' + ', '.join(broken), c))
            if not acc and not broken and '--fast' not in opts:
                bad.append(('the generator excludes a layout that meets the request', c))
        o.close()
        return item[0], bad, len(items), sum(not b for _, b in items)
    ok = 0
    for job, bad, n, good in pmap(one, plan):
        for what, c in bad:
            check.violation('%s: %s' % (job, what), {'picture': show(c['g'], c['w']), 'nodes': c['nodes']})
        check.count(n, 'changed')
        ok += good
    check.extra['changed_layouts_still_right'] = ok


def other_networks(nodes, rnd, n):
    """Networks that differ from `nodes` a little but still have one input and one output colour."""
    res = []
    for _ in range(n * 6):
        m = [list(x) for x in nodes]
        a, b = rnd.randrange(len(m)), rnd.randrange(len(m))
        kind = rnd.randrange(3)
        if kind == 0:
            i, j = rnd.choice((0, 1)), rnd.choice((0, 1))
        elif kind == 1:
            i, j = rnd.choice((2, 3)), rnd.choice((2, 3))
        else:
            i, j = rnd.randrange(4), rnd.randrange(4)
        m[a][i], m[b][j] = m[b][j], m[a][i]
        if not all(x.count(-1) <= 1 for x in m):
            continue
        cols = set(c for x in m for c in x) - {-1}
        sur = {c: sum(x[2:].count(c) - x[:2].count(c) for x in m) for c in cols}
        if sum(v < 0 for v in sur.values()) == 1 and sum(v > 0 for v in sur.values()) == 1:
            if [sorted(x[:2]) + sorted(x[2:]) for x in m] != [sorted(x[:2]) + sorted(x[2:]) for x in nodes] and m not in res:
                res.append(m)
        if len(res) >= n:
            break
    return res


def wilds(check):
    """Layouts drawn at random from the belt rules, with the network TLC reads out of them: the generator must admit the layout for
    that network and for another network exactly when TLC says that the layout realises it."""
    check.section('layouts drawn from the belt rules')
    rnd = random.Random(SEED)
    sizes = [(5, 4, 2, 2), (5, 4, 4, 1), (6, 4, 3, 2), (5, 5, 2, 3), (6, 5, 4, 3), (4, 4, 1, 1), (7, 3, 4, 2), (4, 6, 3, 2), (4, 5, 1, 2), (6, 6, 2, 4), (5, 6, 3, 3), (3, 6, 2, 2)]
    items = wild.draw(sizes * (1 if check.quick else 6), 60, SEED)
    confs = []
    for (w, h, L, g), r in zip(items, wild.trace(items)):
        if r['broken']:
            check.violation('the rule engine admits a layout breaking %s' % ', '.join(r['broken']), {'picture': show(g, w)})
            continue
        if r['through'] or not r['enter'] or not r['leave']:
            continue
        for nodes in [r['nodes']] + other_networks(r['nodes'], rnd, 4 if check.quick else 8):
            confs.append(dict(balancer_cfg(nodes, w, h, L=L, ends=-1), g=list(g)))
    verdicts = judge(confs)
    groups = {}
    for c, v in zip(confs, verdicts):
        groups.setdefault((json.dumps(c['nodes']), c['w'], c['h'], c['L']), []).append((c, v))

    def one(item):
        (nodes, w, h, L), cs = item
        o = Oracle(capture('belt_balancer', [write_file(network_text(json.loads(nodes))), w, h, '--custom', '--underground-length', L]))
        return [(c, v, o.accepts(c['g'])) for c, v in cs]
    good = 0
    for res in pmap(one, sorted(groups.items(), key=lambda kv: kv[0])):
        for c, v, acc in res:
            if acc and v:
                check.violation('network %s: the generator admits a layout that breaks: %s' % (c['nodes'], ', '.join(v)), {'picture': show(c['g'], c['w']), 'nodes': c['nodes']})
            if not acc and not v:
                check.violation('network %s: the generator excludes a layout that realises it' % (c['nodes'],), {'picture': show(c['g'], c['w']), 'nodes': c['nodes']})
            good += not v
            check.count(1, 'drawn')
    check.extra['drawn_layouts_that_realise_the_network'] = good


def realistic(check):
    """The published balancers for their network and for networks that differ a little."""
    check.section('published balancers for their own and for other networks')
    rnd = random.Random(SEED * 3)
    confs = []
    for label, nodes, L, w, h, g in published.balancers():
        nets = [nodes] + other_networks(nodes, rnd, 2 if check.quick else 8)
        if len(nodes) > 1:
            nets += [nodes[1:] + [nodes[-1]]]
        for n in nets:
            cols = {c for x in n for c in x} - {-1}
            sur = [sum(x[2:].count(c) - x[:2].count(c) for x in n) for c in cols]
            if sum(v < 0 for v in sur) == 1 and sum(v > 0 for v in sur) == 1 and max(-min(sur), max(sur)) <= h:
                confs.append(dict(balancer_cfg(n, w, h, L=L), g=list(g)))
        for _ in range(2 if check.quick else 10):
            gg = list(g)
            k = rnd.choice([n for n, t in enumerate(gg) if t])
            j = rnd.choice([k, k, rnd.randrange(len(gg))])
            gg[k], gg[j] = gg[j], gg[k]
            if j == k:
                gg[k] = rnd.choice([t for t in ALL_TILES if TILES[t][0] == TILES[gg[k]][0]])
            confs.append(dict(balancer_cfg(nodes, w, h, L=L), g=gg))
    published.agree(check, confs, 'published')


def body(check):
    small(check)
    pool = large(check)
    if not check.violations:
        mutants(check, pool)
    if not check.violations:
        wilds(check)
    if not check.violations:
        realistic(check)
    check.assumptions += ['pysat decides satisfiability correctly', 'completeness is exhaustive for the small grids listed and sampled for larger ones']


if __name__ == '__main__':
    main('C03', body)
