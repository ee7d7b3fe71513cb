"""C04: end, alignment, pruning and partial-layout options of the balancer generator are honoured exactly.

For each combination of options TLC builds every layout meeting it (Balancer.tla); the generator's constraints, captured
from its command line, must admit exactly these."""
from rules import *
import published
from c03 import NETS

BADP = ['belt-hook', 'semicircle', 'small-loop', 'underground-hook', 'zigzag', 'parallel-splitter']


def partial_text(w, h, tiles, fillers=()):
    """A partial layout as the generator reads it."""
    rows = []
    for y in range(h):
        rows.append([{'tile': tile_json(tiles[x, y])} if (x, y) in tiles else {'tile': {'type': 'filler' if (x, y) in fillers else 'empty'}} for x in range(w)])
    return json.dumps(rows)


def blueprint_text(w, h, tiles):
    """A whole layout as a blueprint string, somewhere on the map (which forgets where it lay)."""
    import base64
    import zlib
    es = []
    for (x, y), t in sorted(tiles.items()):
        k, _, out, head = TILES[t]
        d = out if k == BELT else tile_dir(t)
        if k == SPLIT and not head:
            continue
        dx, dy = ((1, 0), (0, -1), (-1, 0), (0, 1))[(d + 1) % 4] if k == SPLIT else (0, 0)
        e = {'entity_number': len(es) + 1, 'position': {'x': x - 7.5 + dx / 2, 'y': y + 3.5 + dy / 2}, 'direction': ((1 - d) % 4) * 2,
             'name': 'splitter' if k == SPLIT else 'transport-belt' if k == BELT else 'underground-belt'}
        if k not in (SPLIT, BELT):
            e['type'] = 'input' if k == UGIN else 'output'
        es.append(e)
    return '0' + base64.b64encode(zlib.compress(json.dumps({'blueprint': {'entities': es, 'item': 'blueprint'}}).encode())).decode()


def same_tile(t):
    """The ids a partial tile stands for: a splitter half does not say which sides are connected."""
    if TILES[t][0] == SPLIT:
        return [u for u in ALL_TILES if TILES[u][0] == SPLIT and tile_dir(u) == tile_dir(t) and TILES[u][3] == TILES[t][3]]
    return [t]


def body(check):
    cases = []

    def add(net, w, h, **kw):
        cases.append((balancer_cfg(NETS[net], w, h, **kw), None))
    # opposite sides, every position, aligned or not, ends usable or not
    add('2x2', 4, 3); add('2x2', 4, 4, L=2); add('2x2', 4, 4, aligned=True, L=2); add('2x2', 4, 3, aligned=True); add('2x2', 4, 3, use_ends=True); add('2x2', 4, 2, use_ends=True)
    add('1x2', 4, 3, aligned=True); add('2x1', 4, 3, aligned=True); add('1x2', 4, 3, use_ends=True, aligned=True); add('2x1', 3, 3, use_ends=True); add('1x2', 3, 3)
    add('1x2', 4, 4, aligned=True, L=1); add('2x1', 4, 4, aligned=True, L=1)
    add('1x4', 5, 4, aligned=True)
    # adjacent sides
    add('2x2', 3, 4, ends=90); add('2x2', 4, 3, ends=90); add('2x2', 4, 4, ends=90, L=1); add('1x2', 3, 3, ends=90, use_ends=True); add('2x1', 3, 4, ends=90); add('1x2', 4, 3, ends=90, use_ends=True)
    add('2x2', 2, 4, ends=90, use_ends=True); add('2x1', 4, 4, ends=90)
    # same side
    add('2x2', 3, 4, ends=180); add('2x2', 4, 4, ends=180, L=2); add('1x2', 3, 4, ends=180, L=2); add('2x1', 3, 3, ends=180); add('1x2', 3, 5, ends=180, L=1); add('feedback', 4, 3, ends=180)
    # anywhere
    add('2x2', 3, 2, ends=-1); add('2x1', 2, 3, ends=-1); add('1x2', 3, 2, ends=-1, L=1000)
    # pruning options on the command line
    for net, w, h in (('2x2', 5, 3), ('1x2', 5, 3), ('2x1', 4, 4)):
        add(net, w, h, rules=['glue-splitter', 'glue-partial']); add(net, w, h, edge=True); add(net, w, h, rules=['double-edge'])
        add(net, w, h, rules=BADP); add(net, w, h, rules=['expand-underground-interior'], L=2); add(net, w, h, rules=['glue-splitter', 'glue-partial', 'double-edge', *BADP])
    add('2x1', 5, 4, rules=['expand-underground-interior', 'mergeable-underground'], L=3)
    add('chain', 5, 3, edge=True); add('3-way', 5, 3, edge=True); add('feedback', 5, 3, edge=True); add('series', 6, 2, edge=True)
    add('2x2', 6, 2, L=2); add('1x2', 5, 2, L=1)
    if not check.quick:
        add('2x2', 5, 4, ends=180, L=2); add('2x2', 5, 4, ends=90); add('2x2', 5, 4, use_ends=True, L=2); add('1x2', 5, 4, aligned=True); add('2x1', 5, 4, use_ends=True); add('4x1', 5, 4, aligned=True)
        add('1x2', 4, 5, ends=180, L=2); add('2x1', 4, 5, ends=90, use_ends=True); add('2x2', 4, 3, ends=-1, L=1); add('2x2', 6, 3, rules=BADP); add('2x2', 6, 3, rules=['mergeable-underground'])
        add('1x2', 7, 2, rules=['mergeable-underground']); add('2x2', 8, 2, rules=['mergeable-underground', 'expand-underground-interior']); add('parallel', 4, 5, aligned=True); add('parallel', 5, 5)
        add('chain', 6, 3, edge=True); add('series', 6, 3, edge=True); add('odd', 6, 3, edge=True)
    check.section('TLC builds the layouts of %d requests' % len(cases))
    layouts = enumerate_many([c for c, _ in cases], 'Balancer', BAL_CFG, timeout=780 if check.quick else 20000)
    # partial layouts: some tiles of a layout, of a layout of another request, and fillers
    rnd = random.Random(SEED)
    partial = []
    for (c, _), ls in list(zip(cases, layouts)):
        if not ls or len(c['rules']) > 1 or c['edge'] or rnd.random() < (.45 if check.quick else .1):
            continue
        for style in range(2 if check.quick else 5):
            lay = rnd.choice(ls)
            cells = [(n % c['w'], n // c['w']) for n, t in enumerate(lay) if t]
            pick = rnd.sample(cells, min(len(cells), rnd.choice([1, 2, 3])))
            tiles = {p: lay[p[1] * c['w'] + p[0]] for p in pick}
            if style == 1:      # usually impossible: a tile turned round
                p = pick[0]
                tiles[p] = rnd.choice([t for t in range(1, 45)])
            empties = [(n % c['w'], n // c['w']) for n, t in enumerate(lay) if not t]
            fillers = set(rnd.sample(empties, min(len(empties), rnd.choice([0, 1]))))
            allowed = {p: same_tile(t) for p, t in tiles.items()}
            allowed.update({p: [0] for p in fillers})
            c2 = dict(c, allowed=[list(allowed.get((n % c['w'], n // c['w']), ALL_TILES)) for n in range(c['w'] * c['h'])])
            partial.append((c2, partial_text(c['w'], c['h'], tiles, fillers)))
    # whole layouts given as blueprints: they lie in the top left corner then
    for (c, _), ls in list(zip(cases, layouts)):
        if not ls or c['ends'] != 0 or c['useEnds'] or len(c['rules']) > 1 or c['edge']:
            continue
        lay = rnd.choice(ls)
        cells = [(n % c['w'], n // c['w']) for n, t in enumerate(lay) if t]
        up = min(y for _, y in cells)
        tiles = {(x, y - up): lay[y * c['w'] + x] for x, y in cells}
        allowed = {p: same_tile(t) for p, t in tiles.items()}
        c2 = dict(c, allowed=[list(allowed.get((n % c['w'], n // c['w']), ALL_TILES)) for n in range(c['w'] * c['h'])])
        partial.append((c2, blueprint_text(c['w'], c['h'], tiles)))
    check.section('TLC builds the layouts of %d requests with partial layouts' % len(partial))
    cases += partial
    layouts += enumerate_many([c for c, _ in partial], 'Balancer', BAL_CFG, timeout=780 if check.quick else 20000)
    check.section('comparing with the generator')
    jobs = []
    for n, ((c, part), ls) in enumerate(zip(cases, layouts)):
        args = [write_file(network_text(c['nodes'])), c['w'], c['h'], *options(c)]
        name = balancer_name(c, options(c))
        if part is not None:
            args += ['--partial', write_file(part, 'partial')]
            name += ' with partial %d' % n
        jobs.append((name, 'belt_balancer', args, ls))
    exact_grids(check, jobs, 'exact')
    check.extra['layouts_per_request'] = {j[0]: len(j[3]) for j in jobs}
    check.extra['requests_with_no_layout'] = sum(not j[3] for j in jobs)
    # --fast is the conjunction of the single options, at any size
    check.section('--fast')
    fast = []
    for net, w, h in (('2x2', 5, 3), ('1x4', 5, 4), ('chain', 6, 3), ('feedback', 6, 4), ('4x1', 6, 4), ('2x2', 7, 2)):
        for extra in ([], ['--aligned'], ['--use-ends']):
            fast.append((net, w, h, extra))

    def both(item):
        net, w, h, extra = item
        f = write_file(network_text(NETS[net]))
        a = capture('belt_balancer', [f, w, h, '--fast', *extra])
        b = capture('belt_balancer', [f, w, h, '--edge-splitters', '--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns', *extra])
        key = lambda g: sorted(tuple(sorted(c)) for c in g.clauses)
        if key(a) == key(b):
            return None
        # not literally the same: compare the layouts they admit
        oa, ob = Oracle(a), Oracle(b)
        for x, y in ((oa, ob), (ob, oa)):
            for _ in range(400):
                m = x.any_model()
                if m is None:
                    break
                if not all(isinstance(t, int) for t in m) or not y.accepts(m):
                    return show(m, w)
                x.block(m)
        return None
    for item, diff in zip(fast, pmap(both, fast)):
        if diff:
            check.violation('--fast differs from the options it stands for on %s %dx%d %s' % (item[0], item[1], item[2], item[3]), {'picture': diff})
        check.count(1, 'fast')
    check.section('published balancers under every option')
    rnd = random.Random(SEED * 5)
    confs = []
    for label, nodes, L, w, h, g in published.balancers():
        variants = [(), ('aligned',), ('edge',), ('use_ends',), ('fast',), ('fast', 'aligned', 'edge'), ('double-edge',), ('fast', 'edge', 'use_ends')]
        if check.quick:       # the pruning patterns of a large grid take TLC long
            variants = [v for v in variants if 'fast' not in v]
            variants = rnd.sample(variants, 2) + ([('fast', 'aligned', 'edge')] if w * h <= 30 and rnd.random() < .5 else [])
        for v in variants:
            top, bottom = rnd.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 2)])
            gg = published.flipped(g, w, h) if rnd.random() < .4 else g
            gg = list(published.padded(gg, w, h, top, bottom))
            if rnd.random() < .3:      # the ends disturbed
                x = rnd.choice([0, w - 1])
                ys = rnd.sample(range(h + top + bottom), min(2, h + top + bottom))
                a, b = ys[0] * w + x, ys[-1] * w + x
                gg[a], gg[b] = gg[b], gg[a]
            confs.append(dict(balancer_cfg(nodes, w, h + top + bottom, L=rnd.choice([L, L, L, L - 1, 1000, 3]), use_ends='use_ends' in v, aligned='aligned' in v, edge='edge' in v,
                                           rules=(FAST_RULES if 'fast' in v else ['double-edge'] if 'double-edge' in v else ())), g=gg))
    published.agree(check, confs, 'published')
    check.assumptions += ['pysat decides satisfiability correctly', 'exhaustive for the requests listed, published balancers judged at their real sizes']


if __name__ == '__main__':
    main('C04', body)
