"""C14: reading a network out of a layout.

Trace.tla follows the belts of a layout and says which splitter feeds which; `network parse` must give the same network up to the names of
the colours, for enumerated layouts, randomly drawn larger ones and the published balancers."""
from wild import *
from grids import grid_json
import corpus


def refine(nodes):
    """A description of a network that does not depend on colour names or node order (colour refinement)."""
    cols = {c for n in nodes for c in n if c != -1}
    name = {c: 0 for c in cols}
    sig = lambda n: (tuple(sorted(-1 if c == -1 else name[c] for c in n[:2])), tuple(sorted(-1 if c == -1 else name[c] for c in n[2:])))
    for _ in range(len(nodes) + 2):
        use = {c: [] for c in cols}
        for n in nodes:
            s = sig(n)
            for k, c in enumerate(n):
                if c != -1:
                    use[c].append((k >= 2, s))
        desc = {c: (name[c], tuple(sorted(use[c]))) for c in cols}
        order = {d: i for i, d in enumerate(sorted(set(desc.values())))}
        new = {c: order[desc[c]] for c in cols}
        if len(set(new.values())) == len(set(name.values())) and new == name:
            break
        name = new
    # the names are positions in an order of descriptions, so compare descriptions along the way
    return sorted(sig(n) for n in nodes), sorted(tuple(sorted((k >= 2, sig(n)) for n in nodes for k, c in enumerate(n) if c == x)) for x in cols)


def fold(nodes):
    """Trace.tla's reading with ordinary colour names: what enters and what leaves get one colour each."""
    return [tuple({0: 0, -1: -1, -2: 10 ** 6}.get(c, c) for c in n) for n in nodes]


def parse_all(job):
    """The networks `network parse` writes for each (layout, flag)."""
    res = []
    d = fresh_dir('parse')
    for w, h, g, flag in job:
        path = os.path.join(d, 'n')
        with open(path, 'w'):
            pass
        ok, out, err = call_main('network', ['parse', path] + (['--assume-valid-output'] if flag else []), json.dumps(grid_json(w, h, g)) + '\n')
        res.append((open(path).read() if ok else None, err))
    return res


def expected(items, shards=4):
    """Trace.tla's Parsed for (w, h, L, layout): (broken rules, without edge, with edge)."""
    per = [list(range(k, len(items), shards)) for k in range(shards)]

    def job(ix):
        def run():
            keys, cfgs, cases = {}, [], []
            for i in ix:
                w, h, L, g = items[i]
                if (w, h, L) not in keys:
                    cfgs.append(cfg(w, h, L=L, ub=(True,) * 4))
                    keys[w, h, L] = len(cfgs)
                cases.append([keys[w, h, L], list(g)])
            return ix, run_tlc('Trace', 'INIT TInit\nNEXT TNext\nINVARIANT PEmit\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json(cfgs), 'CASES': write_json(cases)}, workers=2, timeout=600, heap='3g')
        return run
    res = [None] * len(items)
    for ix, r in parallel([job(ix) for ix in per if ix], shards):
        for l, broken, a, b in r.jsons('P'):
            res[ix[l - 1]] = (sorted(broken), a, b)
    if None in res:
        raise MachineryError('TLC gave no reading of some layout')
    return res


def line(n):
    """Two splitters joined by two straight runs of n belts."""
    cols = [(21, 24)] + [(1, 1)] * n + [(21, 24)]
    return len(cols), 2, 4, tuple(c[r] for r in (0, 1) for c in cols)


def stretched(w, h, L, g, n):
    """The layout with its first column (straight belts and nothing else) repeated n times more, None if it has none such."""
    col = [g[y * w] for y in range(h)]
    if set(col) - {0, 1, 7}:
        return None
    return w + n, h, L, tuple(t for y in range(h) for t in [col[y]] * n + list(g[y * w:(y + 1) * w]))


def body(check):
    scratch()
    import factorio_sat.network
    rnd = random.Random(SEED * 7)
    check.section('layouts: enumerated, drawn and published')
    items = []
    confs = [cfg(2, 2, L=2, ub=(True,) * 4), cfg(3, 2, L=2, ub=(True,) * 4), cfg(2, 3, L=2, ub=(True,) * 4)]
    # enumerated with at least one splitter
    for (i, g) in [(i, g) for i, gs in enumerate(enumerate_many(confs)) for g in gs]:
        if any(TILES[t][0] == SPLIT and TILES[t][3] for t in g):
            items.append((confs[i]['w'], confs[i]['h'], 2, tuple(g)))
    check.extra['enumerated'] = len(items)
    if check.quick and len(items) > 4000:
        items = rnd.sample(items, 4000)
    sizes = [(3, 3, 4, 1), (4, 3, 4, 2), (3, 4, 4, 2), (4, 4, 4, 2), (4, 4, 4, 3), (5, 4, 4, 3), (4, 6, 4, 4), (6, 5, 4, 4), (6, 6, 4, 5), (7, 5, 6, 6), (7, 7, 4, 6), (5, 8, 3, 5)]
    drawn = draw(sizes, 25 if check.quick else 300, 'c14/%d' % SEED, loose=True) + draw(sizes[3:], 12 if check.quick else 150, 'c14b/%d' % SEED)
    items += drawn
    # published balancers, also turned and mirrored
    pub = [(w, h, L, g) for _, _, L, w, h, g in corpus.books()]
    for w, h, L, g in pub if not check.quick else rnd.sample(pub, 80):
        items.append((w, h, L, g))
        gw, gh, gg = w, h, list(g)
        for _ in range(rnd.randrange(4)):
            gg, gw, gh = turned(gg, gw, gh)
        if rnd.random() < .5:
            gg, gw, gh = mirrored(gg, gw, gh)
        items.append((gw, gh, L, tuple(gg)))
    # runs longer than any balancer needs
    long = [line(1100 if check.quick else 3000)]
    for _ in range(3):
        w, h, L, g = long[-1]
        gg, gw, gh = turned(list(g), w, h)
        long.append((gw, gh, L, tuple(gg)))
    wide = [x for x in (stretched(w, h, L, g, 1100) for w, h, L, g in pub if h <= 4) if x]
    long += rnd.sample(wide, min(len(wide), 2 if check.quick else 12))
    check.extra['long_runs'] = len(long)
    items += long
    items = list(dict.fromkeys(items))
    check.section('TLC reads %d layouts' % len(items))
    want = expected(items)
    ok = [k for k in range(len(items)) if not want[k][0]]
    check.extra['layouts_set_aside_as_invalid'] = len(items) - len(ok)
    if len(ok) < len(items) * .8:
        raise MachineryError('too many layouts break the rules: %s' % want[next(k for k in range(len(items)) if want[k][0])][0])
    check.section('network parse reads %d layouts' % len(ok))
    jobs = [(items[k][0], items[k][1], items[k][3], flag) for k in ok for flag in (False, True)]
    cells = [(k, flag) for k in ok for flag in (False, True)]
    per = [list(range(n, len(jobs), CORES * 4)) for n in range(CORES * 4)]
    for ix, outs in zip(per, pmap(parse_all, [[jobs[n] for n in ix] for ix in per])):
        for n, (text, err) in zip(ix, outs):
            k, flag = cells[n]
            w, h, L, g = items[k]
            exp = fold(want[k][2 if flag else 1])
            if text is None:
                check.violation('network parse fails on a valid layout', {'layout': show(g, w), 'tiles': grid_json(w, h, g), 'error': err, 'assume': flag})
                continue
            try:
                got = [tuple(map(int, line.split())) for line in text.splitlines() if line.strip()]
                assert all(len(x) == 4 for x in got)
            except (ValueError, AssertionError):
                check.violation('network parse writes no network', {'layout': show(g, w), 'file': text})
                continue
            if refine(got) != refine(exp):
                check.violation('network parse reads the wrong network', {'layout': show(g, w), 'tiles': grid_json(w, h, g), 'assume': flag, 'expected (up to names)': exp, 'got': got})
            check.count(1, 'with edges' if flag else 'plain')
    check.sample({'layout': show(drawn[-1][3], drawn[-1][0])})

    check.section('the command itself')
    d = fresh_dir('cli')

    def one(k):
        def f():
            w, h, L, g = items[k]
            path = os.path.join(d, str(k))
            r = run_cli('network', ['parse', path], stdin=json.dumps(grid_json(w, h, g)) + '\n')
            got = [tuple(map(int, x.split())) for x in open(path).read().splitlines()] if r.rc == 0 else None
            if got is None or refine(got) != refine(fold(want[k][1])):
                check.violation('network parse reads the wrong network', {'layout': show(g, w), 'got': got, 'stderr': r.err[-1000:]})
            check.count(1, 'command')
        return f
    parallel([one(k) for k in rnd.sample(ok, 24)], CORES)
    check.assumptions += ['networks are compared by colour refinement: two networks it cannot tell apart count as equal', 'layouts are at most 17 by 17 tiles, apart from long straight runs']


if __name__ == '__main__':
    main('C14', body)
