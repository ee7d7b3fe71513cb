"""C01: every layout any generator prints obeys the belt rules.

The five commands are run over many requests; every layout they print, raw fields and tile descriptions, is judged by TLC (Printed.tla)."""
from rules import *
import c03
from collections import Counter


def flag(v):
    if v not in (True, False, 0, 1):
        raise ValueError('not a truth value: %r' % (v,))
    return int(v)


def direction(v):
    if v is None:
        return NONE
    if isinstance(v, bool) or v not in range(4):
        raise ValueError('not a direction: %r' % (v,))
    return v


def cell_record(c):
    t = c['tile']
    extra = set(t) - {'type', 'input_direction', 'output_direction', 'direction', 'is_input', 'is_head'}
    if extra:
        raise ValueError('unknown description %r' % t)
    opt = lambda k, f: f(t[k]) if k in t else -1
    return {'kinds': [flag(c[k]) for k in ('is_empty', 'is_belt', 'is_underground_in', 'is_underground_out', 'is_splitter')], 'head': flag(c['is_splitter_head']),
            'i': direction(c['input_direction']), 'o': direction(c['output_direction']), 'under': [flag(x) for x in c['underground']],
            'tile': {'type': t['type'], 'i': opt('input_direction', direction), 'o': opt('output_direction', direction), 'd': opt('direction', direction),
                     'input': opt('is_input', flag), 'head': opt('is_head', flag)}}


def requests(check):
    """(tool, args, configuration, how many layouts)"""
    rnd = random.Random(SEED)
    res = []
    n = 12 if check.quick else 60
    closed, no_vertical, open_ = (True,) * 4, (False, True) * 2, (False,) * 4

    def length(opts, inf=True):
        L = rnd.choice([1, 2, 3, 4, 4, 5, 6, 8] + [1000] * inf)
        opts += ['--underground-length', -1 if L == 1000 else L]
        return L
    # from networks
    small = [(k, write_file(network_text(v))) for k, v in c03.NETS.items()]
    files = {k: os.path.join(REPO, 'networks', k) for k in ('1x3', '1x4', '1x5', '2x3', '2x4', '3x2', '3x3', '4x2', '4x4', '1x6', '4x1', '4x8')}
    sizes = {'1x3': (7, 4), '1x4': (5, 5), '1x5': (8, 5), '2x3': (8, 4), '2x4': (6, 4), '3x2': (8, 4), '3x3': (8, 5), '4x2': (6, 4), '4x4': (10, 5), '1x6': (8, 6), '4x1': (5, 4), '4x8': (8, 8)}
    for k, path in [(k, p) for k, p in files.items() if os.path.exists(p)] + small * 2:
        for _ in range(2 if check.quick else 8):
            opts = []
            L = length(opts)
            w, h = sizes.get(k, None) or (rnd.choice([4, 5, 6]), rnd.choice([3, 4, 5]))
            w, h = w + rnd.choice([0, 0, 1]), h + rnd.choice([0, 0, 1])
            if k in dict(small) and rnd.random() < .4:
                w, h = rnd.choice([3, 4, 5]), rnd.choice([3, 4, 5])
                opts.append(rnd.choice(['--90', '--180', '--custom']))
            for o, p in (('--fast', .3), ('--use-ends', .2), ('--aligned', .2), ('--edge-splitters', .15), ('--glue-splitters', .15), ('--expand-underground', .2), ('--prevent-bad-patterns', .2), ('--edge-belts', .2),
                         ('--prevent-mergeable-underground', .2)):
                if rnd.random() < p:
                    opts.append(o)
            res.append(('belt_balancer', [path, w, h, *opts, '--all'], cfg(w, h, L=L, ub=closed), n))
    for a in ((3, 2, 2, 2), (9, 4, 4, 4), (10, 4, 4, 4), (8, 5, 3, 3), (6, 4, 1, 3), (6, 4, 2, 4), (6, 4, 4, 2), (5, 4, 1, 4), (6, 5, 4, 1), (5, 4, 2, 2), (4, 3, 1, 1), (5, 3, 1, 2), (6, 3, 2, 1), (7, 4, 3, 1), (8, 5, 2, 2)):
        opts = []
        L = length(opts)
        if a[:2] in ((9, 4), (10, 4), (8, 5)):
            opts, L = [], 4
        res.append(('net_free', [*a, *opts, *(['--aligned'] if rnd.random() < .3 else []), '--all'], cfg(a[0], a[1], L=L, ub=closed, bb=no_vertical), n))
    for w, h, L in ((8, 4, 4), (9, 4, 5), (10, 4, 4), (10, 8, 4), (11, 8, 4), (12, 4, 3), (9, 4, 1000)):
        res.append(('pow2', [w, h, '--underground-length', -1 if L == 1000 else L, '--all'], cfg(w, h, L=L, ub=closed, bb=no_vertical), n))
    for w, h in ((6, 4), (7, 4), (8, 4), (8, 6), (10, 6), (12, 6), (9, 8), (12, 8), (5, 2), (8, 2), (5, 6)):
        for o in ([], ['--alternating'], ['--rot-symmetry']):
            opts = list(o)
            L = length(opts, False) if rnd.random() < .5 else 4
            res.append(('interchange', [w, h, *opts, '--all'], cfg(w, h, L=L, ub=closed, bb=no_vertical), n))
    for _ in range(60 if check.quick else 300):
        w, h, opts = rnd.randrange(1, 9), rnd.randrange(1, 9), []
        tile = rnd.random() < .6
        if w * h == 1 and tile is False:
            continue
        L = rnd.choice([0, 1, 2, 3, 4, 4, 5])
        opts += ['--underground-length', L] + ['--tile'] * tile
        k = rnd.random()
        if w * h > 1 and w * h <= 36 and k < .35:
            opts.append('--single-loop')
        elif k < .6:
            opts.append('--allow-empty')
        if rnd.random() < .25:
            opts.append('--no-parallel')
        res.append(('make_block', [w, h, *opts, '--all'], cfg(w, h, wx=tile, wy=tile, L=L, ub=(not tile,) * 4, bb=(not tile,) * 4), n))
    return res


def body(check):
    reqs = requests(check)
    check.section('running the commands on %d requests' % len(reqs))
    rnd = random.Random(SEED + 1)
    jobs = [(r, rnd.choice([None, None, None, 'cd15', 'm22', 'mcb', 'g4'])) for r in reqs]

    def run(job):
        (tool, args, c, n), solver = job
        return stream_cli(tool, args + (['--solver', solver] if solver else []), n, timeout=25 if check.quick else 120)
    confs, cases, origin, counts = [], [], [], Counter()
    for ((tool, args, c, n), solver), (out, full, rc, err) in zip(jobs, pmap(run, jobs)):
        name = ' '.join([tool, *map(str, args)] + (['--solver', solver] if solver else []))
        if rc not in (0, -9) and not full:
            counts['requests refused'] += 1
            check.extra.setdefault('refused', {})[name] = err.strip().splitlines()[-1:] if err else []
        counts['requests answered' if out else 'requests without layout'] += 1
        if not full and rc != 0 and out:
            out = out[:-1] if not out[-1].endswith('\n') else out      # cut off by the time limit
        confs.append(c)
        for line in out:
            if not line.strip():
                continue
            try:
                rows = json.loads(line)
                if len(rows) != c['h'] or any(len(r) != c['w'] for r in rows):
                    check.violation('%s: prints a layout of another size' % name, {'line': line[:2000]})
                    continue
                cells = [cell_record(x) for r in rows for x in r]
            except (ValueError, KeyError, TypeError) as e:
                check.violation('%s: prints something that is no layout (%s: %s)' % (name, type(e).__name__, e), {'line': line[:2000]})
                continue
            cases.append([len(confs), cells])
            origin.append((name, tool, rows))
    check.section('TLC judges %d layouts' % len(cases))
    per = [list(range(k, len(cases), 8)) for k in range(8)]
    path = write_json(confs)

    def judge_(ix):
        return lambda: (ix, run_tlc('Printed', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', {'CFG': path, 'CASES': write_json([cases[i] for i in ix])}, workers=1, timeout=700, heap='3g'))
    seen = Counter()
    done = set()
    for ix, r in parallel([judge_(ix) for ix in per if ix], 8):
        for i, broken in r.jsons('V'):
            i = ix[i - 1]
            done.add(i)
            name, tool, rows = origin[i]
            ids = [cell_id(c) for row in rows for c in row]
            if broken:
                check.violation('%s: prints a layout breaking %s' % (name, ', '.join(sorted(broken))),
                                {'picture': show(ids, len(rows[0])) if None not in ids else None, 'cells': [[{k: v for k, v in c.items() if not k.startswith('flow')} for c in row] for row in rows] if len(ids) <= 30 else None})
            else:
                check.count(1, tool)
                seen.update(ids)
                if rnd.random() < 8 / len(cases):
                    check.sample({'case': name, 'picture': show(ids, len(rows[0]))})
    if len(done) != len(cases):
        raise MachineryError('TLC did not judge every layout')
    check.extra['requests'] = dict(counts)
    check.extra['tile_kinds_printed'] = len(seen)
    check.assumptions += ['every layout printed is judged; requests are sampled over generators, sizes and options']


if __name__ == '__main__':
    main('C01', body)
