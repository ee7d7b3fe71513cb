"""Deciding a grid's clause set against a set of layouts enumerated by TLC."""
import random
from lib import *

code_import()


def cell_literals(inst):
    return [inst.is_empty, inst.is_belt, inst.is_underground_in, inst.is_underground_out, inst.is_splitter, inst.is_splitter_head,
            *inst.input_direction, *inst.output_direction]


def tile_values(t):
    k, i, o, h = TILES[t]
    return [k == EMPTY, k == BELT, k == UGIN, k == UGOUT, k == SPLIT, h, *[i == d for d in range(4)], *[o == d for d in range(4)]]


TILE_VALUES = [tile_values(t) for t in ALL_TILES]


class Oracle:
    """The code's verdict on layouts: is the clause set satisfiable with every cell fixed?"""

    def __init__(self, grid, allowed=None, solver='cadical153'):
        from pysat.solvers import Solver
        self.w, self.h = grid.width, grid.height
        clauses = list(grid.clauses)
        top = grid.pool.top
        for c in clauses:
            for l in c:
                top = max(top, abs(l))
        self.sel = []          # sel[cell][tile]
        self.lits = []
        extra = []
        for y in range(self.h):
            for x in range(self.w):
                inst = grid.get_tile_instance(x, y)
                lits = cell_literals(inst)
                self.lits.append(lits)
                s = {}
                tiles = ALL_TILES if allowed is None else allowed[(y * self.w + x) % len(allowed)]
                for t in tiles:
                    top += 1
                    s[t] = top
                    vals = [l if v else -l for l, v in zip(lits, TILE_VALUES[t])]
                    extra += [[-top, v] for v in vals]
                    extra.append([top] + [-v for v in vals])
                if allowed is not None:
                    extra.append(list(s.values()))
                self.sel.append(s)
        self.solver = Solver(name='glucose4', bootstrap_with=clauses + extra)

    def accepts(self, layout):
        return bool(self.solver.solve(assumptions=[self.sel[n][t] for n, t in enumerate(layout)]))

    def block(self, layout):
        self.solver.add_clause([-self.sel[n][t] for n, t in enumerate(layout)])

    def any_model(self):
        """Some layout still admitted, as tile ids (None for a cell that is no tile at all)."""
        if not self.solver.solve():
            return None
        m = set(l for l in self.solver.get_model() if l > 0)
        res = []
        for n, s in enumerate(self.sel):
            ids = [t for t, v in s.items() if v in m]
            res.append(ids[0] if ids else {'raw': [l in m for l in self.lits[n]]})
        return res

    def close(self):
        self.solver.delete()


def exact(check, name, grid, layouts, allowed=None, part=None, undecided=()):
    """The clause set admits exactly `layouts` (and perhaps some of the undecided ones)."""
    o = Oracle(grid, allowed)
    try:
        for lay in layouts:
            if not o.accepts(lay):
                check.violation('%s: the constraints exclude a layout the specification allows' % name, {'case': name, 'layout': lay, 'picture': show(lay, o.w)})
                return False
        for lay in layouts:
            o.block(lay)
        for lay in undecided:
            o.block(lay)
        m = o.any_model()
        if m is not None:
            ok = all(isinstance(t, int) for t in m)
            check.violation('%s: the constraints admit a layout the specification forbids' % name,
                            {'case': name, 'layout': m, 'picture': show(m, o.w) if ok else None})
            return False
        check.count(len(layouts) + 1, part)
        if layouts:
            check.sample({'case': name, 'layouts': len(layouts), 'one': show(layouts[len(layouts) // 2], o.w)})
        return True
    finally:
        o.close()


ENUM_CFG = 'SPECIFICATION Spec\nINVARIANT CompleteIsValid\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def cfg(w, h, wx=False, wy=False, L=4, ub=(False,) * 4, bb=(False,) * 4, allowed=None, **kw):
    d = {'w': w, 'h': h, 'wx': wx, 'wy': wy, 'L': 1000 if L == float('inf') else L, 'ub': list(ub), 'bb': list(bb), 'allowed': allowed or [ALL_TILES]}
    d.update(kw)
    return d


def enumerate_many(confs, module='Enumerate', cfg_text=ENUM_CFG, workers=None, timeout=800, shards=None, tag='L', heap='3g'):
    """The layouts TLC finds for each configuration."""
    shards = shards or min(4, len(confs))
    per = [list(range(k, len(confs), shards)) for k in range(shards)]

    def job(ix):
        return lambda: (ix, run_tlc(module, cfg_text, {'CFG': write_json([confs[i] for i in ix])}, workers=workers or max(1, CORES // shards), timeout=timeout, heap=heap))
    res = [[] for _ in confs]
    for ix, r in parallel([job(ix) for ix in per], shards):
        for s in r.seqs(tag):
            res[ix[s[0] - 1]].append(tuple(s[1]))
    return [sorted(x) for x in res]


# ------------------------------------------------------------------------------------------- balancers
BAL_CFG = 'SPECIFICATION BSpec\nINVARIANT BEmit\nINVARIANT CompleteIsValid\nCHECK_DEADLOCK FALSE\n'
FAST_RULES = ['glue-splitter', 'glue-partial', 'expand-underground-interior', 'mergeable-underground', 'belt-hook', 'semicircle', 'small-loop', 'underground-hook', 'zigzag', 'parallel-splitter']


def network_text(nodes):
    return ''.join(' '.join(map(str, n)) + '\n' for n in nodes)


class Captured(BaseException):
    def __init__(self, grid, kind, args, kwargs):
        self.grid, self.kind, self.args_, self.kwargs = grid, kind, args, kwargs


def capture(tool, args, stdin=''):
    """The grid, with all its constraints, that a generator's command line hands to the solver."""
    import contextlib
    import importlib
    import io
    mod = importlib.import_module('factorio_sat.' + CLI[tool])
    from factorio_sat import template
    saved = template.BaseGrid.itersolve, template.BaseGrid.solve, sys.argv, sys.stdin

    def grab(kind):
        def f(self, *a, **k):
            raise Captured(self, kind, a, k)
        return f
    template.BaseGrid.itersolve, template.BaseGrid.solve = grab('itersolve'), grab('solve')
    sys.argv = [tool, *map(str, args)]
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            mod.main()
    except Captured as c:
        return c.grid
    finally:
        template.BaseGrid.itersolve, template.BaseGrid.solve, sys.argv, sys.stdin = saved
    raise Violation('%s %s never asks for a solution' % (tool, ' '.join(map(str, args))))


def write_file(text, name='network'):
    fd, path = tempfile.mkstemp(suffix='-' + name, dir=scratch())
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    return path


def balancer_cfg(nodes, w, h, L=4, ends=0, use_ends=False, aligned=False, rules=(), edge=False, partial=None):
    allowed = [ALL_TILES]
    if partial:
        allowed = [list(partial.get((n % w, n // w), ALL_TILES)) for n in range(w * h)]
    return cfg(w, h, L=L, ub=(True,) * 4, bb=(False,) * 4, allowed=allowed, nodes=[list(n) for n in nodes], ends=ends, useEnds=use_ends, aligned=aligned,
               rules=['empty-underground', *rules], edge=edge)


JUDGE_CFG = 'INIT JInit\nNEXT JNext\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n'


def judge(confs, module='BalancerJudge', shards=4, timeout=700):
    """TLC's verdict (the broken clauses) on the layout in each configuration's field g."""
    if not confs:
        return []
    shards = min(shards, max(1, len(confs) // 8))
    # configurations of the same shape (and pruning patterns) stay together: they share what TLC tabulates
    groups = {}
    for i, c in enumerate(confs):
        groups.setdefault(json.dumps([c['w'], c['h'], c['wx'], c['wy'], c['L'], c.get('rules')]), []).append(i)
    per = [[] for _ in range(shards)]
    load = [0.] * shards
    for ix in sorted(groups.values(), key=lambda ix: -len(ix)):
        k = load.index(min(load))
        per[k] += ix
        load[k] += len(ix) + 10
    per = [p for p in per if p]

    def job(ix):
        def run():
            index, cfgs, cases = {}, [], []
            for i in ix:
                c = {k: v for k, v in confs[i].items() if k not in ('g', 'cert')}
                key = json.dumps(c, sort_keys=True)
                if key not in index:
                    cfgs.append(c)
                    index[key] = len(cfgs)
                cases.append([index[key], list(confs[i]['g']), *([confs[i]['cert']] if 'cert' in confs[i] else [])])
            return ix, run_tlc(module, JUDGE_CFG, {'CFG': write_json(cfgs), 'CASES': write_json(cases)}, workers=max(1, CORES // shards), timeout=timeout, heap='3g')
        return run
    res = [None] * len(confs)
    for ix, r in parallel([job(ix) for ix in per], shards):
        for i, broken in r.jsons('J'):
            res[ix[i - 1]] = sorted(broken)
    if any(r is None for r in res):
        raise MachineryError('TLC gave no verdict on some layout')
    return res


def options(conf):
    """The balancer generator's arguments for a balancer configuration."""
    o = {0: [], 90: ['--90'], 180: ['--180'], -1: ['--custom']}[conf['ends']]
    o = o + (['--use-ends'] if conf['useEnds'] else []) + (['--aligned'] if conf['aligned'] else []) + (['--edge-splitters'] if conf['edge'] else [])
    rules = set(conf['rules']) - {'empty-underground'}
    for flag, names in (('--glue-splitters', {'glue-splitter', 'glue-partial'}), ('--expand-underground', {'expand-underground-interior'}),
                        ('--prevent-mergeable-underground', {'mergeable-underground'}), ('--edge-belts', {'double-edge'}),
                        ('--prevent-bad-patterns', {'belt-hook', 'semicircle', 'small-loop', 'underground-hook', 'zigzag', 'parallel-splitter'})):
        if names <= rules:
            o = o + [flag]
            rules -= names
    assert not rules, rules
    return o + ['--underground-length', -1 if conf['L'] >= 1000 else conf['L']]


def balancer_name(conf, args):
    return 'network %s on %dx%d %s' % (' / '.join(' '.join(map(str, n)) for n in conf['nodes']), conf['w'], conf['h'], ' '.join(map(str, args)))


def ids_of(solution):
    """An emitted solution as tile ids; None for a cell whose fields are inconsistent."""
    return [cell_id(c) for row in solution for c in row]


def exact_grids(check, jobs, part=None):
    """jobs: (name, tool, args, layouts, allowed).  The captured clause sets admit exactly the layouts; in worker processes."""
    def one(job):
        name, tool, args, layouts = job[:4]
        sub = Check(check.pid)
        try:
            exact(sub, name, capture(tool, args), layouts, undecided=job[4] if len(job) > 4 else ())
        except Exception as e:
            if not in_repo(e):
                raise
            sub.violation('%s: the code under test raised %s: %s' % (name, type(e).__name__, e), {'case': name, 'traceback': traceback.format_exc()[-3000:]})
        return sub.violations, sub.validated, sub.samples
    for v, n, samples in pmap(one, jobs):
        for x in v:
            check.violation(x['what'], x['data'])
        check.count(n, part)
        for s in samples:
            check.sample(s)


# ------------------------------------------------------------------------------------------- images of layouts
def _map_tile(t, f, swap_heads):
    k, i, o, h = TILES[t]
    g = lambda d: d if d == NONE else f(d)
    return TILE_ID[(k, g(i), g(o), (not h) if swap_heads and k == SPLIT else h)]


_TURN = [_map_tile(t, lambda d: (d + 1) % 4, False) for t in ALL_TILES]                    # quarter turn anticlockwise
_FLIP = [_map_tile(t, lambda d: {0: 2, 1: 1, 2: 0, 3: 3}[d], True) for t in ALL_TILES]     # mirror image left-right


def turned(g, w, h):
    """A quarter turn anticlockwise: (layout, width, height)."""
    return [_TURN[g[x * w + (w - 1 - y)]] for y in range(w) for x in range(h)], h, w


def mirrored(g, w, h):
    return [_FLIP[g[y * w + (w - 1 - x)]] for y in range(h) for x in range(w)], w, h


def images(g, w, h, wx=False, wy=False):
    """The layout moved by the symmetries of its shape, and shifted along wrapping axes."""
    res = set()
    a = (list(g), w, h)
    for _ in range(4):
        for b in (a, mirrored(*a)):
            if (b[1], b[2]) == (w, h):
                res.add(tuple(b[0]))
        a = turned(*a)
    if wx or wy:
        for b in list(res):
            for dy in range(h if wy else 1):
                for dx in range(w if wx else 1):
                    res.add(tuple(b[((y + dy) % h) * w + (x + dx) % w] for y in range(h) for x in range(w)))
    res.discard(tuple(g))
    return sorted(res)


def sample_grid(grid, k, rnd, want=()):
    """k varied layouts the clause set admits (fewer if there are no more), as lists of tile ids; a cell that is no tile is a dict."""
    o = Oracle(grid)
    try:
        res = []
        for n in range(k):
            o.solver.set_phases([v if rnd.random() < .25 else -v for s in o.sel for v in s.values()])
            m = o.any_model()
            if m is None:
                break
            res.append(m)
            if not all(isinstance(t, int) for t in m):
                break
            # move away from it: some of its tiles are forbidden together
            o.solver.add_clause([-o.sel[c][m[c]] for c in rnd.sample(range(len(m)), max(1, len(m) * 2 // 3))])
        return res
    finally:
        o.close()


def witnesses(name):
    """Layouts of larger requests recorded earlier (tools/mkwitness.py).  They are only proposals: TLC judges each of them."""
    global _WITNESSES
    if _WITNESSES is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'witness.json')) as f:
            _WITNESSES = json.load(f)
    return _WITNESSES.get(name, [])


_WITNESSES = None


def sampled(check, jobs, module, k, images_per=3, part='sampled'):
    """jobs: (name, tool, args, conf).  Varied layouts the generator's constraints admit are judged by TLC; images of them under the
    symmetries of the square (and shifts) that TLC finds flawless must be admitted too."""
    def draw(job):
        name, tool, args, conf = job
        rnd = random.Random('%s/%s' % (SEED, name))
        ms = sample_grid(capture(tool, args), k, rnd)
        ims = []
        for m in ms:
            if all(isinstance(t, int) for t in m):
                im = images(m, conf['w'], conf['h'], conf['wx'], conf['wy'])
                ims += rnd.sample(im, min(len(im), images_per))
        return ms, ims + witnesses(name)
    drawn = pmap(draw, jobs)
    cases, origin = [], []
    for j, (ms, ims) in zip(jobs, drawn):
        for m in ms:
            if not all(isinstance(t, int) for t in m):
                check.violation('%s: the constraints admit a cell that is no tile' % j[0], {'case': j[0], 'layout': m})
                continue
            cases.append(dict(j[3], g=m)); origin.append((j, m, False))
        for m in ims:
            cases.append(dict(j[3], g=list(m))); origin.append((j, m, True))
    verdicts = judge(cases, module)
    good = {}
    for (j, m, im), broken in zip(origin, verdicts):
        if not im:
            if broken:
                check.violation('%s: the constraints admit a layout breaking %s' % (j[0], ', '.join(broken)), {'case': j[0], 'layout': m, 'picture': show(m, j[3]['w'])})
            check.count(1, part)
        elif not broken:
            good.setdefault(j[0], []).append(m)

    def accept(job):
        o = Oracle(capture(job[1], job[2]))
        return [m for m in good.get(job[0], []) if not o.accepts(m)]
    todo = [j for j in jobs if j[0] in good]
    for j, bad in zip(todo, pmap(accept, todo)):
        check.count(len(good[j[0]]), part + '-images')
        for m in bad[:1]:
            check.violation('%s: the constraints exclude a layout the specification allows' % j[0], {'case': j[0], 'layout': m, 'picture': show(m, j[3]['w'])})


def agree(check, confs, module, tool, args_of, name_of, part, shards=4):
    """confs have a field g; TLC's verdict on it and the constraints of the generator for that configuration must coincide."""
    verdicts = judge(confs, module, shards=shards)
    groups = {}
    for c, v in zip(confs, verdicts):
        groups.setdefault(json.dumps({k: x for k, x in c.items() if k not in ('g', 'cert')}, sort_keys=True), []).append((c, v))

    def one(items):
        o = Oracle(capture(tool, args_of(items[0][0])))
        res = [(c, v, o.accepts(c['g'])) for c, v in items]
        o.close()
        return res
    good = 0
    for res in pmap(one, [groups[k] for k in sorted(groups)]):
        for c, v, acc in res:
            if v == ['undecided']:
                continue
            if 'bad-certificate' in v or 'no-certificate' in v:
                raise MachineryError('certificate rejected: %s' % show(c['g'], c['w']))
            if acc and v:
                check.violation('%s: the constraints admit a layout breaking %s' % (name_of(c), ', '.join(v)), {'picture': show(c['g'], c['w']), 'layout': list(c['g'])})
            if not acc and not v:
                check.violation('%s: the constraints exclude a layout the specification allows' % name_of(c), {'picture': show(c['g'], c['w']), 'layout': list(c['g'])})
            good += not v
            check.count(1, part)
    check.extra[part + '_that_meet_the_request'] = good
    return good


def altered(g, w, h, rnd, n, tiles=None):
    """n layouts that differ from g a little: another tile somewhere, two tiles exchanged, two rows or columns exchanged, turned tiles."""
    res = []
    tiles = tiles or ALL_TILES
    for _ in range(n):
        a = list(g)
        k = rnd.randrange(5)
        if k == 0:
            a[rnd.randrange(len(a))] = rnd.choice(tiles)
        elif k == 1:
            i, j = rnd.randrange(len(a)), rnd.randrange(len(a))
            a[i], a[j] = a[j], a[i]
        elif k == 2 and h > 1:
            i, j = rnd.sample(range(h), 2)
            a[i * w:i * w + w], a[j * w:j * w + w] = a[j * w:j * w + w], a[i * w:i * w + w]
        elif k == 3 and w > 1:
            i, j = rnd.sample(range(w), 2)
            for y in range(h):
                a[y * w + i], a[y * w + j] = a[y * w + j], a[y * w + i]
        else:
            i = rnd.choice([n for n, t in enumerate(a) if t] or [0])
            a[i] = rnd.choice([t for t in tiles if TILES[t][0] == TILES[a[i]][0]])
        if a != list(g):
            res.append(a)
    return res

