"""C05: asking for all solutions lists every layout exactly once.

Stream.tla says what may be printed, Blocking.tla how it is obtained from a solver (TLC: whatever models the solver picks).  TLC builds the
layouts of requests to all five generators; what the commands print, with every built-in solver and for many orders in which a solver can
hand out its models, is checked against Stream."""
from rules import *
import contextlib
import io
import itertools
import c03
import c04
import c06
import c07
import c08
import c17

BLOCKING = '''SPECIFICATION %s
CONSTANTS Layouts = {a, b, c}
 Others = {x, y}
 Keys = {1, 2, 3%s}
INVARIANTS OnlyValid %s
%s
CHECK_DEADLOCK FALSE
'''
SOLVERS = ['g3', 'g4', 'm22', 'cd15', 'cd19', 'mcb', 'mgh', 'mc', 'lgl', 'mpl', 'Glucose42', 'gc4', 'cd', 'mg3']


def model(check):
    check.section('TLC: listing by exclusion, for every choice of models')
    run_tlc('Blocking', BLOCKING % ('ExactSpec', '' if check.quick else ', 4', 'NeverTwice Finished Shows', 'PROPERTIES Ends Lists'), timeout=700)
    run_tlc('Blocking', BLOCKING % ('Spec', '', 'Shows', 'PROPERTIES Ends'), timeout=700)
    # the exactness of the keys is needed
    r = run_tlc('Blocking', BLOCKING % ('Spec', '', 'NeverTwice', ''), timeout=700, expect_ok=False)
    if 'Invariant NeverTwice is violated' not in r.out:
        raise MachineryError('Blocking lists correctly with any keys')


# ------------------------------------------------------------------------------------------- requests
def requests(check):
    """[(name, tool, args, layouts)]"""
    limit = 780 if check.quick else 20000
    both = lambda quick, more: quick if check.quick else quick + more

    def bal(net, w, h, **kw):
        return balancer_cfg(c03.NETS[net], w, h, **kw)
    b = both([bal('2x2', 4, 3), bal('2x2', 4, 2), bal('1x2', 4, 3), bal('2x1', 4, 3, aligned=True), bal('feedback', 4, 3), bal('gap', 4, 3, L=1), bal('series', 5, 3), bal('parallel', 4, 4), bal('2x2', 5, 3, L=2),
              bal('1x2', 5, 3, L=1), bal('1x4', 5, 4), bal('2x2', 4, 3, use_ends=True), bal('2x2', 3, 4, ends=90), bal('2x2', 3, 4, ends=180), bal('2x2', 3, 2, ends=-1), bal('1x2', 5, 3, edge=True),
              bal('2x2', 5, 3, rules=c04.BADP), bal('series', 6, 2), bal('chain', 5, 3)],
             [bal('3-way', 5, 3), bal('2x2', 6, 3), bal('feedback', 5, 4), bal('2x2', 5, 4, use_ends=True, L=2), bal('odd', 5, 3)])
    ics = [c07.conf(*a, **k) for a, k in both([((4, 2), {}), ((5, 2), dict(rot=True)), ((5, 4), {}), ((5, 4), dict(rot=True)), ((6, 4), {}), ((6, 4), dict(alt=True)), ((4, 6), {}), ((6, 4), dict(L=3)), ((5, 4), dict(L=1))],
                                              [((7, 6), dict(rot=True)), ((5, 6), {}), ((7, 4), {})])]
    ks = [c08.block_cfg(*a, **k) for a, k in (((1, 1), dict(tile=True)), ((2, 2), {}), ((4, 4), {}), ((4, 3), dict(single=True, L=0)), ((4, 4), dict(single=True)), ((5, 3), dict(L=2)), ((4, 4), dict(empty=True, L=2)),
                                              ((3, 2), dict(tile=True, L=2)), ((2, 2), dict(tile=True, L=1, empty=True)), ((3, 3), dict(tile=True, single=True, L=1)), ((5, 1), dict(tile=True, empty=True, L=3)),
                                              ((1, 6), dict(tile=True, single=True, L=2)), ((4, 4), dict(L=2, par=True)), ((3, 3), dict(tile=True, L=0)), ((3, 3), {}), ((4, 5), dict(L=2)), ((3, 1), dict(tile=True, L=2)))]
    nf = [c06.conf(*a) for a in ((3, 2, 2, 2), (4, 2, 1, 1), (3, 3, 2, 2), (4, 3, 1, 2), (4, 3, 2, 1), (5, 3, 1, 1), (4, 4, 1, 3), (4, 4, 1, 4), (5, 4, 1, 4, 2), (5, 4, 4, 4), (4, 3, 1, 2, 4, True))]
    p2 = both([c06.p2_conf(8, 4), c06.p2_conf(6, 4)], [c06.p2_conf(9, 4)])

    def netfree():
        cand = enumerate_many(nf, 'NetFree', c06.NF_CFG, timeout=limit, shards=2)
        return [dict(c, g=list(g)) for c, ls in zip(nf, cand) for g in ls]
    lb, li, lk, items, lp = parallel([lambda: enumerate_many(b, 'Balancer', BAL_CFG, timeout=limit, shards=4), lambda: enumerate_many(ics, 'Interchange', c07.IC_CFG, timeout=limit, shards=2),
                                      lambda: enumerate_many(ks, 'Block', c08.BLOCK_CFG, timeout=limit, shards=2), netfree, lambda: enumerate_many(p2, 'Pow2', c06.P2_CFG, timeout=limit, workers=4, shards=1)], 5)
    res = []
    for c, ls in zip(b, lb):
        args = [write_file(network_text(c['nodes'])), c['w'], c['h'], *options(c)]
        res.append((balancer_name(c, options(c)), 'belt_balancer', args, ls))
    res += [(c07.name_of(c), 'interchange', c07.args_of(c), ls) for c, ls in zip(ics, li)]
    res += [('make_block ' + ' '.join(map(str, c08.block_args(c))), 'make_block', c08.block_args(c), ls) for c, ls in zip(ks, lk)]
    res += [(c06.p2_name(c), 'pow2', c06.p2_args(c), ls) for c, ls in zip(p2, lp)]
    items = c06.certified(items)
    by = {c06.name_of(c): [] for c in nf}
    undecided = set()
    for c, v in zip(items, c06.verdicts(items)):
        if v == ['undecided']:
            undecided.add(c06.name_of(c))
        elif not v:
            by[c06.name_of(c)].append(tuple(c['g']))
    res += [(c06.name_of(c), 'net_free', c06.args_of(c), sorted(by[c06.name_of(c)])) for c in nf if c06.name_of(c) not in undecided]
    return res


def with_partials(check, reqs):
    """The same requests with some tiles given."""
    rnd = random.Random(SEED)
    res = []
    for name, tool, args, ls in reqs:
        if tool == 'make_block' or len(ls) < 2:
            continue
        w, h = (args[1], args[2]) if tool == 'belt_balancer' else (args[0], args[1])
        lay = rnd.choice(ls)
        n = rnd.choice([n for n, t in enumerate(lay) if t])
        keep = [l for l in ls if l[n] in c04.same_tile(lay[n])]
        res.append((name + ' with tile %d given' % n, tool, args + ['--partial', write_file(c04.partial_text(w, h, {(n % w, n // w): lay[n]}), 'partial')], keep))
    return res


# ------------------------------------------------------------------------------------------- running the commands
def printed_layouts(text):
    """The layouts a command printed, as tile ids; a cell that is no tile or whose two descriptions differ becomes -1."""
    res = []
    for line in text.splitlines():
        if not line.strip():
            continue
        cells = [c for row in json.loads(line) for c in row]
        res.append([t if t is not None and cell.get('tile') == tile_json(t) else -1 for cell, t in ((c, cell_id(c)) for c in cells)])
    return res


class Enough(BaseException):
    """More lines than any correct run prints, or no end in sight."""


class Lines(io.StringIO):
    def __init__(self, most):
        super().__init__()
        self.most = most

    def write(self, s):
        self.most -= s.count('\n')
        if self.most < 0:
            raise Enough()
        return super().write(s)


def ordered_run(tool, args, order, seed, most, limit):
    """Runs the command here with a solver that hands out the layouts in the given order where it can; (text, ended)."""
    import importlib
    import pysat.solvers as ps
    from factorio_sat import template
    mod = importlib.import_module('factorio_sat.' + CLI[tool])
    grids, rnd, left = [], random.Random(seed), list(order)
    saved = template.BaseGrid.itersolve, ps.Solver.solve, sys.argv

    def itersolve(self, *a, **k):
        grids.append(self)
        return saved[0](self, *a, **k)

    def solve(self, assumptions=[]):
        if time.time() > until:
            raise Enough()
        if grids:
            g = grids[-1]
            if rnd.random() < .7:
                try:
                    self.set_phases([v if rnd.random() < .5 else -v for v in range(1, g.pool.top + 1)])
                except Exception:
                    pass
            while left:
                lay = left.pop(0)
                lits = [l if v else -l for n, t in enumerate(lay) for l, v in zip(cell_literals(g.get_tile_instance(n % g.width, n // g.width)), TILE_VALUES[t])]
                if saved[1](self, assumptions=list(assumptions) + lits):
                    return True
        return saved[1](self, assumptions=list(assumptions))
    template.BaseGrid.itersolve, ps.Solver.solve = itersolve, solve
    sys.argv = [tool, *map(str, args)]
    out = Lines(most)
    ok = False
    until = time.time() + limit
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                mod.main()
                ok = True
            except SystemExit as e:
                ok = not e.code
            except Enough:
                pass
    finally:
        template.BaseGrid.itersolve, ps.Solver.solve, sys.argv = saved
    return out.getvalue(), ok


def body(check):
    model(check)
    check.section('TLC builds the layouts of the requests')
    reqs = requests(check)
    reqs = [r for r in reqs if len(r[3]) <= 3000]
    reqs += with_partials(check, reqs)
    check.extra['layouts_per_request'] = {r[0]: len(r[3]) for r in reqs}
    check.section('running the commands on %d requests' % len(reqs))
    rnd = random.Random(SEED)
    from pysat.solvers import Solver
    usable = []
    for s in SOLVERS:
        try:
            with Solver(name=s, bootstrap_with=[[1, 2], [-1]]) as x:
                if x.solve() and not x.solve(assumptions=[1]):
                    x.add_clause([-2])
                    if not x.solve():
                        usable.append(s)
        except Exception:
            pass
    runs = []          # (request, all, solver or order, how)
    for n, r in enumerate(reqs):
        runs.append((r, True, None, 'cli'))
        runs.append((r, False, None, 'cli'))
        if len(r[3]) <= 300:
            for s in rnd.sample(usable, 2 if check.quick else len(usable)):
                runs.append((r, True, s, 'cli'))
                runs.append((r, False, s, 'cli') if rnd.random() < .3 else (r, True, s, 'order'))
        if r[1] == 'make_block':
            runs.append((r, n % 2 == 0, None, 'file'))
        if len(r[3]) <= 400:
            runs.append((r, True, 'm22', 'order'))
    # an external solver, asked again for every further layout
    real = os.path.join(fresh_dir('s'), 'real.py')
    with open(real, 'w') as f:
        f.write(c17.REAL)
    few = [r for r in reqs if len(r[3]) <= (8 if check.quick else 40)]
    for n, r in enumerate(rnd.sample(few, 12) if check.quick else few):
        runs.append((r, n % 3 > 0, 'cmd:%s %s%s' % (PY, real, ' $FILE' if n % 2 else ''), 'cli'))
    # every order of the first few layouts
    for r in [r for r in reqs if 2 <= len(r[3]) <= (4 if check.quick else 5)]:
        perms = list(itertools.permutations(r[3]))
        for p in perms if len(perms) <= 24 else rnd.sample(perms, 24):
            runs.append((r, True, None, list(p)))
    limit = 120
    late = os.path.join(fresh_dir('l'), 'late')    # exists once a run has not ended: a violation, so the others get less time

    def run(job):
        res = attempt(job, 15 if os.path.exists(late) else limit)
        if not res[1]:
            open(late, 'w').close()
        return res

    def attempt(job, limit):
        r, every, solver, how = job
        name, tool, args, ls = r
        most = len(ls) + 50
        args = args + (['--all'] if every else []) + (['--solver', solver] if solver else [])
        if how == 'cli':
            lines, full, rc, err = stream_cli(tool, args, most, timeout=limit)
            text, ended = ''.join(lines), rc == 0 and not full
            if not ended and text and not text.endswith('\n'):
                text = text[:text.rfind('\n') + 1]
        elif how == 'file':
            path = os.path.join(fresh_dir('o'), 'out')
            x = run_cli(tool, args + ['--output', path], timeout=limit)
            text, ended, err = open(path).read() if os.path.exists(path) else '', x.rc == 0 and not x.timed_out, x.err
        else:
            rr = random.Random('%s/%s/%s' % (SEED, name, solver))
            order = how if isinstance(how, list) else rr.sample(ls, len(ls))
            text, ended = ordered_run(tool, args, order, rr.random(), most, limit)
            err = ''
        try:
            lays = printed_layouts(text)
        except (ValueError, KeyError, TypeError) as e:
            return None, False, 'unreadable output: %s' % e, args
        return lays, ended, err[-1500:], args
    groups = {}
    cases, origin = [], []
    for job, (lays, ended, err, args) in zip(runs, pmap(run, runs)):
        if lays is None:
            check.violation('%s: %s' % (job[0][0], err), {'arguments': [str(a) for a in args]})
            continue
        # an endless stream of repetitions need not be judged in full
        cases.append({'all': job[1], 'valid': [list(l) for l in job[0][3]], 'trace': lays[:len(job[0][3]) + 50], 'ended': ended and len(lays) <= len(job[0][3]) + 50})
        origin.append((job, args, err, lays))
    check.section('TLC follows %d recordings' % len(cases))
    shards = 8
    per = [list(range(k, len(cases), shards)) for k in range(shards)]

    def follow(ix):
        return lambda: (ix, run_tlc('StreamTrace', 'INIT TInit\nNEXT TNext\nINVARIANT TEmit\nINVARIANT TAccept\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([cases[i] for i in ix])}, workers=1, timeout=700, heap='3g'))
    fate = {}
    for ix, r in parallel([follow(ix) for ix in per if ix], shards):
        for i in r.jsons('A'):
            fate[ix[i - 1]] = None
        for i, k, why in r.jsons('R'):
            fate.setdefault(ix[i - 1], (k, why))
    for n, (job, args, err, lays) in enumerate(origin):
        if n not in fate:
            raise MachineryError('TLC says nothing about recording %d' % n)
        part = {'cli': 'commands', 'file': 'commands-to-file'}.get(job[3] if isinstance(job[3], str) else '', 'chosen-orders')
        if fate[n] is None:
            check.count(1, part)
            continue
        k, why = fate[n]
        # printed: text of the command itself for the report
        w = job[0][2][1] if job[0][1] == 'belt_balancer' else job[0][2][0]
        check.violation('%s %s%s: %s' % (job[0][0], '--all' if job[1] else '', ' --solver %s' % job[2] if job[2] else '', why),
                        {'arguments': [str(a) for a in args], 'valid layouts': len(job[0][3]), 'printed layouts': len(lays), 'step': k,
                         'picture': show(lays[k], w) if k < len(lays) and -1 not in lays[k] else None, 'stderr': err})
    check.extra['solvers'] = usable
    check.assumptions += ['a run that has not ended after %d s counts as not ending' % limit, 'the solvers of pysat are correct']


if __name__ == '__main__':
    main('C05', body)
