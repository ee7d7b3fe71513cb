"""C17: solver back ends.

Solver.tla models a command solver's output line by line and a library solver's answers call by call, and says what may be concluded.
TLC enumerates every output script (up to a length, with every way of ending); each is played by a stand-in solver to the real code."""
from rules import *
from collections import Counter

SH = '''#!/bin/sh
# $1: the formula's file or - for standard input; $2: where the answer is
if [ "$1" = - ]; then cat > "$2.cnf"; else cat "$1" > "$2.cnf"; fi
cat "$2.out"
e=$(cat "$2.end")
if [ "$e" = -9 ]; then kill -9 $$; fi
exit $e
'''
REAL = '''import sys
sys.path[:0] = []
from pysat.formula import CNF
from pysat.solvers import Solver
f = CNF(from_file=sys.argv[1]) if len(sys.argv) > 1 else CNF(from_string=sys.stdin.read())
with Solver(name='cadical153', bootstrap_with=f.clauses) as s:
    print('c an external solver')
    if s.solve():
        print('s SATISFIABLE')
        m = s.get_model()
        for k in range(0, len(m), 15):
            print('v', *m[k:k + 15])
        print('v 0')
        sys.exit(10)
    print('s UNSATISFIABLE')
    sys.exit(20)
'''


def full_capture(tool, args):
    import factorio_sat.template as template
    import importlib
    import contextlib
    import io
    mod = importlib.import_module('factorio_sat.' + CLI[tool])
    saved = template.BaseGrid.itersolve, template.BaseGrid.solve, sys.argv

    def grab(kind):
        def f(self, *a, **k):
            raise Captured(self, kind, a, k)
        return f
    template.BaseGrid.itersolve, template.BaseGrid.solve = grab('itersolve'), grab('solve')
    sys.argv = [tool, *map(str, args)]
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            mod.main()
    except Captured as c:
        return c
    finally:
        template.BaseGrid.itersolve, template.BaseGrid.solve, sys.argv = saved
    raise Violation('%s never asks for a solution' % tool)


def bound(c):
    import inspect
    import factorio_sat.template as template
    try:
        return inspect.signature(template.BaseGrid.itersolve).bind(c.grid, *c.args_, **c.kwargs)
    except TypeError:
        return None


def important_of(c):
    b = bound(c)
    return set(b.arguments.get('important_variables', set())) if b else set()


def enumerate_with(c, solver):
    """The enumeration the command asked for, with another solver."""
    import factorio_sat.template as template
    b = bound(c)
    if b is None or c.kind != 'itersolve':
        return c.grid.itersolve(solver=solver, ignore_colour=True)
    b.arguments['solver'] = solver
    return template.BaseGrid.itersolve(*b.args, **b.kwargs)


def models_of(grid, important, n):
    from pysat.solvers import Solver
    res = []
    with Solver(name='cadical153', bootstrap_with=grid.clauses) as s:
        while len(res) < n and s.solve():
            m = s.get_model()
            res.append(m)
            s.add_clause([-l for l in m if abs(l) in important])
    return res


def text_of(line, k, model, rnd):
    """The text of an abstract line."""
    half = len(model) // 2
    if line == 'c':
        return rnd.choice(['c comment\n', 'c\n', 'c s UNSATISFIABLE\n', 'c v 1 2 0\n', 'c s SATISFIABLE\n'])
    if line == 'noise':
        return rnd.choice(['WARNING: something\n', 'o 12\n', '| stats |\n', 'UNSATISFIABLE\n', 'x\n'])
    if line == 'word':
        return rnd.choice(['starting\n', 'solved nothing\n', 'stats: 12\n', 'sSATISFIABLE\n'])
    if line == 'sat':
        return 's SATISFIABLE\n'
    if line == 'unsat':
        return 's UNSATISFIABLE\n'
    if line == 'unknown':
        return rnd.choice(['s UNKNOWN\n', 's TIMEOUT\n', 's INDETERMINATE\n', 's \n', 's\n', 's unsatisfiable?\n', 's ERROR\n'])
    if line == 'cut':
        return rnd.choice(['s', 's ', 's SATIS', 's UNSAT', 's UN', 's SATISFIABL', 's UNSATISFIABL'])
    vals = lambda ls: ''.join('v ' + ' '.join(map(str, ls[n:n + w])) + '\n' for w in [rnd.choice([1, 7, 40, 10 ** 6])] for n in range(0, len(ls), w))
    if line == 'va':
        return vals(model[:half])
    if line == 'vb':
        return vals(model[half:] + [0])
    if line == 'vall':
        return vals(model + [0])
    if line == 'vpart':
        t = 'v ' + ' '.join(map(str, model)) + ' 0\n'
        return t[:rnd.choice([len(t) - 3, len(t) - 2 - len(str(model[-1])) // 2, rnd.randrange(1, len(t) - 3), rnd.randrange(1, len(t) - 3)])]
    if line == 'vbad':
        return rnd.choice(['v 1 x 0\n', 'values 1 2 0\n', 'V 1 2 0\n', '1 2 3 0\n', 'v 1 2- 0\n', 'nothing\n'])
    return '\n'


def conclude(f):
    """What a call concludes: ('layout', ids), ('none', None) or ('error', text)."""
    import contextlib
    import io
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            r = f()
    except Violation:
        raise
    except CodeTimeout:
        raise
    except Exception as e:
        return 'error', '%s: %s' % (type(e).__name__, e)
    if r is None:
        return 'none', None
    return 'layout', ids_of(r.tolist() if hasattr(r, 'tolist') else r)


def read_cnf(path):
    head, lits = None, []
    with open(path) as f:
        for line in f:
            if line.startswith('c') or not line.strip():
                continue
            if line.startswith('p'):
                head = line.split()
                continue
            lits += map(int, line.split())
    cls, cur = [], []
    for l in lits:
        if l == 0:
            cls.append(tuple(sorted(cur)))
            cur = []
        else:
            cur.append(l)
    return head, cls, cur


def body(check):
    scratch()
    d = fresh_dir('solver')
    sh = os.path.join(d, 'run.sh')
    with open(sh, 'w') as f:
        f.write(SH)
    real = os.path.join(d, 'real.py')
    with open(real, 'w') as f:
        f.write(REAL)
    check.section('every output of a command solver')
    o = run_tlc('Solver', 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT OnlyFromAnswers\nINVARIANT NeverUndecided\nCHECK_DEADLOCK FALSE\n',
                {'CFG': write_json({'most': 3 if check.quick else 4, 'ends': ['0', '10', '20', '1', '-9'], 'calls': 4})}, workers=4)
    scripts = list(o.jsons('O'))
    net22 = write_file('0 0 1 1\n')
    net44 = write_file('0 0 1 1\n0 0 1 1\n1 1 2 2\n1 1 2 2\n')
    cap = full_capture('belt_balancer', [net22, 5, 2])
    grid = cap.grid
    model = models_of(grid, important_of(cap), 1)[0]
    want = ids_of(grid.parse_solution(model).tolist())
    clauses = Counter(tuple(sorted(c)) for c in grid.clauses)
    big = full_capture('belt_balancer', [write_file('0 0 1 1\n0 0 1 1\n1 1 2 2\n1 1 2 2\n'), 7, 4])      # a formula larger than a pipe holds
    bigm = models_of(big.grid, set(), 1)[0]
    bigw = ids_of(big.grid.parse_solution(bigm).tolist())
    rnd = random.Random(SEED)
    if check.quick:
        # all scripts that allow more than an error, and as many of the others as there is time for
        rest = [s for s in scripts if s[2] == ['error']]
        scripts = [s for s in scripts if s[2] != ['error']] + rnd.sample(rest, 2500)

    def play(job):
        res = []
        for k, (lines, end, allowed) in job:
            r = random.Random('%d/%d' % (SEED, k))
            large = k % 97 == 5
            g, m, w = (big.grid, bigm, bigw) if large else (grid, model, want)
            base = os.path.join(d, 's%d' % k)
            with open(base + '.out', 'w') as f:
                f.write(''.join(text_of(l, n, m, r) for n, l in enumerate(lines)))
            with open(base + '.end', 'w') as f:
                f.write(end)
            by_file = r.random() < .5
            cmd = 'cmd:/bin/sh %s %s %s' % (sh, '$FILE' if by_file else '-', base)
            it = r.random() < .5
            got = conclude((lambda: g.solve(cmd)) if not it else (lambda: next(iter(g.itersolve(set(), solver=cmd)), None)))
            bad = None
            if got[0] not in allowed:
                bad = 'a command solver\'s output leads to the wrong conclusion'
            elif got[0] == 'layout' and got[1] != w:
                bad = 'a command solver\'s solution is read wrongly'
            elif k % 23 == 0 or large:
                try:
                    head, cls, left = read_cnf(base + '.cnf')
                except (OSError, ValueError):
                    head, cls, left = None, [], ['unreadable']
                full = clauses if not large else Counter(tuple(sorted(c)) for c in g.clauses)
                if left or Counter(cls) != full or head[:2] != ['p', 'cnf'] or int(head[3]) != len(cls) or int(head[2]) < max(abs(l) for c in cls for l in c):
                    bad = 'the formula handed to a command solver is not the generated one'
            if bad:
                res.append((bad, {'lines': lines, 'end': end, 'output': open(base + '.out').read()[:600], 'concluded': got[0], 'allowed': allowed, 'detail': got[1], 'by file': by_file}))
            for x in ('.out', '.end', '.cnf'):
                if os.path.exists(base + x):
                    os.remove(base + x)
        return res
    items = list(enumerate(scripts))
    per = [items[n::CORES * 4] for n in range(CORES * 4)]
    for bads in pmap(play, per):
        for what, data in bads:
            check.violation(what, data)
    check.count(len(items), 'command solver outputs')
    check.sample({'script': scripts[len(scripts) // 3]})

    check.section('every sequence of answers of a library solver')
    so = os.path.join(d, 'stub.so')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(VERIF, 'harness', 'ipasir_stub.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise MachineryError('gcc failed: %s' % r.stdout.decode())
    o = run_tlc('Solver', 'INIT LInit\nNEXT LNext\nINVARIANT LEmit\nINVARIANT LEndsOnlyOnUnsat\nCHECK_DEADLOCK FALSE\n', {'CFG': write_json({'most': 1, 'ends': ['0'], 'calls': 5 if check.quick else 7})})
    seqs = sorted(o.jsons('C'), key=str)
    capb = full_capture('belt_balancer', [net22, 5, 3, '--all'])
    imp = important_of(capb)
    ms = models_of(capb.grid, imp, 8)
    if len(ms) < 8:
        raise MachineryError('too few layouts to play with')
    layouts = [ids_of(capb.grid.parse_solution(m).tolist()) for m in ms]
    full = Counter(tuple(sorted(c)) for c in capb.grid.clauses)

    def library(x):
        n, (calls, k, endkind) = x
        base = os.path.join(d, 'l%d' % n)
        bad = []
        odd = random.Random(n).choice([5, -1, 1, 30, 11])
        with open(base + '.script', 'w') as f:
            for i, c in enumerate(calls):
                f.write({'sat': '10 ' + ' '.join(map(str, ms[i])) + ' 0', 'unsat': '20 0', 'stopped': '0 0', 'odd': '%d 0' % odd}[c] + '\n')
        os.environ['STUB_SCRIPT'], os.environ['STUB_LOG'] = base + '.script', base + '.log'
        got = conclude(lambda: capb.grid.solve('lib:' + so))
        exp = {'sat': ('layout', layouts[0]), 'unsat': ('none', None)}.get(calls[0], ('error', None))
        if got[0] != exp[0] or (got[0] == 'layout' and got[1] != exp[1]):
            bad.append(('a library solver\'s answer leads to the wrong conclusion', {'answers': calls, 'concluded': got, 'expected': exp[0]}))
        log = open(base + '.log').read().split('solve\n')[0].split('\n')
        if Counter(tuple(sorted(map(int, l.split()[:-1]))) for l in log if l) != full or any(l.split()[-1] != '0' for l in log if l):
            bad.append(('the formula handed to a library solver is not the generated one', {}))
        out = []

        def go():
            for s in capb.grid.itersolve(imp, solver='lib:' + so):
                out.append(ids_of(s.tolist()))
        got = conclude(go)
        kind = 'error' if got[0] == 'error' else 'done'
        if kind != endkind or out != layouts[:k]:
            bad.append(('a library solver\'s answers lead to the wrong layouts', {'answers': calls, 'layouts': len(out), 'expected': k, 'ended': got, 'expected end': endkind}))
        # what is ruled out after each layout is that layout
        parts = open(base + '.log').read().split('solve\n')
        for i, p in enumerate(parts[1:k + 1]):
            cl = [list(map(int, l.split()[:-1])) for l in p.split('\n') if l]
            if i + 1 < len(parts) - 1 or True:
                true = set(ms[i])
                if not cl and i + 1 < len(calls):
                    bad.append(('nothing rules out a layout that was returned', {'answers': calls}))
                for c in cl:
                    if any(l in true for l in c):
                        bad.append(('something else than the returned layout is ruled out', {'answers': calls, 'clause': c[:50]}))
                    for j, m in enumerate(ms):
                        if j != i and not any(l in set(m) for l in c):
                            bad.append(('a layout is ruled out that was not returned', {'answers': calls}))
        return bad
    for bads in pmap(library, list(enumerate(seqs))):
        for what, data in bads:
            check.violation(what, data)
    check.count(len(seqs), 'library solver answers')

    check.section('built-in solvers')
    tools = [('belt_balancer', [net22, 4, 3, '--all']), ('belt_balancer', [net44, 2, 4]), ('make_block', [4, 3, '--all']), ('make_block', [3, 3, '--single-loop', '--underground-length', 0]), ('interchange', [6, 4, '--all']), ('interchange', [5, 4])]
    names = ['g3', 'g4', 'g42', 'm22', 'mgh', 'cadical153', 'cadical195', 'lgl', 'mcb', 'mcm', 'mpl', 'mg3', 'mc', 'gc3', 'gc4', 'Glucose3', 'cd', 'cadical103']

    def builtin(x):
        tool, args, name = x
        try:
            c = full_capture(tool, args)
        except SystemExit:
            return None
        found = []
        one = conclude(lambda: c.grid.solve(name))

        def go():
            for s in enumerate_with(c, name):
                found.append(tuple(ids_of(s.tolist())))
                if len(found) > 400:
                    break
        many = conclude(go)
        return one[0], many[0], len(found), tuple(sorted(found)), one[1] if one[0] == 'error' else None, many[1] if many[0] == 'error' else None
    jobs = [(t, a, n) for t, a in tools for n in names]
    by = {}
    for (t, a, n), r in zip(jobs, pmap(builtin, jobs)):
        if r is None:
            continue
        if r[0] == 'error' and ('solver' in str(r[4]).lower() and ('not' in str(r[4]).lower() or 'unknown' in str(r[4]).lower()) or 'NotImplemented' in str(r[4]) or 'KeyError' in str(r[4])):
            continue        # not available here
        by.setdefault((t, tuple(map(str, a))), {})[n] = r
    for key, rs in by.items():
        ref = rs['g3']
        for n, r in rs.items():
            if r[0] != ref[0]:
                check.violation('two built-in solvers disagree', {'case': key, 'solver': n, 'one': r[:3], 'reference': ref[:3], 'error': r[4]})
            if r[1] == 'error' and ref[1] != 'error':
                continue    # cannot be used again after an answer
            if r[3] != ref[3] and ref[2] <= 400:
                check.violation('two built-in solvers give different layouts', {'case': key, 'solver': n, 'number': r[2], 'reference': ref[2]})
            if (r[0] == 'none') != (r[2] == 0) or len(set(r[3])) != len(r[3]):
                check.violation('one layout and all layouts contradict each other', {'case': key, 'solver': n})
            check.count(1, 'built-in solvers')
    check.extra['built_in_solvers'] = sorted(next(iter(by.values())))
    # an interrupted built-in solver
    import pysat.solvers
    saved = pysat.solvers.Solver.solve

    def interrupted(n):
        left = [n]

        def f(self, *a, **k):
            left[0] -= 1
            return None if left[0] < 0 else saved(self, *a, **k)
        out = []

        def go():
            for s in capb.grid.itersolve(imp, solver='g3'):
                out.append(1)
        pysat.solvers.Solver.solve = f
        try:
            many = conclude(go)
            left[0] = n
            one = conclude(lambda: capb.grid.solve('g3'))
        finally:
            pysat.solvers.Solver.solve = saved
        if many[0] != 'error' or len(out) != n or (n == 0) != (one[0] == 'error'):
            check.violation('an interrupted solver is taken as an answer', {'interrupted at call': n + 1, 'layouts': len(out), 'all': many[0], 'one': one[0]})
        check.count(1, 'interrupted')
    for n in (0, 1, 3):
        interrupted(n)

    check.section('the commands')
    cases = []
    gens = [('belt_balancer', [net22, 5, 2], [net44, 2, 4]), ('make_block', [4, 3], [3, 3, '--single-loop', '--underground-length', 0]), ('net_free', [3, 2, 2, 2], [4, 3, 2, 2]), ('pow2', [8, 4], [6, 4]), ('interchange', [6, 4], [2, 4])]
    for tool, yes, no in gens:
        for kind in ('real', 'real-stdin', 'dies', 'killed', 'unknown', 'cut', 'lib-stopped', 'lib-unsat', 'missing'):
            for args, sat in ((yes, True), (no, False)):
                if kind in ('dies', 'killed', 'unknown', 'cut', 'lib-stopped', 'lib-unsat', 'missing') and not sat:
                    continue
                cases.append((tool, args, sat, kind))
    for k, (out, end) in {'dies': ('c starting\n', '1'), 'killed': ('c starting\nc working\n', '-9'), 'unknown': ('s UNKNOWN\n', '0'), 'cut': ('s SATISFIABLE\nv 1 2 3\n', '0')}.items():
        for suf, t in (('.out', out), ('.end', end)):
            with open(os.path.join(d, 'k-' + k + suf), 'w') as f:
                f.write(t)

    def command(case):
        tool, args, sat, kind = case

        def f():
            env = {}
            base = None
            if kind == 'real':
                solver = 'cmd:%s %s $FILE' % (PY, real)
            elif kind == 'real-stdin':
                solver = 'cmd:%s %s' % (PY, real)
            elif kind == 'missing':
                solver = 'cmd:%s/nothing-here $FILE' % d
            elif kind.startswith('lib'):
                solver = 'lib:' + so
                fd = fresh_dir('lib')
                env = {'STUB_SCRIPT': os.path.join(fd, 's'), 'STUB_LOG': os.path.join(fd, 'l')}
                with open(env['STUB_SCRIPT'], 'w') as g:
                    g.write('0 0\n' if kind == 'lib-stopped' else '20 0\n')
            else:
                fd = fresh_dir('k')
                for suf in ('.out', '.end'):
                    shutil.copy(os.path.join(d, 'k-' + kind + suf), os.path.join(fd, 'k' + suf))
                solver = 'cmd:/bin/sh %s $FILE %s/k' % (sh, fd)
            r = run_cli(tool, [*args, '--solver', solver], env=env, timeout=200)
            lines = [l for l in r.out.splitlines() if l.startswith('[')]
            ref = run_cli(tool, args, timeout=200)
            ref_lines = [l for l in ref.out.splitlines() if l.startswith('[')]
            if sat != bool(ref_lines):
                raise MachineryError('%s %s: expected %s' % (tool, args, 'a layout' if sat else 'no layout'))
            if kind in ('real', 'real-stdin'):
                good = len(lines) == (1 if sat else 0) and r.rc == ref.rc
            elif kind == 'lib-unsat':
                good = not lines and r.rc == 0
            else:
                good = not lines and r.rc not in (0, None)
            if not good:
                check.violation('a command turns a solver\'s %s into the wrong result' % ('answer' if kind in ('real', 'real-stdin', 'lib-unsat') else 'failure'),
                                {'tool': tool, 'args': args, 'solver': kind, 'exit': r.rc, 'layouts': len(lines), 'stderr': r.err[-800:]})
            check.count(1, 'commands')
        return f
    parallel([command(c) for c in cases], CORES)
    # the search for optimal balancers with a solver that fails
    for kind in ('dies', 'cut', 'unknown'):
        fd = fresh_dir('opt')
        os.mkdir(os.path.join(fd, 'networks'))
        with open(os.path.join(fd, 'networks', '2x2'), 'w') as f:
            f.write('0 0 1 1\n')
        for suf in ('.out', '.end'):
            shutil.copy(os.path.join(d, 'k-' + kind + suf), os.path.join(fd, 'k' + suf))
        r = run_cli('calculate_optimal', ['compute', 4, 'length', '--threads', 1, '--solver', 'cmd:/bin/sh %s $FILE %s/k' % (sh, fd)], cwd=fd, timeout=60)
        db = os.path.join(fd, 'optimal_balancers.json')
        facts = json.load(open(db)).get('2x2', {}).get('exist', {}) if os.path.exists(db) else {}
        if r.rc == 0 or r.timed_out or facts:
            check.violation('the search stores a solver\'s failure as a result', {'solver': kind, 'exit': r.rc, 'facts': facts})
        check.count(1, 'commands')
    check.assumptions += ['values a solver closes with 0 are complete and true; the program does not check them', 'scripts have at most %d lines' % (3 if check.quick else 4)]


if __name__ == '__main__':
    main('C17', body)
