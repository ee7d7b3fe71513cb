"""C15: the search for optimal balancers.

Optimal.tla is model checked (every truth, stored database, completion order and restart of small models); behaviours TLC draws from it
are replayed into `calculate_optimal compute` with a scripted solver, and everything observed (questions, answers, the database, queries,
the cross table) is checked by TLC as a behaviour of the specification.  The constraints a solve uses are compared with Balancer.tla."""
from rules import *
from search import *

GENERIC = ['small-loop', 'glue-splitter', 'glue-partial', 'expand-underground-interior', 'belt-hook', 'mergeable-underground', 'semicircle', 'underground-hook', 'zigzag', 'parallel-splitter']
NAMES = [['2x2', '1x4', '10x2'], ['misc', '2x10', '2x9b'], ['10-3', '9-12', '9-12a'], ['7x7', 'zz', 'aa1x1']]


def play(job):
    """A behaviour of the specification on the real program; returns the observed trace."""
    nets, us, (truth, start, phases), k = job
    rnd = random.Random('%d/%d' % (SEED, k))
    w = World([dict(n) for n in nets], truth, start, us)

    def ask():
        for _ in range(2):
            w.query(rnd.choice(['area', 'length']), rnd.choice(us), rnd.random() < .4, rnd.random() < .4)
    try:
        ask()
        for n, (obj, u, order) in enumerate(phases):
            last = n == len(phases) - 1
            kind = w.search(obj, u, threads=rnd.choice([None, None, 1, 2]), order=order, kill_after=None if last else len(order))
            if kind == 'hang' or kind == 'runaway':
                raise Violation('the search does not end', {'networks': nets, 'truth': truth, 'events': w.events[-20:]})
            if kind == 'error':
                raise Violation('the search fails', {'networks': nets, 'truth': truth, 'error': w.error})
            ask()
        w.query(phases[-1][0], phases[-1][1], False, False)
        w.query(phases[-1][0], phases[-1][1], False, True)
        w.query(phases[-1][0], phases[-1][1], True, False)
        w.table()
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)
    return w.trace()


def captured_solve(nodes, size):
    from factorio_sat import calculate_optimal, template, network
    saved = template.BaseGrid.solve, template.BaseGrid.itersolve

    def grab(self, *a, **k):
        raise Captured(self, 'solve', a, k)
    template.BaseGrid.solve = template.BaseGrid.itersolve = grab
    try:
        calculate_optimal.solve_balancer(network.open_network(write_file(network_text(nodes))), size, 'g4')
    except Captured as c:
        return c.grid
    finally:
        template.BaseGrid.solve, template.BaseGrid.itersolve = saved
    raise Violation('solve_balancer never asks for a solution')


def body(check):
    import factorio_sat.calculate_optimal
    scratch()
    check.section('model checking the search')
    small = [{'nets': [{'splitters': 1, 'height': 2, 'box': 4}], 'objectives': ['area', 'length'], 'us': [4, 6], 'minima': 1, 'facts': 1, 'crashes': 1},
             {'nets': [{'splitters': 1, 'height': 2, 'box': 4}, {'splitters': 2, 'height': 2, 'box': 5}], 'objectives': ['area'], 'us': [4], 'minima': 1, 'facts': 0, 'crashes': 1},
             {'nets': [{'splitters': 2, 'height': 3, 'box': 4}], 'objectives': ['area', 'length'], 'us': [4, 6], 'minima': 1, 'facts': 0, 'crashes': 0}]
    if not check.quick:
        small += [{'nets': [{'splitters': 1, 'height': 2, 'box': 5}], 'objectives': ['area', 'length'], 'us': [4, 6], 'minima': 2, 'facts': 2, 'crashes': 1},
                  {'nets': [{'splitters': 1, 'height': 2, 'box': 4}, {'splitters': 3, 'height': 2, 'box': 5}], 'objectives': ['area', 'length'], 'us': [4, 6], 'minima': 1, 'facts': 0, 'crashes': 1}]
    model_check(check, small)
    model_check(check, [{'nets': [{'splitters': 1, 'height': 2, 'box': 4}, {'splitters': 2, 'height': 2, 'box': 4}], 'objectives': ['area', 'length'], 'us': [4], 'minima': 1, 'facts': 0, 'crashes': 1}], liveness=True)

    check.section('behaviours from the specification')
    sets = [([net('2-2', NAMES[0][0], 5), net('1-4', NAMES[0][1], 6)], [4, 6], 2, 1, 0),
            ([net('2-1', NAMES[1][0], 5), net('2-4', NAMES[1][1], 5), net('3-1', NAMES[1][2], 5)], [4, 6], 1, 2, 1),
            ([net('4-4', NAMES[2][0], 6)], [3, 4, 6, 8], 3, 3, 1),
            ([net('2-2', NAMES[3][0], 6), net('3-1', NAMES[3][2], 6)], [5, 8, 9], 2, 2, 1),
            ([net('1-2', NAMES[2][1], 7), net('2-2', NAMES[2][2], 4), net('2-4', NAMES[3][1], 5)], [4], 2, 0, 1),
            ([net('8-8', 'tall', 5), net('6-6', '6x6', 5)], [4, 6], 2, 1, 0)]
    num = 60 if check.quick else 900
    jobs = []
    for s, found in zip(sets, parallel([lambda s=s, k=k: scenarios(s[0], s[1], s[2], s[3], s[4], num, SEED * 100 + k) for k, s in enumerate(sets)], 5)):
        jobs += [(s[0], s[1], x, 0) for x in found]
    jobs = [j[:3] + (k,) for k, j in enumerate(jobs)]
    check.section('replaying %d behaviours' % len(jobs))
    traces = pmap(play, jobs)
    check.extra['searches'] = sum(e['e'] == 'start' for t in traces for e in t['events'])
    check.extra['questions'] = sum(e['e'] == 'ask' for t in traces for e in t['events'])
    check.section('TLC checks the traces')
    validate(check, traces, 'a search', 'searches')
    check.sample({'events': [e for e in traces[0]['events'] if e['e'] in ('ask', 'answer', 'query')][:12]})

    check.section('the constraints of a solve')
    NETS = {'2x2': STOCK['2-2'], '1x2': STOCK['1-2'], '2x1': STOCK['2-1'], '1x4': STOCK['1-4'], '3x1': STOCK['3-1'], '2x4': STOCK['2-4'],
            'series': [[0, 0, 1, 1], [1, 1, 2, 2]]}
    confs = []
    for n, w, h, L in [('2x2', 3, 2, 4), ('2x2', 4, 3, 4), ('2x2', 5, 3, 2), ('1x2', 3, 2, 4), ('1x2', 4, 3, 4), ('1x2', 5, 3, 6), ('2x1', 3, 3, 4), ('2x1', 5, 3, 4), ('1x4', 5, 4, 4), ('1x4', 4, 4, 4), ('1x4', 4, 5, 4),
                       ('3x1', 4, 3, 4), ('3x1', 5, 3, 4), ('2x4', 4, 4, 4), ('2x4', 5, 4, 2), ('series', 4, 2, 4), ('series', 5, 3, 4), ('2x2', 6, 2, 1), ('series', 8, 2, 1), ('series', 9, 2, 2), ('1x4', 4, 6, 1)] + ([] if check.quick else
                       [('2x2', 6, 3, 4), ('2x2', 5, 4, 4), ('1x4', 6, 4, 4), ('series', 6, 3, 4), ('3x1', 6, 3, 4), ('2x1', 5, 4, 4), ('1x2', 7, 3, 4)]):
        confs.append((n, balancer_cfg(NETS[n], w, h, L=L, aligned=True, edge=True, rules=GENERIC)))
    layouts = enumerate_many([c for _, c in confs], 'Balancer', BAL_CFG, timeout=780 if check.quick else 20000)

    def one(x):
        (n, c), ls = x
        sub = Check(check.pid)
        exact(sub, 'solve_balancer(%s, %s)' % (n, (c['L'], c['w'], c['h'])), captured_solve(c['nodes'], (c['L'], c['w'], c['h'])), ls)
        return sub.violations, sub.validated
    for v, n in pmap(one, list(zip(confs, layouts))):
        for x in v:
            check.violation(x['what'], x['data'])
        check.count(n, 'layouts of a solve')
    check.extra['layouts_per_solve'] = {'%s %s' % (n, (c['L'], c['w'], c['h'])): len(ls) for (n, c), ls in zip(confs, layouts)}

    check.section('the whole program with a real solver')
    d = fresh_dir('real')
    os.mkdir(os.path.join(d, 'networks'))
    for n in ('2x2', '1x2', '1x4', '3x1'):
        with open(os.path.join(d, 'networks', n), 'w') as f:
            f.write(network_text(NETS[n]))
    truth = {n: set() for n in NETS}
    for (n, c), ls in zip(confs, layouts):
        if ls:
            truth[n].add((c['L'], c['w'], c['h']))
    for obj in ('length', 'area'):
        r = run_cli('calculate_optimal', ['compute', 4, obj, '--threads', 4], cwd=d, timeout=300)
        if r.rc != 0:
            check.violation('compute fails', {'stderr': r.err[-2000:], 'objective': obj})
            return
        data = json.load(open(os.path.join(d, 'optimal_balancers.json')))
        q = run_cli('calculate_optimal', ['query', 4, obj], cwd=d)
        got = {}
        judged = []
        for n in ('2x2', '1x2', '1x4', '3x1'):
            for k, v in data[n]['exist'].items():
                s = tuple(map(int, k.split(',')))
                known = [(c, ls) for (m, c), ls in zip(confs, layouts) if m == n and (c['L'], c['w'], c['h']) == s]
                if known and bool(known[0][1]) != v:
                    check.violation('a stored fact is wrong', {'network': n, 'size': s, 'stored': v})
                check.count(1, 'stored facts')
            for k, sol in data[n]['solutions'].items():
                L, w, h = map(int, k.split(','))
                ids = ids_of(sol)
                if None in ids or len(ids) != w * h or len(sol) != h:
                    check.violation('a stored layout is none', {'network': n, 'size': k})
                    continue
                judged.append(dict(balancer_cfg(NETS[n], w, h, L=L, aligned=True, edge=True, rules=GENERIC), g=ids))
        for b, c in zip(judge(judged), judged):
            if b:
                check.violation('a stored layout is not what was asked for', {'broken': b, 'layout': show(c['g'], c['w'])})
            check.count(1, 'stored layouts')
        rows = [json.loads(x) for x in q.out.splitlines()]
        sizes = [(len(x[0]), len(x)) for x in rows]
        # in the order 1x2, 1x4, 2x2, 3x1; the optima are known from the enumeration
        want = [(3, 2), (4, 4), (3, 2), (4, 3)]
        if obj == 'length' and sizes != want:
            check.violation('query does not report the shortest balancers', {'sizes': sizes, 'expected': want})
        if len(rows) != 4:
            check.violation('query does not report every network', {'sizes': sizes})
    check.assumptions += ['existence is monotone in all three dimensions, as the search assumes', 'the scripted part replaces solve_balancer and the process pool; the real ones are used in the last part only']


if __name__ == '__main__':
    main('C15', body)
