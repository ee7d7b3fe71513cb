"""C16: the database of optimal balancers survives crashes and faults.

Optimal.tla models saving step by step with a crash possible at every step (Durable); the real program is stopped, or its file operations
made to fail, at every file operation it performs (also half way through a write), its solver made to fail, and then started again.  TLC
checks each recorded history: what is on file is complete at every instant, never loses anything, never holds anything but what the
solver answered, and the restarted search ends with a proven optimum on file."""
from search import *
import random

NETS = {'one': [('2-2', '2x2', 5)], 'two': [('2-2', '2x2', 5), ('1-4', '1x4', 5)], 'three': [('1-2', '1x2', 5), ('3-1', '3x1', 5), ('2-4', '2x4', 5)]}


def nets_of(name):
    return [net(*x) for x in NETS[name]]


def make(name, truth, start, us):
    return World(nets_of(name), truth, start, us)


def history(job):
    """One history: searches that are stopped or fail, then one that is left alone."""
    name, us, truth, start, phases = job
    w = make(name, truth, start, us)
    try:
        info = []
        for obj, u, order, kw in phases:
            before = w.raw()
            kind = w.search(obj, u, order=order, **kw)
            info.append((kind, w.ticks, w.asks))
            if kind in ('hang', 'runaway'):
                raise Violation('the search does not end', {'history': job, 'events': w.events[-20:]})
            plain = not kw.get('fault') and not kw.get('fail') and kw.get('kill_after') is None
            if kind == 'error' and plain:
                raise Violation('the search fails when started again', {'history': job, 'error': w.error, 'database': (before or b'(none)').decode(errors='replace')[:2000]})
            if plain:
                w.query(obj, u, False, False)
        return w.trace(), info
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)


def body(check):
    import factorio_sat.calculate_optimal
    scratch()
    rnd = random.Random(SEED)
    check.section('model checking saving and crashing')
    models = [{'nets': [{'splitters': 1, 'height': 2, 'box': 4}], 'objectives': ['area', 'length'], 'us': [4, 6], 'minima': 1, 'facts': 0, 'crashes': 2},
              {'nets': [{'splitters': 1, 'height': 2, 'box': 4}, {'splitters': 2, 'height': 2, 'box': 4}], 'objectives': ['area', 'length'], 'us': [4], 'minima': 1, 'facts': 0, 'crashes': 2}]
    if not check.quick:
        models.append({'nets': [{'splitters': 1, 'height': 2, 'box': 5}, {'splitters': 2, 'height': 2, 'box': 5}], 'objectives': ['area', 'length'], 'us': [4], 'minima': 1, 'facts': 1, 'crashes': 2})
    model_check(check, models)

    check.section('truths, databases and orders from the specification')
    found = []
    plans = [('one', 2, [4, 6]), ('two', 1, [2, 11]), ('three', 1, [4, 6]), ('three', 0, [7, 10])]
    for (name, _, us), sc in zip(plans, parallel([lambda n=n, f=f, u=u, k=k: scenarios(nets_of(n), u, 1, f, 0, 10 if check.quick else 40, SEED * 50 + k) for k, (n, f, u) in enumerate(plans)], 4)):
        sc = sorted((s for s in sc if len(s[2][0][2]) >= 2), key=lambda s: -len(s[2][0][2]))
        pick = sc[:1] + rnd.sample(sc[1:], min(len(sc) - 1, 3 if check.quick else 20))
        found += [(name, us, s) for s in pick]
    # also from no database at all
    found += [(n, us, (t, None, p)) for n, us, (t, _, p) in found[::2]]
    base = []
    for name, us, (truth, start, phases) in found:
        obj, u, order = phases[0]
        base.append((name, us, truth, start, [(obj, u, order, {})]))
    runs = pmap(history, base)
    traces = [t for t, _ in runs]
    check.section('stopping and failing at every file operation')
    jobs = []
    limit = 40 if check.quick else 10 ** 6
    for b, (_, info) in zip(base, runs):
        name, us, truth, start, [(obj, u, order, _)] = b
        ticks, asks = info[0][1], info[0][2]
        pts = list(range(1, ticks + 1))
        if len(pts) > limit:
            # all operations other than writes come near the beginning and end of a save: keep both ends, and a sample
            pts = sorted(set(pts[:6] + pts[-6:] + rnd.sample(pts, limit - 12)))
        for at in pts:
            kind, half = rnd.choice([('crash', False), ('crash', True), ('oserror', True), ('oserror', False), ('interrupt', True)])
            ps = [(obj, u, order, {'fault': {'at': at, 'kind': kind, 'half': half}})]
            if rnd.random() < .3:       # and again
                ps.append((rnd.choice(['area', 'length']), rnd.choice(us), [], {'fault': {'at': rnd.randrange(1, ticks + 1), 'kind': 'crash', 'half': True}}))
            if rnd.random() < .3:
                ps.append((rnd.choice(['area', 'length']), rnd.choice(us), order[::-1], {}))
            jobs.append((name, us, truth, start, ps + [(obj, u, order, {})]))
        for num in range(1, min(asks, 6 if check.quick else 99) + 1):
            jobs.append((name, us, truth, start, [(obj, u, order, {'fail': num}), (obj, u, order, {})]))
            jobs.append((name, us, truth, start, [(obj, u, order, {'kill_after': num - 1}), (rnd.choice(['area', 'length']), rnd.choice(us), order[::-1], {})]))
    res = pmap(history, jobs)
    check.extra['histories_with_faults'] = len(jobs)
    ends_ = {}
    for (_, info), j in zip(res, jobs):
        for (kind, _, _), ph in zip(info, j[4]):
            ends_[kind] = ends_.get(kind, 0) + 1
    check.extra['how_searches_ended'] = ends_
    if ends_.get('died', 0) < 50:
        check.extra['note'] = 'few crashes took effect'
    check.section('TLC checks %d histories' % (len(traces) + len(res)))
    validate(check, traces + [t for t, _ in res], 'a history with crashes', 'histories', shards=6)
    check.sample({'history': jobs[len(jobs) // 2][4]})

    check.section('databases that cannot be read')
    us = [4, 6]
    def bad(text):
        w = make('two', [[(4, 4, 2)], [(4, 5, 4)]], None, us)
        try:
            with open(w.db, 'w') as f:
                f.write(text)
            out = []
            for what in ('search', 'query'):
                if what == 'search':
                    w.last = w.raw()
                    kind = w.search('length', 4)
                    # nothing may be asked or written over it
                    out.append((what, kind, w.raw() == text.encode()))
                else:
                    ok, o, e = w.call(['query', 4, 'length'])
                    out.append((what, 'ok' if ok else 'error', w.raw() == text.encode()))
            return out
        finally:
            shutil.rmtree(w.dir, ignore_errors=True)
    good = json.dumps({'2x2': {'exist': {'4,3,2': False, '4,4,2': True}, 'solutions': {'4,4,2': fake_layout('2x2', (4, 4, 2))}}, '1x4': {'exist': {'4,4,4': False}, 'solutions': {}}})
    texts = [good[:k] for k in sorted(set([0, 1, 5, len(good) // 3, len(good) // 2, len(good) - 2, len(good) - 1]))] + ['not json', good + good, '\0' * 40]
    for text, out in zip(texts, pmap(bad, texts)):
        for what, kind, same in out:
            if kind != 'error' or not same:
                check.violation('a database that cannot be read is %s' % ('accepted' if kind != 'error' else 'overwritten'), {'database': text[:300], 'command': what})
            check.count(1, 'unreadable databases')
    check.assumptions += ['a crash ends the process; what the operating system was given is kept (no power loss)', 'the networks in use stay the same between runs']


if __name__ == '__main__':
    main('C16', body)
