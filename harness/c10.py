"""C10: the Boolean encodings mean what they say.

TLC tabulates the meaning of every encoding for every listed operand width (Encodings.tla); the clauses the code produces must be
satisfiable under exactly these assignments of the visible bits, with positive and with negated literals as operands."""
from rules import *
from pysat.solvers import Solver
from pysat.formula import IDPool
from pysat.card import EncType
from factorio_sat import util, cardinality


def cases(quick):
    cs = []

    def add(op, w, a=(), how=None):
        cs.append({'op': op, 'w': list(w), 'a': list(a), 'how': how or op, 'vs': []})
    big = 12 if quick else 16
    for w in range(1, big + 1):
        for how in ('quadratic', 'logarithmic', 'heule', 'heule4', 'heule5'):
            add('at-most-one', [w], how=how + '_amo')
            add('exactly-one', [w], how=how + '_one')
    for w in range(1, 10 if quick else 12):
        for k in range(0, w + 1):
            add('equals', [w], [k], 'equals'); add('equals', [w], [k], 'equals_seq')
            add('at-most', [w], [k]); add('at-least', [w], [k])
    for w in range(1, 6):
        add('add', [w, w, w]); add('add', [w, w, w + 1]); add('add-overflow', [w, w, w])
        if w < 5 or not quick:
            add('add-carry', [w, w, w, 1]); add('add-carry', [w, w, w + 1, 1]); add('add-carry-overflow', [w, w, w, 1])
    for w in range(1, 4):
        for k in range(2, (12 if quick else 15) // w):
            if (k + 1) * w <= (12 if quick else 16):
                add('sum', [w] * (k + 1)); add('sum-overflow', [w] * (k + 1))
    for w in range(1, 8 if quick else 9):
        add('increment', [w, w]); add('negate', [w, w]); add('lex', [w, w]); add('equal', [w, w])
    for w in range(2, 12 if quick else 15):
        add('popcount', [w, w.bit_length()])
    for w in range(0, 7 if quick else 9):
        for v in range(2 ** w):
            if w:
                add('number', [w], [v]); add('not-number', [w], [v])
            add('maximum', [w], [v])
    for w in range(1, 5 if quick else 6):
        for a in range(2 ** w):
            for b in range(2 ** w):
                add('pair', [w, w], [a, b])
    for a, b in ((1, 3), (3, 1), (2, 4), (4, 2), (0, 3), (3, 0), (3, 3)):
        add('equal', [a, b], how='equal_lengths')
    for a in range(0, 4):
        for b in range(1, 4):
            add('implies', [a, b]) if a else None
            add('implies-all', [a, b]) if a else None
    for w in range(1, 6):
        add('all-false', [w]); add('all-true', [w]); add('not-all', [w])
    add('same', [1, 1]); add('different', [1, 1])
    for w in range(1, 7):
        add('read', [w], [0])
        if w > 1:
            add('read', [w], [1])
    return cs + wide(random.Random('%s/wide' % SEED), quick)


def wide(rnd, quick):
    """Operands too wide for all their values: statements with values that make them true or nearly so (TLC judges them)."""
    cs = []

    def add(op, w, tuples, a=(), how=None, flips=40):
        vs = set()
        for t in tuples:
            t = tuple(v % 2 ** k for v, k in zip(t, w))
            vs.add(t)
            spots = [(i, b) for i, k in enumerate(w) for b in range(k)]
            for i, b in spots if len(spots) <= flips else rnd.sample(spots, flips):
                vs.add(t[:i] + (t[i] ^ 1 << b,) + t[i + 1:])
        vs |= {tuple(rnd.randrange(2 ** k) for k in w) for _ in range(6)}
        vs = sorted(vs)
        if len(vs) > 900:
            vs = rnd.sample(vs, 900)
        cs.append({'op': op, 'w': list(w), 'a': list(a), 'how': how or op, 'vs': [list(t) for t in vs]})
    r = lambda w: rnd.randrange(2 ** w)
    few = lambda w, k: sum(1 << b for b in rnd.sample(range(w), k))
    step = 1 if not quick else 3
    for w in range(10, 30, step):
        for how in ('quadratic', 'logarithmic', 'heule', 'heule4', 'heule5'):
            t = [(0,)] + [(1 << b,) for b in range(w)]
            add('at-most-one', [w], t, how=how + '_amo'); add('exactly-one', [w], t, how=how + '_one')
    for w in range(8, 29, step):
        for k in sorted({0, 1, 2, w - 1, w, rnd.randrange(w), rnd.randrange(w)}):
            t = [(few(w, j),) for j in (k - 1, k, k, k + 1) if 0 <= j <= w]
            add('equals', [w], t, [k], 'equals'); add('equals', [w], t, [k], 'equals_seq'); add('at-most', [w], t, [k]); add('at-least', [w], t, [k])
    for w in range(4, 15, 1 if not quick else 2):
        edge = [0, 2 ** w - 1, 2 ** (w - 1), 1]
        ab = [(a, b) for a in edge for b in edge] + [(r(w), r(w)) for _ in range(8)]
        add('add', [w, w, w], [(a, b, a + b) for a, b in ab]); add('add', [w, w, w + 1], [(a, b, a + b) for a, b in ab]); add('add-overflow', [w, w, w], [(a, b, a + b) for a, b in ab])
        abc = [(a, b, c) for a, b in ab for c in (0, 1)]
        add('add-carry', [w, w, w, 1], [(a, b, a + b + c, c) for a, b, c in abc]); add('add-carry', [w, w, w + 1, 1], [(a, b, a + b + c, c) for a, b, c in abc])
        add('add-carry-overflow', [w, w, w, 1], [(a, b, a + b + c, c) for a, b, c in abc])
        for k in (2, 3, 5, 8):
            t = [tuple(x) + (sum(x),) for x in [[r(max(w - k, 1)) for _ in range(k)] for _ in range(8)] + [[r(w) for _ in range(k)] for _ in range(8)]]
            add('sum', [w] * (k + 1), t); add('sum-overflow', [w] * (k + 1), t)
        one = edge + [r(w) for _ in range(8)] + [2 ** k - 1 for k in range(1, w)] + [2 ** k for k in range(w)]
        add('increment', [w, w], [(a, a + 1) for a in one]); add('negate', [w, w], [(a, -a) for a in one]); add('equal', [w, w], [(a, a) for a in one])
        add('equal', [w, w + 3], [(a, a) for a in one], how='equal_lengths'); add('equal', [w + 2, w], [(a, a) for a in one], how='equal_lengths')
        add('lex', [w, w], [(a, a) for a in one] + [(a ^ 1 << b, a) for a in one[:6] for b in range(w)])
    for w in range(9, 30, step):
        add('popcount', [w, w.bit_length()], [(x, bin(x).count('1')) for x in [0, 2 ** w - 1] + [r(w) for _ in range(4)] + [few(w, k) for k in range(0, w + 1, 4)]])
    for w in range(6, 21, 2 if quick else 1):
        for v in {0, 1, 2 ** w - 1, 2 ** w - 2, 2 ** (w - 1), r(w), r(w), r(w)}:
            t = [(v,), (v + 1,), (v - 1,), (r(w),)]
            add('number', [w], t, [v]); add('not-number', [w], t, [v]); add('maximum', [w], t + [(v | m,) for m in (1, 2, 4, 8)], [v])
    for w in range(4, 13):
        for a, b in [(0, 2 ** w - 1)] + [(r(w), r(w)) for _ in range(12 if quick else 40)]:
            d = a ^ b
            mixed = [(a ^ (m & d), b ^ (m & d)) for m in [r(w) for _ in range(20)] + [1 << k for k in range(w)] + [2 ** k - 1 for k in range(w)]]
            add('pair', [w, w], [(a, b), (b, a), *mixed], [a, b], flips=8)
    return cs


def clauses(c, ops, alloc, pool):
    """The code's clauses for the case over the operands' literals; None when it declines a statement that is always true."""
    a, how = c['a'], c['how']
    if how.endswith('_amo') or how.endswith('_one'):
        if how.startswith('heule4') or how.startswith('heule5'):
            return getattr(cardinality, 'heule' + how[6:])(ops[0], alloc, int(how[5]))
        return getattr(cardinality, how)(ops[0], alloc)
    if how in ('equals', 'equals_seq', 'at-most', 'at-least'):
        try:
            if how == 'equals':
                return cardinality.library_equals(ops[0], a[0], pool)
            if how == 'equals_seq':
                return cardinality.library_equals(ops[0], a[0], pool, EncType.seqcounter)
            return {'at-most': cardinality.library_atmost, 'at-least': cardinality.library_atleast}[how](ops[0], a[0], pool)
        except RuntimeError:
            return None
    return {
        'add': lambda: util.add_numbers(ops[0], ops[1], ops[2], alloc), 'add-overflow': lambda: util.add_numbers(ops[0], ops[1], ops[2], alloc, allow_overflow=True),
        'add-carry': lambda: util.add_numbers(ops[0], ops[1], ops[2], alloc, ops[3][0]), 'add-carry-overflow': lambda: util.add_numbers(ops[0], ops[1], ops[2], alloc, ops[3][0], True),
        'sum': lambda: util.sum_numbers(ops[:-1], ops[-1], alloc), 'sum-overflow': lambda: util.sum_numbers(ops[:-1], ops[-1], alloc, allow_overflow=True),
        'increment': lambda: util.increment_number(*ops), 'negate': lambda: util.invert_number(*ops, alloc), 'lex': lambda: util.break_symmetry(*ops, alloc),
        'equal': lambda: util.set_numbers_equal(*ops), 'equal_lengths': lambda: util.set_numbers_equal(*ops, allow_different_lengths=True), 'popcount': lambda: util.get_popcount(*ops, alloc),
        'number': lambda: util.set_number(a[0], ops[0]), 'not-number': lambda: [util.set_not_number(a[0], ops[0])], 'maximum': lambda: util.set_maximum(a[0], ops[0]),
        'pair': lambda: util.set_numbers(a[0], a[1], *ops), 'implies': lambda: util.implies(ops[0], [ops[1]]), 'implies-all': lambda: util.implies(ops[0], util.set_all_true(ops[1])),
        'all-false': lambda: util.set_all_false(ops[0]), 'all-true': lambda: util.set_all_true(ops[0]), 'not-all': lambda: [util.invert_components(ops[0])],
        'same': lambda: util.literals_same(ops[0][0], ops[1][0]), 'different': lambda: util.literals_different(ops[0][0], ops[1][0]),
    }[how]()


def body(check):
    cs = cases(check.quick)
    check.section('TLC tabulates %d encodings' % len(cs))
    shards = 4
    per = [list(range(k, len(cs), shards)) for k in range(shards)]

    def job(ix):
        return lambda: (ix, run_tlc('Encodings', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json([{k: cs[i][k] for k in ('op', 'w', 'a', 'vs')} for i in ix])}, workers=2, timeout=700 if check.quick else 7000))
    want = [None] * len(cs)
    for ix, r in parallel([job(ix) for ix in per], shards):
        for n, v in r.jsons('E'):
            want[ix[n - 1]] = v
    if any(w is None for w in want):
        raise MachineryError('TLC tabulated only some of the encodings')
    check.section('comparing with the clauses')

    def one(i):
        c, w = cs[i], want[i]
        name = '%s %s %s' % (c['how'], c['w'], c['a'])
        if c['op'] == 'read':
            for v, r in enumerate(w):
                bits = [bool(v >> k & 1) for k in range(c['w'][0])]
                if util.read_number(bits, bool(c['a'][0])) != r:
                    return '%s: the bits %s are read as %s, not %s' % (name, bits, util.read_number(bits, bool(c['a'][0])), r), 0
                if list(util.get_bits(v, c['w'][0])) != bits:
                    return '%s: get_bits(%d) is wrong' % (name, v), 0
            return None, len(w)
        rnd = random.Random('%s/%s' % (SEED, i))
        size = sum(c['w'])
        w = set(w)
        n = 0
        if c['vs']:
            judged = []
            for k, t in enumerate(c['vs'], 1):
                m = p = 0
                for v, bits in zip(t, c['w']):
                    m |= v << p
                    p += bits
                judged.append((m, k in w))
        else:
            judged = [(m, m in w) for m in range(2 ** size)]
        for signs in ([1] * size, [rnd.choice((1, -1)) for _ in range(size)]):
            lits = [s * (k + 1) for k, s in enumerate(signs)]
            ops, p = [], 0
            for k in c['w']:
                ops.append(lits[p:p + k])
                p += k
            pool = IDPool(start_from=size + 1)
            given = [list(o) for o in ops]
            cl = clauses(c, ops, util.make_allocator(size), pool)
            if ops != given:
                return '%s: the operands were changed' % name, n
            if cl is None:
                if not all(meant for _, meant in judged):
                    return '%s: refused although it is no tautology' % name, n
                continue
            with Solver('glucose4', bootstrap_with=[list(map(int, x)) for x in cl]) as s:
                empty = any(len(x) == 0 for x in cl)      # pysat ignores empty clauses
                for m, meant in judged:
                    got = not empty and bool(s.solve(assumptions=[l if m >> k & 1 else -l for k, l in enumerate(lits)]))
                    n += 1
                    if got != meant:
                        return '%s: the assignment %s of the visible bits is %s' % (name, [m >> k & 1 for k in range(size)], 'accepted' if got else 'rejected'), n
        return None, n
    for bad, n in pmap(one, range(len(cs))):
        if bad:
            check.violation(bad, {'case': bad})
        check.count(n)
    check.sample({'case': cs[0], 'true': want[0]})
    check.sample({'case': cs[-20], 'true': want[-20]})
    check.extra['encodings'] = len(cs)
    check.assumptions += ['pysat decides satisfiability and its cardinality encoder is part of the code under test']


if __name__ == '__main__':
    main('C10', body)
