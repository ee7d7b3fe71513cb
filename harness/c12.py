"""C12: text form, JSON form and rotations.

Transform.tla gives, for every chain of conversions, the layout that must result; the same chain is run through the real commands (each
step's real output is the next step's input).  Conversions run many layouts per process, in an order that mixes sizes."""
from grids import *


def step(op, grids):
    """The real result of one operation on each layout (as printed JSON)."""
    lines = [json.dumps(g) for g in grids]
    if op == 'text':
        r = feed('stringifier', ['encode'], lines)
        d = run_cli('stringifier', ['decode'], stdin=r.out, timeout=240)
        out, err = d.out, r.err + d.err
    elif op == 'blueprint':
        r = feed('blueprint', ['encode'], lines)
        d = run_cli('blueprint', ['decode'], stdin=r.out, timeout=240)
        out, err = d.out, r.err + d.err
    else:
        r = feed('rotate', [op], lines)
        out, err = r.out, r.err
    res = []
    for line in out.splitlines():
        try:
            res.append(json.loads(line))
        except ValueError:
            break
    if len(res) != len(grids):
        raise Violation('%s failed on a layout' % op, {'layout': grids[min(len(res), len(grids) - 1)], 'stderr': err[-1500:]})
    return res


def cases(check, rnd):
    res = []
    for t in range(63):
        res.append((1, 1, [t], 3 if t in (1, 5, 13, 20, 21, 24, 40, 47, 54, 57) else 1))
    for w, h in ((3, 2), (2, 4), (1, 3), (5, 1)):
        for d in range(4):
            # every tile with each direction in a corner
            res.append((w, h, [rnd.choice([t for t in range(63) if t]) if k == 0 else rnd.randrange(63) for k in range(w * h)], 2))
    n = 8 if check.quick else 40
    for k in range(n):
        w, h = rnd.randint(1, 5), rnd.randint(1, 5)
        res.append((w, h, soup(w, h, rnd, list(range(63))), 2))
        res.append((w + 1, h + 1, with_splitters(w + 1, h + 1, rnd, NOT_SPLIT + [FILLER] * 3), 3))
        res.append((w + 1, h + 1, with_splitters(w + 1, h + 1, rnd, NOT_SPLIT + [0] * 10 + list(range(46, 54))), 2))
    res.append((3, 3, list(range(54, 63)), 3))
    res.append((4, 4, [0] * 3 + [3] + [0] * 4 + [0, 1, 1, 13] + [0] * 4, 3))
    valid = valid_layouts([(3, 3), (4, 2), (2, 5), (5, 4), (4, 6)], 60 if check.quick else 400, SEED)
    for w, h, g in rnd.sample(valid, min(len(valid), 20 if check.quick else 120)):
        res.append((w, h, list(g), 3))
    return res


def body(check):
    rnd = random.Random(SEED * 71)
    cs = cases(check, rnd)
    rnd.shuffle(cs)
    check.section('TLC: %d layouts and every chain of conversions' % len(cs))
    parts = [cs[k::4] for k in range(4)]

    def job(part):
        return lambda: run_tlc('Transform', 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT KeepsRules\nINVARIANT GroupLaws\nINVARIANT BlueprintStable\nCHECK_DEADLOCK FALSE\n',
                               {'CASES': write_json([{'w': w, 'h': h, 's': s, 'depth': d if check.quick else min(d + 1, 3)} for w, h, s, d in part])}, workers=2, timeout=700)
    want = {}
    for k, r in enumerate(parallel([job(p) for p in parts], 4)):
        for n, ops, w, h, s in r.seqs('G'):
            want[k + 4 * (n - 1), tuple(ops)] = (w, h, list(s))
    depth = max(len(ops) for _, ops in want)
    real = {}
    for i, (w, h, s, _) in enumerate(cs):
        real[i, ()] = grid_json(w, h, s)
        if [canon(t) for t in s] != want[i, ()][2]:
            raise MachineryError('codec mismatch')
    for d in range(1, depth + 1):
        check.section('replaying step %d of the chains through the commands' % d)
        level = [key for key in want if len(key[1]) == d]
        ops = sorted({key[1][-1] for key in level})
        jobs = []
        for op in ops:
            keys = sorted((k for k in level if k[1][-1] == op), key=lambda k: (k[1], k[0]))
            for lo in range(0, len(keys), 4000):
                jobs.append((op, keys[lo:lo + 4000]))

        def run(op, keys):
            return lambda: step(op, [real[k[0], k[1][:-1]] for k in keys])
        for (op, keys), outs in zip(jobs, parallel([run(op, keys) for op, keys in jobs], CORES)):
            for k, o in zip(keys, outs):
                real[k] = o
                try:
                    got = grid_ids(o)
                except (KeyError, TypeError, IndexError):
                    got = (None, None, 'not a layout')
                w, h, s = want[k]
                if tuple(got) != (w, h, s):
                    check.violation('%s changes the layout wrongly' % ' then '.join(k[1]),
                                    {'start': real[k[0], ()], 'chain': k[1], 'expected': grid_json(w, h, s), 'got': o})
            check.count(len(keys), op)
    check.sample('%d chains of up to %d operations, e.g. %s' % (len(want), depth, ' then '.join(next(k[1] for k in want if len(k[1]) == depth))))

    check.section('writing and reading tiles')
    code_import()
    from factorio_sat.tile import BaseTile
    from factorio_sat.blueprint import read_tile, write_tile
    for t in range(63):
        j = xtile_json(t)
        once = json.loads(json.dumps(BaseTile.read(j).write()))
        if once != j or json.loads(json.dumps(write_tile(read_tile({'tile': j})))) != {'tile': j} or BaseTile.read(once) != BaseTile.read(j):
            check.violation('writing and reading a tile changes it', {'tile': j, 'got': once})
        check.count(1, 'tile')
    check.assumptions += ['the text form is only claimed for tiles that have one (belts, undergrounds, splitters, fillers, empty); inserters and machines have none',
                          'a blueprint does not record which of several feeding tiles bends a belt: belts are reshaped as the game does']


if __name__ == '__main__':
    main('C12', body)
