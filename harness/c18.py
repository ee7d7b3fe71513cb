"""C18: blueprint books.

Book.tla enumerates every history of packing, unpacking and rearranging blueprint strings; each history is run through `blueprint_book
pack` / `unpack` and every line compared with the specification's."""
import glob
from grids import *
from c11 import pack, unpack

LABELS = [None, 'Balancers', '', 'Büch "1" ⚙']
BPS = [{'blueprint': {'icons': [{'signal': {'type': 'item', 'name': 'splitter'}, 'index': 1}], 'item': 'blueprint', 'version': 281474976710656, 'label': 'a to b',
                      'entities': [{'entity_number': 1, 'name': 'splitter', 'position': {'x': 1.0, 'y': -0.5}, 'direction': 2}]}},
       {'blueprint': {'item': 'blueprint', 'version': 1, 'entities': [], 'description': 'Ωmega "q"\n', 'index': 7}},
       {'blueprint': {'icons': [], 'item': 'blueprint', 'entities': [{'entity_number': 2, 'name': 'wooden-chest', 'position': {'x': 0.5, 'y': 0.5}}]}, 'index': 41}]


def value(v):
    """The decoded form of a specification line."""
    if 'of' in v:
        return ('book', LABELS[v['label']], [value(x) for x in v['of']], None if v['ix'] < 0 else v['ix'])
    b = json.loads(json.dumps(BPS[v['id'] - 1]))
    if v['ix'] >= 0:
        b['index'] = v['ix']
    return ('blueprint', b)


def seen(data):
    if isinstance(data, dict) and 'blueprint_book' in data:
        b = data['blueprint_book']
        if b.get('item') != 'blueprint-book':
            raise Violation('a packed book is not marked as a book', {'book': data})
        return ('book', b.get('label'), [seen(x) for x in b['blueprints']], data.get('index'))
    return ('blueprint', data)


def body(check):
    conf = {'kinds': 3, 'most': 3 if check.quick else 4, 'depth': 3 if check.quick else 4, 'labels': len(LABELS)}
    check.section('TLC: histories of packing and unpacking')
    r = run_tlc('Book', 'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT PackUnpack\nINVARIANT Positions\nCHECK_DEADLOCK FALSE\n', {'CASES': write_json(conf)}, workers=4, timeout=600)
    states = [(tuple(map(tuple, ops)), lines) for ops, lines in r.jsons('K')]
    # one real command per distinct (lines, operation): the command sees nothing else
    starts, succ = {}, {}
    for ops, lines in states:
        starts.setdefault(json.dumps(lines, sort_keys=True), lines)
    todo = {}
    for ops, lines in states:
        if len(ops) < conf['depth']:
            for lab in range(len(LABELS)):
                todo[json.dumps(lines, sort_keys=True), 'pack', lab] = lines
            if len(lines) == 1 and 'of' in lines[0]:
                todo[json.dumps(lines, sort_keys=True), 'unpack', 0] = lines
    keys = sorted(todo)
    rnd = random.Random(SEED)
    limit = 700 if check.quick else 20000
    if len(keys) > limit:
        short = [k for k in keys if len(k[0]) < 120]
        keys = short[:limit // 2] + rnd.sample([k for k in keys if k not in set(short[:limit // 2])], limit - min(len(short), limit // 2))
    check.section('replaying %d of %d different steps through blueprint_book' % (len(keys), len(todo)))

    def numbered(lines):
        return [dict(v, ix=i) for i, v in enumerate(lines)]

    def raw(v):
        """The input data for a specification line."""
        if 'of' in v:
            d = {'blueprint_book': {'item': 'blueprint-book', 'active_index': 0, 'version': 281474976710656, 'blueprints': [raw(x) for x in v['of']]}}
            if LABELS[v['label']] is not None:
                d['blueprint_book']['label'] = LABELS[v['label']]
            if v['ix'] >= 0:
                d['index'] = v['ix']
            return d
        return value(v)[1]

    def run(key):
        lines = todo[key]
        args = [key[1]] + (['--label', LABELS[key[2]]] if key[1] == 'pack' and LABELS[key[2]] is not None else [])
        res = run_cli('blueprint_book', args, stdin=''.join(pack(raw(v)) + '\n' for v in lines), timeout=120)
        want = [value({'label': key[2], 'of': numbered(lines), 'ix': -1})] if key[1] == 'pack' else [value(v) for v in lines[0]['of']]
        if res.rc != 0:
            check.violation('blueprint_book %s fails' % key[1], {'lines': [raw(v) for v in lines], 'stderr': res.err[-1500:]})
            return
        got = [seen(unpack(x)) for x in res.out.splitlines()]
        if got != want:
            check.violation('blueprint_book %s gives the wrong result' % ' '.join(args), {'lines': [raw(v) for v in lines], 'expected': want, 'got': got})
    parallel([lambda k=k: run(k) for k in keys], CORES)
    check.count(len(keys), 'commands')
    check.sample('%d histories; a step: %s %s on %d lines' % (len(states), keys[-1][1], keys[-1][2], len(todo[keys[-1]])))

    check.section('whole histories in one process, inputs unmodified')
    code_import()
    from factorio_sat.blueprint_book import pack_book, unpack_book
    for ops, lines in states:
        if len(ops) >= conf['depth']:
            continue
        for shared in (False, True):
            memo = {}

            def obj(v):
                k = json.dumps(v, sort_keys=True)
                if shared and k in memo:
                    return memo[k]
                memo[k] = raw(v)
                return memo[k]
            objs = [obj(v) for v in lines]
            before = json.dumps(objs)
            book = pack_book(objs, 'x')
            if json.dumps(objs) != before:
                check.violation('packing modifies its input', {'before': json.loads(before), 'after': objs})
            got = [seen(x) for x in unpack_book(json.loads(json.dumps(book)))]
            if got != [value(v) for v in numbered(lines)] or book['blueprint_book'].get('label') != 'x':
                check.violation('packing then unpacking does not return the blueprints in order', {'blueprints': json.loads(before), 'got': got})
            again = pack_book([])
            if again['blueprint_book']['blueprints'] or 'label' in again['blueprint_book']:
                check.violation('a new book starts with what an earlier one held', {'book': again})
            check.count(1, 'in process')

    check.section('the shipped books')
    for path in sorted(glob.glob(os.path.join(REPO, 'books', '*.txt'))):
        text = open(path).read().strip()
        data = unpack(text)
        u = run_cli('blueprint_book', ['unpack'], stdin=text + '\n', timeout=120)
        items = [unpack(x) for x in u.out.splitlines()]
        if u.rc != 0 or items != data['blueprint_book']['blueprints']:
            check.violation('unpacking %s does not give its blueprints' % os.path.basename(path), {'stderr': u.err[-1000:]})
            continue
        p = run_cli('blueprint_book', ['pack', '--label', data['blueprint_book'].get('label', '')], stdin=u.out, timeout=120)
        if p.rc != 0 or seen(unpack(p.out.strip())) != seen(data):
            check.violation('unpacking and packing %s changes it' % os.path.basename(path), {'stderr': p.err[-1000:]})
        check.count(2, 'shipped books')


if __name__ == '__main__':
    main('C18', body)
