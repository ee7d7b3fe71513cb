"""The published balancers of /repo/books as layouts."""
import glob
from lib import *
from c11 import unpack

GD = {0: 1, 2: 0, 4: 3, 6: 2}
VEC = ((1, 0), (0, -1), (-1, 0), (0, 1))


def entities_to_tiles(entities):
    """{(x, y): (kind, direction)}; kind in belt, in, out, head, tail."""
    t = {}
    for e in entities:
        x, y, d = e['position']['x'], e['position']['y'], GD[e.get('direction', 0)]
        n = e['name']
        if n.endswith('splitter'):
            dx, dy = VEC[(d + 1) % 4]
            t[int((x - dx / 2) // 1), int((y - dy / 2) // 1)] = ('head', d)
            t[int((x + dx / 2) // 1), int((y + dy / 2) // 1)] = ('tail', d)
        elif n.endswith('underground-belt'):
            t[int(x // 1), int(y // 1)] = ('in' if e['type'] == 'input' else 'out', d)
        elif n.endswith('transport-belt'):
            t[int(x // 1), int(y // 1)] = ('belt', d)
        else:
            raise MachineryError('unexpected entity ' + n)
    return t


def layout_of(entities):
    """(w, h, tile ids) with belt bends and splitter connections resolved from the neighbours."""
    t = entities_to_tiles(entities)
    x0, y0 = min(x for x, _ in t), min(y for _, y in t)
    w, h = max(x for x, _ in t) - x0 + 1, max(y for _, y in t) - y0 + 1
    t = {(x - x0, y - y0): v for (x, y), v in t.items()}

    def gives(p):
        k, d = t.get(p, (None, None))
        return d if k in ('belt', 'out', 'head', 'tail') else None

    ins, outs = {}, {}
    for p, (k, d) in t.items():
        if k == 'belt':
            feed = [f for f in range(4) if f != (d + 2) % 4 and gives((p[0] - VEC[f][0], p[1] - VEC[f][1])) == f]
            ins[p] = feed[0] if len(feed) == 1 else d
        elif k == 'in':
            ins[p] = d
    out = []
    for y in range(h):
        for x in range(w):
            p = (x, y)
            if p not in t:
                out.append(0)
                continue
            k, d = t[p]
            if k == 'belt':
                out.append(TILE_ID[BELT, ins[p], d, False])
            elif k == 'in':
                out.append(13 + d)
            elif k == 'out':
                out.append(17 + d)
            else:
                b = (x - VEC[d][0], y - VEC[d][1])
                f = (x + VEC[d][0], y + VEC[d][1])
                i = gives(b) == d if b in t else (0 > b[0] or b[0] >= w or 0 > b[1] or b[1] >= h)
                o = (ins.get(f) == d or t[f] in (('head', d), ('tail', d))) if f in t else (0 > f[0] or f[0] >= w or 0 > f[1] or f[1] >= h)
                out.append(TILE_ID.get((SPLIT, d if i else NONE, d if o else NONE, k == 'head'), 21 + 6 * d + (3 if k == 'head' else 0)))
    return w, h, tuple(out)


def books():
    """(book, label, level, w, h, layout), all different."""
    res, seen = [], set()
    for path in sorted(glob.glob(os.path.join(REPO, 'books', '*_*.txt'))):
        name = os.path.basename(path)[:-4]
        for item in unpack(open(path).read().strip())['blueprint_book']['blueprints']:
            bp = item['blueprint']
            key = (bp['label'], json.dumps(bp['entities'], sort_keys=True))
            if key in seen:
                continue
            seen.add(key)
            w, h, g = layout_of(bp['entities'])
            names = {e['name'] for e in bp['entities']}
            level = 8 if any('express' in n for n in names) else 6 if any('fast' in n for n in names) else 4
            res.append((name, bp['label'], level, w, h, g))
    return res
