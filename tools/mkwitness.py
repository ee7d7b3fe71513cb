"""Records layouts of larger requests in harness/witness.json.  Run on a tree where the checks pass; the checks have TLC judge every one."""
import json
import os
import random
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from rules import *
import c06
import c07
import c08


def one(job):
    name, tool, args = job
    return name, [m for m in sample_grid(capture(tool, args), 8, random.Random('witness/' + name)) if all(isinstance(t, int) for t in m)]


def crossing(grid):
    """Somewhere one underground passes beneath another's tiles crosswise."""
    found = []
    for tile in grid.iterate_tiles():
        for a in (0, 2):
            for b in (1, 3):
                x = grid.allocate_variable()
                found.append(x)
                grid.clauses += [[-x, tile.underground[a]], [-x, tile.underground[b]]]
    grid.clauses.append(found)


def longest(axis):
    """An underground as long as allowed along the axis."""
    def f(grid):
        found = []
        L = int(min(grid.underground_length, (grid.height if axis else grid.width) - 2))
        for d in (axis, axis + 2):
            dx, dy = ((1, 0), (0, -1), (-1, 0), (0, 1))[d]
            for px in range(grid.width):
                for py in range(grid.height):
                    ts = [grid.get_tile_instance_offset(px, py, dx * i, dy * i) for i in range(L)]
                    if L and None not in ts:
                        x = grid.allocate_variable()
                        found.append(x)
                        grid.clauses += [[-x, t.underground[d]] for t in ts]
        grid.clauses.append(found)
    return f


def origin(entrance):
    """The first tile is an end of an underground."""
    def f(grid):
        t = grid.get_tile_instance(0, 0)
        grid.clauses.append([t.is_underground_in if entrance else t.is_underground_out])
    return f


FEATURES = [crossing, longest(0), longest(1), origin(True), origin(False)]


def special(name, tool, args, f, out):
    grid = capture(tool, args)
    f(grid)
    out.put((name, [m for m in sample_grid(grid, 2, random.Random('witness/' + name)) if all(isinstance(t, int) for t in m)]))


def specials(jobs, seconds=40):
    """Layouts with each feature; a request that takes too long is given up."""
    import multiprocessing
    import threading
    ctx = multiprocessing.get_context('fork')
    res = []

    def one(job, f):
        def run():
            out = ctx.Queue()
            p = ctx.Process(target=special, args=job + (f, out))
            p.start()
            try:
                res.append(out.get(timeout=seconds))
            except Exception:
                pass
            p.kill()
        return run
    todo = [one(j, f) for j in jobs for f in FEATURES]

    def worker():
        while todo:
            todo.pop()()
    ts = [threading.Thread(target=worker) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return sorted(res)


def record(check):
    jobs = [(c06.name_of(c), 'net_free', c06.args_of(c)) for c in (c06.conf(*a) for a in c06.BIG + c06.BIGGER)]
    jobs += [(c06.p2_name(c), 'pow2', c06.p2_args(c)) for c in c06.p2_big(False)]
    jobs += [(c07.name_of(c), 'interchange', c07.args_of(c)) for c in c07.larger(False)]
    jobs += [(c08.name(c), 'make_block', c08.block_args(c)) for c in c08.larger()]
    if 'special' in sys.argv:      # keep the others
        with open(os.path.join(HERE, 'harness', 'witness.json')) as f:
            got = json.load(f)
    else:
        got = dict(pmap(one, jobs))
    for k, v in specials([j for j in jobs if j[1] == 'make_block']):
        got.setdefault(k, [])
        got[k] += [m for m in v if m not in got[k]]
    with open(os.path.join(HERE, 'harness', 'witness.json'), 'w') as f:
        f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(got[k], separators=(',', ':'))) for k in sorted(got)) + '\n}\n')
    for k, v in sorted(got.items()):
        print(len(v), k)


if __name__ == '__main__':
    record(None)
