"""The published balancers (books/) at their real sizes: TLC and the generator must agree on them under every option."""
from rules import *
import corpus


def balancers():
    """(label, nodes, L, w, h, layout) of the published balancers with at most 12 splitters."""
    res = []
    for _, label, L, w, h, g in corpus.books():
        path = os.path.join(REPO, 'networks', label.replace(' to ', 'x'))
        with open(path) as f:
            nodes = [[int(x) for x in line.split()] for line in f if line.strip() and not line.startswith('#')]
        if len(nodes) <= 12:
            res.append((label, nodes, L, w, h, g))
    return res


def padded(g, w, h, top, bottom):
    return tuple([0] * (w * top) + list(g) + [0] * (w * bottom))


def flipped(g, w, h):
    """Mirror image top-bottom: a balancer again."""
    a = mirrored(list(g), w, h)
    for _ in range(2):
        a = turned(*a)
    return tuple(a[0])


def agree(check, confs, part, chunk=1):
    """confs have a field g and options; TLC's verdict and the generator's constraints must coincide."""
    verdicts = judge(confs, shards=4)
    groups = {}
    for c, v in zip(confs, verdicts):
        key = json.dumps({k: x for k, x in c.items() if k not in ('g',)}, sort_keys=True)
        groups.setdefault(key, []).append((c, v))

    def one(items):
        c = items[0][0]
        o = Oracle(capture('belt_balancer', [write_file(network_text(c['nodes'])), c['w'], c['h'], *options(c)]))
        res = [(c, v, o.accepts(c['g'])) for c, v in items]
        o.close()
        return res
    good = 0
    for res in pmap(one, [groups[k] for k in sorted(groups)]):
        for c, v, acc in res:
            name = balancer_name(c, options(c))
            if acc and v:
                check.violation('%s: the generator admits a layout that breaks: %s' % (name, ', '.join(v)), {'picture': show(c['g'], c['w']), 'nodes': c['nodes']})
            if not acc and not v:
                check.violation('%s: the generator excludes a layout that meets the request' % name, {'picture': show(c['g'], c['w']), 'nodes': c['nodes']})
            good += not v
            check.count(1, part)
    check.extra[part + '_that_meet_the_request'] = good
    return good
