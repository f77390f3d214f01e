"""D03: reading never changes an object, and no read influences a later one."""
from mc import reads, tables
from mc.obs import TYPES, observe_full, canon_tab
from mc.model import approx
from mc.hidden import dig
from mc.variants import MUTABLE, VIEWS, applicable, make
from mc.histories import describe
from mc.checks.D15 import EMPTYSKIP

PROPERTY = 'D03'
LEVEL = 'model_checking'
RULE = ('breadth-first search over the concrete states (data arrays, sort state, name tables, dtypes) an object reaches under calls of the '
        'read catalogue; in every reached state every call of the catalogue is made, its result must equal the result on a '
        'fresh object and the table, names, name and path must stay the same; the search ends when no read produces a new state')
ASSUMPTIONS = ['states are merged by a digest of the stored fields, so the closure covers read histories of any length up to the state limit',
               'numbers compared to 8 significant digits']
LIMIT = {'quick': 30, 'thorough': 40}
SKIP = {'repr'}


def tasks(tier):
    out = []
    for kind in ('numeric', 'mixed', 'empty'):
        for i, t in enumerate(getattr(tables, kind)()):
            for rtype in TYPES:
                if kind == 'mixed' and rtype == 'Sparse':
                    continue
                vs = MUTABLE + VIEWS
                if tier == 'quick':
                    vs = ['fresh', 'view', 'fullview'] + (['freversed', 'zeroed', 'pview', 'fview', 'view_t'] if rtype == 'Sparse' else [])
                for v in vs:
                    if applicable(t, rtype, v):
                        out.append([kind, i, rtype, v, LIMIT[tier]])
    return out


def watch(o):
    return (observe_full(o, approx), o.name, o.absolutePath, o.relativePath, tuple(o.dimensions))


def run_task(task, rec):
    kind, i, rtype, v, limit = task
    t = getattr(tables, kind)()[i]
    names = [n for n in reads.names() if n not in SKIP]
    base = make(t, rtype, v)
    base.name = 'nm'
    want = {}
    for n in names:
        o = make(t, rtype, v)
        o.name = 'nm'
        want[n] = reads.run(n, o)
    clean = watch(base)
    seen = {}
    o = make(t, rtype, v)
    o.name = 'nm'
    seen[dig(o)] = []
    frontier = [[]]
    while frontier:
        nxt = []
        for hist in frontier:
            o = None
            for n in names:
                if o is None:
                    o = make(t, rtype, v)
                    o.name = 'nm'
                    for h in hist:
                        reads.run(h, o)
                    start = dig(o)
                    rec.state((rtype, v, start))
                got = reads.run(n, o)
                rec.step()
                rec.outcome(got)
                d = dig(o)
                what = describe(rtype, t, [[h] for h in hist] + [[n]], v)
                if got != want[n] and not (kind == 'empty' and n in EMPTYSKIP):
                    rec.violation(what, 'result %r\non a fresh object %r' % (got, want[n]))
                if d != start:
                    # something stored has changed: the table must be the same
                    w = watch(o)
                    if w != clean:
                        rec.violation(what, 'object is\n%r\nwas\n%r' % (w, clean))
                        o = None
                        continue
                    if d not in seen and len(seen) < limit:
                        seen[d] = hist + [n]
                        nxt.append(hist + [n])
                        rec.trace()
                    o = None
            if o is not None and watch(o) != clean:
                rec.violation(describe(rtype, t, [['all reads']], v), 'object is\n%r\nwas\n%r' % (watch(o), clean))
        frontier = nxt
