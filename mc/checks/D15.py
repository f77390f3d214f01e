"""D15: results depend only on the observable table, not on storage type or history."""
import functools
from mc import reads, tables
from mc.obs import TYPES, observe, canon_tab
from mc.model import approx
from mc.variants import MUTABLE, VIEWS, applicable, make
from mc.histories import describe

PROPERTY = 'D15'
LEVEL = 'model_checking'
RULE = ('every call of the read catalogue on every initial table, in every storage type, reached through every '
        'hidden-state variant and view; the oracle is the same call on a freshly created List object; '
        'state = (type, variant, table)')
ASSUMPTIONS = ['numbers compared to 8 significant digits', 'tables up to 4x3 over {0,1,2,3,-1,0.5,NaN} and short strings, '
               'no strings in Sparse objects']
SKIP = {'type', 'repr'}


@functools.lru_cache(maxsize=None)
def reference(kind, i, name):
    t = getattr(tables, kind)()[i]
    return reads.notype(reads.run(name, make(t, 'List', 'fresh')))


def refused(c):
    return isinstance(c, tuple) and c and c[0] == 'raised'


EMPTYSKIP = {'features.unique'}
BOOLV = {'fresh', 'transposed', 'preversed', 'freversed', 'fread', 'pread', 'appended', 'fullview'}
NANDOT = {'matmul', 'matmul sparse', 'rmatmul', 'matmul self', 'points.sim dot product', 'features.sim dot product',
          'merge on'}


def skip(kind, i, t, rtype, v, name):
    """Cases the documentation leaves open or the installed libraries refuse."""
    if kind == 'empty' and name in EMPTYSKIP:
        return True
    flat = [x for r in t.rows for x in r]
    g = reads.R[name][1]
    if any(isinstance(x, float) and x != x for x in flat) and name in NANDOT:
        return True   # NaN times a zero which is not stored; NaN as a key
    if any(isinstance(x, bool) for x in flat):
        return ('arith' in g or name in ('calculate err',)
                or (rtype == 'Sparse' and name == 'features.calculate'))
    if any(isinstance(x, str) for x in flat):
        return 'scipy' in name or 'calculate err' == name or 'arith' in g
    return False


def tasks(tier):
    out = []
    for kind in ('numeric', 'mixed', 'empty'):
        for i, t in enumerate(getattr(tables, kind)()):
            for rtype in TYPES:
                if kind == 'mixed' and rtype == 'Sparse' and i != 2:
                    continue
                for v in MUTABLE + VIEWS:
                    if kind == 'mixed' and i == 2 and v not in BOOLV:
                        continue
                    if applicable(t, rtype, v):
                        out.append([kind, i, rtype, v])
    return out


def run_task(task, rec):
    kind, i, rtype, v = task
    t = getattr(tables, kind)()[i]
    o = make(t, rtype, v)
    rec.state((rtype, v, canon_tab(t)))
    for name in reads.names():
        if name in SKIP or 'text' in reads.R[name][1]:
            continue
        o = make(t, rtype, v)
        got = reads.notype(reads.run(name, o))
        want = reference(kind, i, name)
        rec.step()
        rec.outcome(got)
        if skip(kind, i, t, rtype, v, name):
            continue
        if kind == 'empty' and (refused(got) or refused(want)):
            continue
        if got != want:
            rec.violation(describe(rtype, t, [[name]], v), 'got %r\nList %r' % (got, want))
    rec.trace(len(reads.names()))
