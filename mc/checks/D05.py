"""D05: a view is the exact, read-only window of its source."""
import functools
from mc import reads
from mc.mutators import M
from mc.model import Tab
from mc.obs import TYPES, build, observe_full, observe, canon_tab
from mc.variants import make, applicable
from mc.tables import NAN

PROPERTY = 'D05'
LEVEL = 'model_checking'
RULE = ('every window of every source table (bounds given by index, negative index and name), every window of every window, in every '
        'storage type and hidden state of the source; on each view every call of the read catalogue is compared with the same call on a '
        'standalone object holding the window, and every modifying call must be refused; after each call the source and the view are '
        'compared with the model')
ASSUMPTIONS = ['sources up to 3x4', 'the source is not modified while a view of it is in use (documented restriction)']

SOURCES = [
    Tab([[1, 0, 2], [0, 3, 0], [2, 1, 1]], ['a', 'b', 'c'], ['x', 'y', 'z']),
    Tab([[0, 0.5, 0, 2], [-1, 2, 0, 0], [0, 0, 5, 1]], ['a', None, 'c'], [None, 'y', 'z', None]),
    Tab([[NAN, 1, 0], [0, 2, NAN], [1, 1, 0]], None, None),
    Tab([['u', 0, 1], ['v', 1, 0], ['u', 2, 2]], ['a', 'b', 'c'], ['x', 'y', 'z']),
]
VARIANTS = ['fresh', 'transposed', 'freversed', 'sorted', 'fread', 'zeroed']
NANSKIP = {'matmul', 'matmul sparse', 'rmatmul', 'matmul self', 'points.sim dot product', 'features.sim dot product', 'merge on'}
SKIP = {'type', 'repr', 'name/path', 'str', 'toString', 'toString lim', 'toString opts', 'toString pts'}


def cut(t, ps, pe, fs, fe):
    return Tab([r[fs:fe + 1] for r in t.rows[ps:pe + 1]], t.pn[ps:pe + 1], t.fn[fs:fe + 1], fe - fs + 1)


def windows(n, w):
    return [(a, b, c, d) for a in range(n) for b in range(a, n) for c in range(w) for d in range(c, w)]


def forms(t, win):
    """The same window addressed in every way."""
    n, w = t.shape
    ps, pe, fs, fe = win
    out = [win, (ps - n, pe - n, fs - w, fe - w)]
    nm = (t.pn[ps], t.pn[pe], t.fn[fs], t.fn[fe])
    mixed = tuple(x if x is not None else i for x, i in zip(nm, win))
    if mixed != win:
        out.append(mixed)
    opt = (None if ps == 0 else ps, None if pe == n - 1 else pe, None if fs == 0 else fs, None if fe == w - 1 else fe)
    if opt != win:
        out.append(opt)
    return out


@functools.lru_cache(maxsize=4000)
def _ref(key, rtype, name):
    rows, pn, fn, nf = key
    t = Tab(rows, pn, fn, nf)
    return reads.notype(reads.run(name, build(t, rtype)))


def ref(t, rtype, name):
    return _ref((tuple(tuple(r) for r in t.rows), tuple(t.pn), tuple(t.fn), t.nf), rtype, name)


def tasks(tier):
    out = []
    for s in range(len(SOURCES)):
        for rtype in TYPES:
            if s == 3 and rtype == 'Sparse':
                continue
            for k, v in enumerate(VARIANTS):
                if not applicable(SOURCES[s], rtype, v):
                    continue
                out.append(['windows', s, rtype, v, tier])
                if tier != 'quick' or v in ('fresh', 'freversed', 'zeroed'):
                    out.append(['mutate', s, rtype, v, tier])
                wins = len(windows(*SOURCES[s].shape))
                if tier == 'quick' and v not in ('fresh', 'freversed'):
                    out.append(['reads', s, rtype, v, tier, 0, wins, 12])
                else:
                    for lo in range(0, wins, 12):
                        out.append(['reads', s, rtype, v, tier, lo, lo + 12, 3 if tier == 'quick' else 1])
    return out


def run_task(task, rec):
    kind, s, rtype, v, tier = task[:5]
    t = SOURCES[s]
    o = make(t, rtype, v)
    want0 = canon_tab(t)
    wins = windows(*t.shape)
    base = '%s/%s %s' % (rtype, v, t)
    if kind == 'windows':
        for win in wins:
            wt = cut(t, *win)
            for f in forms(t, win):
                rec.step()
                compare(rec, '%s :: view%r' % (base, f), lambda: o.view(*f), wt)
            rec.state((rtype, v, canon_tab(wt)))
            ow = o.view(*win)
            for sub in windows(*wt.shape):
                if tier == 'quick' and v not in ('fresh', 'freversed') and sub[0] + sub[2] != 1:
                    continue
                st = cut(wt, *sub)
                for f in forms(wt, sub):
                    rec.step()
                    compare(rec, '%s :: view%r.view%r' % (base, win, f), lambda: ow.view(*f), st)
            for i in range(wt.np):
                for x in {i, i - wt.np, wt.pn[i] if wt.pn[i] is not None else i}:
                    rec.step()
                    compare(rec, '%s :: view%r.pointView(%r)' % (base, win, x), lambda: ow.pointView(x), cut(wt, i, i, 0, wt.nf - 1))
            for j in range(wt.nf):
                for x in {j, j - wt.nf, wt.fn[j] if wt.fn[j] is not None else j}:
                    rec.step()
                    compare(rec, '%s :: view%r.featureView(%r)' % (base, win, x), lambda: ow.featureView(x), cut(wt, 0, wt.np - 1, j, j))
        # windows which do not exist
        n, w = t.shape
        for f in [(1, 0, 0, 0), (0, 0, 1, 0), (0, n, 0, 0), (0, 0, 0, w), (-n - 1, 0, 0, 0), ('nope', None, None, None), (2, -n, None, None)]:
            rec.step()
            rec.rejected += 1
            try:
                got = observe(o.view(*f))
            except Exception:
                continue
            if 0 in got[0]:
                continue   # an empty window
            rec.violation('%s :: view%r' % (base, f), 'must be refused; got %r' % (got,))
        rec.trace()
        if safe(o) != want0:
            rec.violation('%s :: views' % base, 'taking views changed the source: %r' % (safe(o),))
        return
    if kind == 'mutate':
        for win in wins:
            wt = cut(t, *win)
            exp = canon_tab(wt)
            for depth in (1, 2):
                for name, f in M:
                    key = '%s :: view%r%s then %s' % (base, win, ' of a view' if depth == 2 else '', name)
                    vw = o.view(*win) if depth == 1 else o.view().view(*win)
                    rec.step()
                    rec.rejected += 1
                    try:
                        f(vw)
                    except Exception as e:  # noqa
                        err = e
                    else:
                        err = None
                    src, now = (quick(o), quick(vw)) if tier == 'quick' and name != M[-1][0] else (safe(o), safe(vw))
                    if src != want0:
                        rec.violation(key, 'the source changed to %r' % (src,))
                        o = make(t, rtype, v)
                    elif now != exp:
                        rec.violation(key, 'the view changed to %r, window is %r' % (now, exp))
                    elif err is None and not harmless(name, wt):
                        rec.violation(key, 'modifying a view was not refused')
                if tier == 'quick' and depth == 1 and win != (0, 1, 0, 1):
                    break
        rec.trace()
        return
    lo, hi, every = task[5:8]
    names = [n for n in reads.names() if n not in SKIP]
    for wi, win in list(enumerate(wins))[lo:hi]:
        wt = cut(t, *win)
        exp = canon_tab(wt)
        vw = o.view(*win)
        flat = [x for r in wt.rows for x in r]
        hasnan = any(isinstance(x, float) and x != x for x in flat)
        hasstr = any(isinstance(x, str) for x in flat)
        for ni, name in enumerate(names):
            if (ni + wi) % every:
                continue
            if hasnan and name in NANSKIP or hasstr and ('arith' in reads.R[name][1] or name == 'calculate err') or s == 3 and 'scipy' in name:
                continue
            got = reads.notype(reads.run(name, vw))
            want = ref(wt, rtype, name)
            rec.step()
            key = '%s :: view%r then %s' % (base, win, name)
            if got != want:
                rec.violation(key, 'got %r\nstandalone object gives %r' % (got, want))
            src = quick(o)
            if src != want0:
                rec.violation(key, 'the source changed to %r' % (src,))
                o = make(t, rtype, v)
                vw = o.view(*win)
        now = safe(vw)
        if now != exp:
            rec.violation('%s :: view%r after all reads' % (base, win), 'the view is %r, window is %r' % (now, exp))
        rec.trace()


def harmless(name, t):
    """Calls that do not change such an object anyway."""
    return False


def compare(rec, key, f, want):
    try:
        got = observe_full(f())
    except Exception as e:  # noqa
        rec.violation(key, 'raised %s: %s; expected %r' % (type(e).__name__, str(e)[:200], want))
        return
    if got != canon_tab(want):
        rec.violation(key, 'got %r\nexpected %r' % (got, canon_tab(want)))


def quick(o):
    try:
        return observe(o)
    except Exception as e:  # noqa
        return ('bad', type(e).__name__ + ': ' + str(e)[:300])


def safe(o):
    try:
        return observe_full(o)
    except Exception as e:  # noqa
        return ('bad', type(e).__name__ + ': ' + str(e)[:300])
