"""D08: merge is the relational join of the two tables."""
import itertools
from mc.model import Tab, Rejected, Unspecified, missing, cell
from mc.obs import TYPES, build, observe_full, observe, canon_tab
from mc.variants import make, applicable, MUTABLE

PROPERTY = 'D08'
LEVEL = 'model_checking'
RULE = ('every pair of keyed tables of the generated families (all key assignments, all shared-feature value patterns '
        'including missing and conflicting ones, all partial point namings), every point/feature mode, every identifier form, '
        'every storage type of either side; state = (left, right, mode)')
ASSUMPTIONS = ['two or three rows per side, keys from a three element alphabet, no missing keys',
               'sorting ties of a union merge on a feature are compared as a multiset of rows']
NAN = float('nan')
MODES = ['strict', 'left', 'union', 'intersection']


def same(a, b):
    return cell(a) == cell(b)


def fill(a, b):
    """Value of a shared cell."""
    if missing(a):
        return b
    if missing(b) or same(a, b):
        return a
    raise Rejected('conflict')


def nameless(L, R, on, point, feature, force):
    """Names are required: an object without any may be refused (it depends
    on whether default names were generated before)."""
    if on is None and not (any(L.pn) and any(R.pn)) and not (point == 'strict' and force):
        return True
    return not (any(L.fn) and any(R.fn)) and not (feature == 'strict' and force)


def model_merge(L, R, point, feature, on, force):
    """-> (Tab, unordered)"""
    if point == 'strict' and feature == 'strict':
        raise Rejected()
    if point == 'strict':
        L, R, back = strict(L, R, on, force)
        out = join(L, R, 'intersection', feature, on)[0]
        if back is not None:
            out.pn = list(back)
        return out, False
    if feature == 'strict':
        l2, r2, back = strict(L.T, R.T, None, force)
        L, R = l2.T, r2.T
        out, uno = join(L, R, point, 'intersection', on)
        if back is not None:
            out.fn = list(back)
        return out, uno
    return join(L, R, point, feature, on)


def strict(L, R, on, force):
    if L.np != R.np:
        raise Rejected()
    if on is not None:
        k = col(L, on)
        kr = col(R, on)
        kl = [cell(r[k]) for r in L.rows]
        k2 = [cell(r[kr]) for r in R.rows]
        if len(set(kl)) != len(kl) or sorted(map(str, kl)) != sorted(map(str, k2)):
            raise Rejected()
        return L, R, None
    L, R = L.copy(), R.copy()
    la, ra = all(x is not None for x in L.pn), all(x is not None for x in R.pn)
    ln, rn = any(x is not None for x in L.pn), any(x is not None for x in R.pn)
    if la and ra:
        if sorted(L.pn) != sorted(R.pn):
            raise Rejected()
        return L, R, None
    if not force:
        raise Rejected()
    names = []
    for a, b in zip(L.pn, R.pn):
        if a is not None and b is not None and a != b:
            raise Rejected()
        names.append(a if a is not None else b)
    real = [x for x in names if x is not None]
    if len(set(real)) != len(real):
        raise Rejected()
    tmp = [x if x is not None else '\0%d' % i for i, x in enumerate(names)]
    L.pn, R.pn = list(tmp), list(tmp)
    return L, R, names


def col(T, on):
    if isinstance(on, str):
        if on not in T.fn:
            raise Rejected()
        return T.fn.index(on)
    return on % T.nf


def join(L, R, point, feature, on):
    if on is None:
        kl = [x if x is not None else ('l', i) for i, x in enumerate(L.pn)]
        kr = [x if x is not None else ('r', i) for i, x in enumerate(R.pn)]
    else:
        if not isinstance(on, str):
            if on >= L.nf or on >= R.nf or L.fn[on] != R.fn[on] or L.fn[on] is None:
                raise Rejected()
            on = L.fn[on]
        a, b = col(L, on), col(R, on)
        kl = [cell(r[a]) for r in L.rows]
        kr = [cell(r[b]) for r in R.rows]
        if 'NA' in kl or 'NA' in kr:
            raise Unspecified()
        if len(set(kl)) != len(kl) and len(set(kr)) != len(kr):
            raise Rejected()
    shared = [x for x in L.fn if x is not None and x in R.fn]
    lsh = [L.fn.index(x) for x in shared]
    rsh = [R.fn.index(x) for x in shared]
    ronly = [j for j in range(R.nf) if j not in rsh]
    rows, names, keys = [], [], []
    for i, r in enumerate(L.rows):
        match = [j for j in range(R.np) if kr[j] == kl[i]]
        for j in match:
            row = list(r)
            for a, b in zip(lsh, rsh):
                row[a] = fill(r[a], R.rows[j][b])
            rows.append(row + [R.rows[j][c] for c in ronly])
            names.append(L.pn[i])
            keys.append(kl[i])
        if not match and point in ('left', 'union'):
            rows.append(list(r) + [NAN] * len(ronly))
            names.append(L.pn[i])
            keys.append(kl[i])
    if point == 'union':
        for j, r in enumerate(R.rows):
            if kr[j] not in kl:
                row = [NAN] * L.nf
                for a, b in zip(lsh, rsh):
                    row[a] = r[b]
                rows.append(row + [r[c] for c in ronly])
                names.append(R.pn[j])
                keys.append(kr[j])
    fn = list(L.fn) + [R.fn[c] for c in ronly]
    keep = list(range(len(fn)))
    if feature == 'left':
        keep = list(range(L.nf))
    elif feature == 'intersection':
        keep = lsh
    if on is not None:
        names = [None] * len(rows)
        if point == 'union':
            order = sorted(range(len(rows)), key=lambda i: (isinstance(keys[i], str), keys[i]))
            rows = [rows[i] for i in order]
    out = Tab([[r[c] for c in keep] for r in rows], names, [fn[c] for c in keep], len(keep))
    return out, on is not None and point == 'union'


# ------------------------------------------------------------------ families
def keyed(side, keys, shared, kpos, names=None, extra=True):
    """Table with key feature k, shared feature s and a private feature."""
    cols = [('k', keys), ('s', shared)]
    if extra:
        cols.append((side, [(5 if side == 'l' else 7) * (i % 2) + i for i in range(len(keys))]))
    if kpos == 'last':
        cols = cols[::-1]
    elif kpos == 'mid':
        cols = [cols[1], cols[0]] + cols[2:]
    rows = [[c[1][i] for c in cols] for i in range(len(keys))]
    return Tab(rows, names, [c[0] for c in cols])


SH = [([0, 1], [0, 1]), ([0, NAN], [1, 0]), ([1, 2], [NAN, NAN]), ([2, 0], [2, 2]), ([NAN, NAN], [1, 2])]


def keyfam(n, m, alphabet):
    return [(list(a), list(b)) for a in itertools.product(alphabet, repeat=n)
            for b in itertools.product(alphabet, repeat=m)]


def namings(n):
    out = []
    for a in itertools.product(['a', 'b', 'c', None], repeat=n):
        real = [x for x in a if x]
        if len(set(real)) == len(real):
            out.append(list(a))
    return out


def cases(fam, tier):
    """(left, right, modes, on choices, forces)"""
    q = tier == 'quick'
    allmodes = [(p, f) for p in MODES for f in MODES]
    if fam in ('keys', 'strkeys'):
        alpha = [0, 1, 2] if fam == 'keys' else ['v', 'u', 'w']
        for a, b in keyfam(2, 2, alpha):
            for n, (s, t) in enumerate(SH):
                if q and fam == 'strkeys' and n not in (1, 2):
                    continue
                if q and n in (0, 3) and (a[0] == a[1] and b[0] == b[1]):
                    continue
                kp = ('first', 'mid', 'last')
                yield (keyed('l', a, s, kp[n % 3]), keyed('r', b, t, kp[(n // 2) % 3]),
                       [m for m in allmodes if 'strict' not in m or n == 0], ['k'], [False])
    elif fam == 'idx':
        for a, b in keyfam(2, 2, [0, 1]):
            for pos, on in (('first', 0), ('mid', 1), ('first', 1)):
                yield (keyed('l', a, [3, 4], pos), keyed('r', b, [3, 4], pos), allmodes, [on], [False])
    elif fam == 'three':
        for a, b in keyfam(3, 2, [0, 1, 2]) + keyfam(2, 3, [0, 1, 2]):
            if q and (a[0] > 1):
                continue
            s = [NAN, 1, 0][:len(a)]
            t = [1, NAN, 0][:len(b)]
            yield (keyed('l', a, s, 'mid'), keyed('r', b, t, 'first', None, len(b) == 2),
                   [m for m in allmodes if 'strict' not in m] if not q else
                   [('union', 'union'), ('left', 'union'), ('intersection', 'left'), ('union', 'intersection')], ['k'], [False])
    elif fam == 'shared':
        vals = [0, 1, NAN]
        for s in itertools.product(vals, repeat=2):
            for t in itertools.product(vals, repeat=2):
                yield (keyed('l', [1, 0], s, 'first'), keyed('r', [0, 1], t, 'last'),
                       [m for m in allmodes if 'strict' not in m or m[0] == 'strict'], ['k'], [False])
                yield (keyed('l', [8, 9], s, 'first', ['a', 'b']), keyed('r', [NAN, 9], t, 'last', ['b', 'c']),
                       [m for m in allmodes if m[1] != 'strict'], [None], [False])
    elif fam == 'names':
        for a in namings(2):
            for b in namings(2):
                for s, t in ((([1, 2], [1, 2]), ([0, NAN], [NAN, 0])) if not q else (([0, NAN], [NAN, 0]),)):
                    yield (keyed('l', [NAN, NAN], s, 'mid', a), keyed('r', [0, 4], t, 'last', b), allmodes, [None], [False, True])
    elif fam == 'names3':
        for a in namings(3):
            for b in namings(2):
                if q and a[2] is None:
                    continue
                yield (keyed('l', [NAN, 0, 0], [NAN, 1, 0], 'mid', a), keyed('r', [0, 0], [NAN, NAN], 'first', b),
                       [('union', 'union'), ('left', 'union'), ('intersection', 'union'), ('union', 'left'), ('union', 'intersection')],
                       [None], [False])
    elif fam == 'fnames':
        fns = [['x', 'y'], ['y', 'x'], ['x', None], [None, 'y'], [None, None], ['x', 'z']]
        for fa in fns:
            for fb in fns:
                for pa, pb in ((['a', 'b'], ['b', 'a']), (['a', None], ['b', 'a'])):
                    yield (Tab([[1, 2], [3, 4]], pa, fa), Tab([[3, 4], [1, 2]] if pa[1] else [[5, 0], [1, 2]], pb, fb),
                           allmodes, [None, 'x'], [False, True])
    elif fam == 'disjoint':
        for s in itertools.product([0, 1], repeat=2):
            L = Tab([[s[0]], [s[1]]], ['a', 'b'], ['x'])
            for nm in (['a', 'b'], ['b', 'a'], ['c', 'd'], ['b', 'd']):
                R = Tab([[0, 6], [7, 0]], nm, ['y', 'z'])
                yield (L, R, allmodes, [None, 'x'], [False])
                yield (R, L, allmodes, [None, 'x'], [False])


FAMS = ['keys', 'strkeys', 'idx', 'three', 'shared', 'names', 'names3', 'fnames', 'disjoint']


def tasks(tier):
    out = []
    for fam in FAMS:
        n = len(list(cases(fam, tier)))
        for rtype in TYPES:
            if fam == 'strkeys' and rtype == 'Sparse':
                continue
            step = max(8, min(60, n // 4))
            for i in range(0, n, step):
                out.append([fam, tier, rtype, rtype, 'fresh', 'fresh', i, i + step])
            # other type, other hidden states and views on either side
            combos = [(t, 'fresh', 'fresh') for t in TYPES if t != rtype and not (fam == 'strkeys' and t == 'Sparse')]
            combos += [(rtype, v, w) for v, w in (('transposed', 'view'), ('extracted', 'preversed'), ('sorted', 'view_t'),
                                                  ('zeroed', 'fullview'), ('appended', 'viewcopy'), ('freversed', 'fread'))]
            for j, (t, v, w) in enumerate(combos):
                if tier == 'quick' and n > 60:
                    lo = (j * 37) % max(1, n - 10)
                    out.append([fam, tier, rtype, t, v, w, lo, lo + 10])
                else:
                    out.append([fam, tier, rtype, t, v, w, 0, n])
    return out


def run_task(task, rec):
    fam, tier, lt, rt, lv, rv, lo, hi = task
    for L, R, modes, ons, forces in list(cases(fam, tier))[lo:hi]:
        if not applicable(L, lt, lv) or not applicable(R, rt, rv):
            lv2, rv2 = 'fresh', 'fresh'
        else:
            lv2, rv2 = lv, rv
        right = make(R, rt, rv2)
        rec.state((canon_tab(L), canon_tab(R)))
        rec.trace()
        for (point, feature), on, force in itertools.product(modes, ons, forces):
            if force and tier == 'quick' and 'strict' not in (point, feature):
                continue
            try:
                want, unordered = model_merge(L, R, point, feature, on, force)
                rej = False
            except Rejected:
                rej = True
            except Unspecified:
                continue
            left = make(L, lt, lv2)
            key = '%s%s+%s%s %s %s :: %s' % (lt, '' if lv2 == 'fresh' else '/' + lv2, rt, '' if rv2 == 'fresh' else '/' + rv2,
                                             L, R, [point, feature, on, force])
            err = None
            try:
                ret = left.merge(right, point=point, feature=feature, onFeature=on, force=force, useLog=False)
            except Exception as e:  # noqa
                err = e
            rec.step()
            if rej:
                rec.rejected += 1
                if err is None:
                    rec.violation(key, 'must be refused, got %r' % (observe(left),))
                    continue
                got = safe(left)
                if got != canon_tab(L):
                    rec.violation(key, 'a refused merge left %r, was %r' % (got, canon_tab(L)))
            elif err is not None:
                if nameless(L, R, on, point, feature, force):
                    rec.rejected += 1
                    got = safe(left)
                    if got != canon_tab(L):
                        rec.violation(key, 'a refused merge left %r, was %r' % (got, canon_tab(L)))
                    continue
                rec.violation(key, 'raised %s: %s; expected %r' % (type(err).__name__, str(err)[:200], want))
                continue
            else:
                got = safe(left)
                exp = canon_tab(want)
                rec.outcome(got)
                if want.np == 0 or want.nf == 0:
                    got, exp = (got[0] if got[0] != 'bad' else got), exp[0]
                elif unordered and len(got) == 4:
                    got = (got[0], srt(got[1]), got[2], got[3])
                    exp = (exp[0], srt(exp[1]), exp[2], exp[3])
                    if on in want.fn or not isinstance(on, str):
                        k = want.fn.index(on) if isinstance(on, str) else None
                        if k is not None:
                            ks = [r[k] for r in observe(left)[1]]
                            if ks != sorted(ks):
                                rec.violation(key, 'union on a feature is not sorted: %r' % ks)
                if got != exp:
                    rec.violation(key, 'got %r\nexpected %r' % (got, exp))
            if safe(right) != canon_tab(R):
                rec.violation(key, 'the argument changed: %r' % (safe(right),))
                right = make(R, rt, rv2)


def srt(rows):
    return tuple(sorted(rows, key=repr))


def safe(o):
    try:
        return observe_full(o)
    except Exception as e:  # noqa
        return ('bad', type(e).__name__ + ': ' + str(e)[:300])
