"""D11: nimble.data from in-memory sources gives exactly the table described."""
import copy
import itertools
import numpy as np
import pandas as pd
import scipy.sparse as sp
import nimble
from mc.model import Tab, approx, cell
from mc.obs import TYPES, observe, observe_full, build, canon_tab
from mc.core import h64

PROPERTY = 'D11'
LEVEL = 'model_checking'
RULE = ('every source form (nested lists and tuples, iterators, numpy arrays of several types, matrices, scipy formats with unsorted, '
        'duplicate and explicit zero entries, pandas objects, dicts, lists of dicts / arrays / nimble objects, nimble objects and views) x '
        'orientation x form of the names on each axis x returnType x (keepPoints, keepFeatures) x (treatAsMissing, replaceMissingWith) x '
        'convertToType over tables of every shape; the result is compared with a table model, refusals with the documented conditions')
ASSUMPTIONS = ['sources holding numbers as python objects are not turned into Sparse objects: the installed scipy refuses them',
               'automatic detection of names in in-memory data is not asserted (tables where it could apply are not used with automatic)',
               'conversion of mixed numbers to str is not asserted (depends on the number type of the storage)']
NAN = float('nan')


def istext(v):
    return isinstance(v, str)


# ---------------------------------------------------------------- tables
def tabs(tier):
    out = [
        Tab([[1, 0, 2], [0, 3, 0]]),
        Tab([[0, 5], [7, 0], [0, 0]]),
        Tab([[1.5, 0, -2]]),
        Tab([[0], [4]]),
        Tab([[NAN, 1], [0, NAN]]),
        Tab([['u', 0, 1], ['v', 2, 0]]),
        Tab([['u', 'v'], ['w', 'u']]),
        Tab([[3]]),
        Tab([[None, 'a'], ['', 2], ['nan', 'NA']]),
    ]
    if tier == 'thorough':
        out += [Tab([[1, 2, 3], [4, 5, 6], [7, 8, 0]]), Tab([[0, 0], [0, 0]]), Tab([['1', '2'], ['3', '0']]), Tab([[True, False], [False, True]]),
                Tab([[0, 0, 0, 9]]), Tab([['u']])]
    return out


def numeric(t):
    return all(not istext(v) and v is not None for r in t.rows for v in r)


# ---------------------------------------------------------------- sources
# form -> function(rows, pn, fn, n, w) -> source; pn / fn: names carried by the source or None
def embed(rows, pn, fn, corner='corner'):
    rows = [list(r) for r in rows]
    if pn is not None:
        rows = [[p] + r for p, r in zip(pn, rows)]
    if fn is not None:
        rows = [([corner] if pn is not None else []) + list(fn)] + rows
    return rows


def dup_coo(rows):
    """coo with entries in another order, an explicit zero and a value split in two."""
    r, c, d = [], [], []
    n, w = len(rows), len(rows[0])
    for i in reversed(range(n)):
        for j in reversed(range(w)):
            v = rows[i][j]
            if v == 0:
                if (i + j) % 2:
                    r.append(i), c.append(j), d.append(0)
            elif (i + j) % 2 == 0 and v == v:
                r += [i, i]
                c += [j, j]
                d += [v - 1, 1]
            else:
                r.append(i), c.append(j), d.append(v)
    return sp.coo_matrix((np.array(d, dtype=float if any(x != int(x) if x == x else True for x in d) else int), (r, c)), shape=(n, w))


def objarr(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    return a


# name: (maker(rows) from a block which already contains embedded names, requirement)
OBJ = ('object array', 'flat array', 'dataframe obj', 'arrays in list')
RAW = {
    'lists': (lambda b: b, None),
    'tuples in list': (lambda b: [tuple(r) for r in b], None),
    'lists in tuple': (lambda b: tuple(b), None),
    'tuples': (lambda b: tuple(tuple(r) for r in b), None),
    'iterator': (lambda b: iter(b), None),
    'arrays in list': (lambda b: [objarr([r])[0] for r in b], None),
    'object array': (objarr, None),
    'float array': (lambda b: np.array(b, dtype=float), 'num'),
    'int array': (lambda b: np.array(b, dtype=int), 'int'),
    'F array': (lambda b: np.asfortranarray(np.array(b, dtype=float)), 'num'),
    'strided array': (lambda b: np.repeat(np.repeat(np.array(b, dtype=float), 2, 0), 2, 1)[::2, ::2], 'num'),
    'str array': (lambda b: np.array(b, dtype=str), 'str'),
    'matrix': (lambda b: np.matrix(b, dtype=float), 'num'),
    'csr': (lambda b: sp.csr_matrix(np.array(b, dtype=float)), 'num'),
    'csc': (lambda b: sp.csc_matrix(np.array(b, dtype=float)), 'num'),
    'coo': (lambda b: sp.coo_matrix(np.array(b, dtype=float)), 'num'),
    'coo dup': (dup_coo, 'num'),
    'lil': (lambda b: sp.lil_matrix(np.array(b, dtype=float)), 'num'),
}


def req(kind, block):
    vals = [v for r in block for v in r]
    if kind is None:
        return True
    if kind == 'str':
        return all(istext(v) for v in vals)
    num = all(isinstance(v, (int, float)) for v in vals)
    if kind == 'num':
        return num
    return num and all(v == v and v == int(v) for v in vals)


def sources(t):
    """yields (label, axis names given by True, names used when automatic, function() -> source)"""
    n, w = t.shape
    P = ['p%d' % i for i in range(n)]
    F = ['f%d' % j for j in range(w)]
    for form, (mk, kind) in RAW.items():
        for ep, ef in itertools.product((False, True), repeat=2):
            if (ep or ef) and kind not in (None, 'str'):
                # numeric names
                p = [20 + i for i in range(n)] if ep else None
                f = [30 + j for j in range(w)] if ef else None
                block = embed(t.rows, p, f, 99)
                if form.startswith(('float', 'F ', 'strided', 'matrix', 'csr', 'csc', 'coo', 'lil')):
                    nm = lambda x: [str(float(v)) for v in x]
                else:
                    nm = lambda x: [str(int(v)) for v in x]
            else:
                p, f = P if ep else None, F if ef else None
                block = embed(t.rows, p, f)
                nm = list
            if not req(kind, block):
                continue
            yield (form, nm(p) if ep else None, nm(f) if ef else None, None, None, lambda mk=mk, block=block: mk(copy.deepcopy(block)))
    if n == 1:
        yield ('flat list', None, None, None, None, lambda: list(t.rows[0]))
        yield ('flat tuple', None, None, None, None, lambda: tuple(t.rows[0]))
        yield ('flat array', None, None, None, None, lambda: objarr(t.rows)[0])
    # pandas
    yield ('dataframe', P, F, None, None, lambda: pd.DataFrame(copy.deepcopy(t.rows), index=P, columns=F))
    yield ('dataframe obj', P, F, None, None, lambda: pd.DataFrame(objarr(t.rows), index=P, columns=F))
    yield ('dict', P, 'never', P, None, lambda: {p: list(r) for p, r in zip(P, copy.deepcopy(t.rows))})
    if n and w:
        yield ('dicts', 'never', F, None, F, lambda: [dict(zip(F, r)) for r in copy.deepcopy(t.rows)])
    for ty in TYPES:
        if ty == 'Sparse' and not numeric(t):
            continue
        named = Tab(t.rows, P, F)
        yield ('nimble ' + ty, P, F, P, F, lambda ty=ty: build(named, ty))
        yield ('nimble unnamed ' + ty, 'never', 'never', None, None, lambda ty=ty: build(t, ty))
        yield ('view ' + ty, P, F, P, F, lambda ty=ty: build(named, ty).view())
        if w > 1:
            yield ('nimble points ' + ty, P, F, P, F, lambda ty=ty: [build(named.take([i]), ty) for i in range(n)])
            yield ('point views ' + ty, P, F, P, F, lambda ty=ty: (lambda o: [o.pointView(i) for i in range(n)])(build(named, ty)))


def transposed(t):
    return t.T


NAMEFORMS = ['auto', 'True', 'False', 'None', 'list', 'dict', 'short', 'dup']


def names_arg(form, n, letter):
    base = ['%s%d' % (letter, i) for i in range(n)]
    if form == 'auto':
        return 'automatic', base
    if form in ('True', 'False', 'None'):
        return {'True': True, 'False': False, 'None': None}[form], base
    if form == 'list':
        return base[::-1], base[::-1]
    if form == 'dict':
        return {x: i for i, x in reversed(list(enumerate(base)))}, base
    if form == 'short':
        return base[:-1] if n else ['q'], None
    return ['same'] * n, None


def tasks(tier):
    out = []
    for i, t in enumerate(tabs(tier)):
        for rap in (True, False):
            for rtype in TYPES + [None]:
                if rtype == 'Sparse' and not numeric(t):
                    continue
                out.append(['create', i, rap, rtype, tier])
        for rtype in TYPES + [None]:
            if rtype == 'Sparse' and not numeric(t):
                continue
            out.append(['keep', i, rtype, tier])
            out.append(['missing', i, rtype, tier])
        out.append(['convert', i, tier])
    out += [['const'], ['ragged'], ['high']]
    out += [['numbernames', form] for form in NUMFORMS]
    return out


def run_task(task, rec):
    globals()['t_' + task[0]](rec, *task[1:])


def loosen(c):
    """Names which are numbers compared as numbers."""
    return c[:2] + tuple(tuple(None if x is None else float(x) if x.replace('.', '').isdigit() else x for x in ns) for ns in c[2:])


def attempt(rec, what, want, rtype, f, loose=False):
    """want: Tab, 'refused' or None (undefined)."""
    rec.step()
    try:
        o = f()
    except Exception as e:  # noqa
        if want == 'refused':
            rec.rejected += 1
            if not isinstance(e, nimble.exceptions.NimbleException) and False:
                rec.violation(what, 'raised %r' % e)
        elif want is not None:
            rec.violation(what, 'raised %s: %s' % (type(e).__name__, str(e)[:200]))
        return None
    if want == 'refused':
        rec.violation(what, 'accepted: %r' % (observe(o, approx),))
        return None
    if want is None:
        return None
    try:
        got = observe_full(o, approx)
    except Exception as e:  # noqa
        rec.violation(what, 'reading the object raised %s: %s' % (type(e).__name__, e))
        return None
    rec.outcome(got)
    exp = canon_tab(want, approx)
    if loose:
        got, exp = loosen(got), loosen(exp)
    if got != exp:
        rec.violation(what, 'created %r\nexpected %r' % (got, exp))
    if rtype is not None and o.getTypeString() != rtype:
        rec.violation(what, 'is a %s' % o.getTypeString())
    return o


def frozen(src):
    """Comparable content of a source."""
    from mc.reads import canon
    if isinstance(src, dict):
        return tuple((k, frozen(v)) for k, v in src.items())
    if isinstance(src, (list, tuple)):
        return tuple(frozen(v) for v in src)
    return canon(src)


def t_create(rec, i, rap, rtype, tier):
    t = tabs(tier)[i]
    st = t if rap else t.T
    for form, tp, tf, ap, af, mk in sources(st):
        if rtype == 'Sparse' and form in OBJ:
            continue
        for a, b in itertools.product(NAMEFORMS, repeat=2):
            if 'short' in (a, b) and a != b and not {a, b} <= {'short', 'auto', 'None'}:
                continue
            if 'dup' in (a, b) and a != b and not {a, b} <= {'dup', 'auto', 'None'}:
                continue
            # a, b: names of rows and columns of the source
            pa, pw = names_arg(a, st.np, 'p')
            fa, fw = names_arg(b, st.nf, 'f')
            emb_p, emb_f = form in RAW and tp is not None, form in RAW and tf is not None
            if (a == 'True') != emb_p and form in RAW or (b == 'True') != emb_f and form in RAW:
                if not (a != 'True' and b != 'True' and not emb_p and not emb_f):
                    continue
            if a == 'auto' or b == 'auto':
                if a != b and form in RAW and (a == 'True' or b == 'True'):
                    continue
                if form in RAW or form.startswith(('flat', 'dataframe', 'dict')):
                    if any(all(istext(v) for v in r) for r in (st.rows if form == 'dict' else st.rows[:1])):
                        continue   # could be taken for names
            wp, refused, skip = None, False, False
            wn = []
            for arg, full, given, auto, m in ((a, pw, tp, ap, st.np), (b, fw, tf, af, st.nf)):
                if arg == 'auto':
                    wn.append(auto)
                elif arg == 'True':
                    if form.startswith('flat') or given is None or form.startswith('dataframe') and False:
                        skip = True
                    if given == 'never':
                        skip = True    # no names in the source: undefined
                    wn.append(given)
                elif arg in ('False', 'None'):
                    wn.append(None)
                elif arg in ('list', 'dict'):
                    wn.append(full)
                elif arg == 'short':
                    refused = True
                elif arg == 'dup':
                    if m < 2:
                        skip = True
                    refused = True
            if skip:
                continue
            if refused:
                want = 'refused'
                if form in ('dict', 'dicts') or form.startswith(('nimble points', 'point views')) and st.np == 1:
                    want = 'refused'
            else:
                rows = st
                if form == 'dict' and a in ('list', 'dict'):
                    # names for a dict reorder its points
                    rows = st.take([int(x[1:]) for x in wn[0]])
                if form == 'dicts' and b in ('list', 'dict'):
                    rows = st.takef([int(x[1:]) for x in wn[1]])
                want = Tab(rows.rows, wn[0], wn[1], st.nf)
                if form == 'view Sparse':
                    pass
                if not rap:
                    want = want.T
            if not rap and (form.startswith(('nimble points', 'point views'))):
                continue
            kw = dict(pointNames=pa, featureNames=fa) if rap else dict(pointNames=fa, featureNames=pa)
            what = 'data(%s%s, pointNames=%r, featureNames=%r, returnType=%r, rowsArePoints=%s) of %r' % (
                form, (' with embedded names' if tp or tf else '') if form in RAW else '', kw['pointNames'], kw['featureNames'], rtype, rap, st.rows)
            src = mk()
            before = frozen(src) if form != 'iterator' else None
            rec.state((i, rap, rtype, form, a, b))
            o = attempt(rec, what, want, rtype, lambda: nimble.data(src, returnType=rtype, rowsArePoints=rap, treatAsMissing=None, name='nm', useLog=False, **kw),
                        form in RAW and RAW[form][1] in ('num', 'int'))
            if before is not None and frozen(src) != before:
                rec.violation(what, 'the source changed to %r' % (src,))
            if o is not None and (o.name != 'nm' or o.absolutePath is not None):
                rec.violation(what, 'name %r path %r' % (o.name, o.absolutePath))
    rec.trace()


def keep_lists(n, names):
    out = []
    for k in range(1, n + 1):
        for p in itertools.permutations(range(n), k):
            out.append(list(p))
    if names:
        out += [[names[0]], [names[-1]], list(names[::-1]), [n - 1, names[0]] if n > 1 else [0]]
        if n > 1:
            out.append([names[0], 0])       # the same one twice
    out += [[0, 0], [n], [-1], ['nosuch']]
    return out


def keep_want(lst, n, names, m):
    """indices, 'refused', or None."""
    idx = []
    for x in lst:
        if istext(x):
            if not names or x not in names:
                return 'refused'
            idx.append(names.index(x))
        elif not 0 <= x < n:
            return 'refused' if x > 0 else None
        else:
            idx.append(x)
    if len(set(idx)) != len(idx):
        return 'refused'
    return idx


def t_keep(rec, i, rtype, tier):
    t = tabs(tier)[i]
    n, w = t.shape
    P = ['p%d' % k for k in range(n)]
    F = ['f%d' % k for k in range(w)]
    for form in ('lists', 'object array', 'dataframe', 'csr', 'nimble', 'embedded', 'dicts', 'transposed'):
        if rtype == 'Sparse' and form in ('object array', 'dataframe', 'embedded'):
            continue
        if form == 'csr' and not numeric(t):
            continue
        for np_, nf_ in itertools.product((None, 'list', 'kept', 'embed'), repeat=2):
            emb = form in ('embedded', 'dataframe', 'nimble')
            if (np_ == 'embed' or nf_ == 'embed') and not emb:
                continue
            if form == 'embedded' and 'embed' not in (np_, nf_):
                continue
            if form == 'dicts' and nf_ is None or form == 'dicts' and nf_ == 'kept':
                continue
            if form == 'nimble' and (np_ is None or nf_ is None):
                continue
            pls = [('all')] + keep_lists(n, P if np_ in ('list', 'embed') else None)
            fls = [('all')] + keep_lists(w, F if nf_ in ('list', 'embed') else None)
            for kp, kf in itertools.product(pls, fls):
                if kp == 'all' and kf == 'all':
                    continue
                if kp != 'all' and kf != 'all' and (len(kp) + len(kf)) % 2 and tier == 'quick':
                    continue
                res = []
                for lst, m, arg, names in ((kp, n, np_, P), (kf, w, nf_, F)):
                    if lst == 'all':
                        if arg == 'kept':
                            res = None
                            break
                        res.append((list(range(m)), names if arg else None))
                        continue
                    if arg == 'kept' and len(lst) >= m:
                        res = None
                        break
                    idx = keep_want(lst, m, names if arg in ('list', 'embed') else None, len(lst))
                    if idx is None:
                        res = None
                        break
                    if idx != 'refused' and len(lst) == m and arg != 'embed':
                        idx = 'refused'
                    if arg == 'kept':
                        res.append((idx, ['k%d' % k for k in range(len(lst))]))
                    else:
                        res.append((idx, names if arg else None))
                if res is None:
                    continue
                if any(r[0] == 'refused' for r in res):
                    want = 'refused'
                    if form == 'nimble' and any(len(l) == m for l, m in ((kp, n), (kf, w))):
                        continue    # length rule with names carried by the object is not documented
                else:
                    (ip, nmp), (jf, nmf) = res
                    rows = [[t.rows[a][b] for b in jf] for a in ip]
                    pn = nmp if np_ == 'kept' else [nmp[a] for a in ip] if nmp else None
                    fn = nmf if nf_ == 'kept' else [nmf[b] for b in jf] if nmf else None
                    want = Tab(rows, pn, fn, len(jf))
                args = {}
                for key, arg, names, lst in (('pointNames', np_, P, kp), ('featureNames', nf_, F, kf)):
                    args[key] = {None: None, 'list': names, 'embed': True, 'kept': ['k%d' % k for k in range(len(lst))]}[arg]
                if form == 'lists':
                    src = [list(r) for r in t.rows]
                elif form == 'transposed':
                    src = [list(r) for r in t.T.rows]
                elif form == 'object array':
                    src = objarr(t.rows)
                elif form == 'csr':
                    src = sp.csr_matrix(np.array(t.rows, dtype=float))
                elif form == 'dataframe':
                    src = pd.DataFrame(objarr(t.rows), index=P, columns=F)
                elif form == 'nimble':
                    src = build(Tab(t.rows, P, F), 'List')
                elif form == 'dicts':
                    src = [dict(zip(F, r)) for r in t.rows]
                else:
                    src = embed(t.rows, P if np_ == 'embed' else None, F if nf_ == 'embed' else None)
                what = 'data(%s %r, %r, keepPoints=%r, keepFeatures=%r, returnType=%r)' % (form, t.rows, args, kp, kf, rtype)
                rec.state((i, rtype, form, np_, nf_, repr(kp), repr(kf)))
                attempt(rec, what, want, rtype, lambda: nimble.data(src, returnType=rtype, keepPoints=kp, keepFeatures=kf, treatAsMissing=None,
                                                                  rowsArePoints=form != 'transposed', useLog=False, **args))
    rec.trace()


MISS = [None, [], 'default', [0], [1], ['u'], ['', 2], [NAN], [None], [NAN, 0, 'v'], (0, 'a')]
REPL = ['default', 0, 5, NAN, 'x', None, -1.5]
DEFAULT = [NAN, None, '', 'None', 'nan', 'NULL', 'NA']


def ismiss(v, lst):
    for m in lst:
        if m is None:
            if v is None:
                return True
        elif isinstance(m, float) and m != m:
            if isinstance(v, float) and v != v:
                return True
        elif istext(m) == istext(v) and v is not None and m == v:
            return True
    return False


def t_missing(rec, i, rtype, tier):
    t = tabs(tier)[i]
    vals = [v for r in t.rows for v in r]
    bools = any(isinstance(v, bool) for v in vals)
    for form in ('lists', 'object array', 'dataframe', 'float array', 'coo', 'csr', 'coo dup', 'Matrix', 'Sparse', 'DataFrame', 'List', 'view', 'dicts', 'str array'):
        if rtype == 'Sparse' and form == 'object array':
            continue
        if form == 'str array' and not req('str', t.rows):
            continue
        if form in ('float array', 'coo', 'csr', 'coo dup', 'Sparse') and not numeric(t):
            continue
        for miss, repl in itertools.product(MISS, REPL):
            if (istext(repl) or repl is None) and (rtype == 'Sparse' or form in ('coo', 'csr', 'coo dup', 'Sparse')):
                continue
            if bools and miss not in (None, [], 'default'):
                continue
            lst = DEFAULT if miss == 'default' else miss or []
            r = NAN if repl == 'default' else repl
            rows = [[r if ismiss(v, lst) else v for v in row] for row in t.rows]
            want = Tab(rows)
            if form == 'lists':
                src = [list(r) for r in t.rows]
            elif form == 'object array':
                src = objarr(t.rows)
            elif form == 'dataframe':
                src = pd.DataFrame(copy.deepcopy(t.rows))
            elif form == 'float array':
                src = np.array(t.rows, dtype=float)
            elif form == 'str array':
                src = np.array(t.rows, dtype=str)
            elif form in ('coo', 'csr'):
                src = RAW[form][0](t.rows)
            elif form == 'coo dup':
                src = dup_coo(t.rows)
            elif form == 'view':
                src = build(t, 'List').view()
            elif form == 'dicts':
                src = [dict(zip('abcdefg', r)) for r in t.rows]
                want = Tab(rows, None, list('abcdefg'[:t.nf]))
            else:
                src = build(t, form)
            kw = {}
            if miss != 'default':
                kw['treatAsMissing'] = miss
            if repl != 'default':
                kw['replaceMissingWith'] = repl
            what = 'data(%s %r, %r, returnType=%r)' % (form, t.rows, kw, rtype)
            rec.state((i, rtype, form, repr(kw)))
            before = frozen(src)
            attempt(rec, what, want, rtype, lambda: nimble.data(src, returnType=rtype, useLog=False, featureNames='automatic' if form == 'dicts' else None,
                                                              pointNames=None, **kw))
            if frozen(src) != before:
                rec.violation(what, 'the source changed')
    rec.trace()


def conv(v, ty):
    if ty is None or ty is object:
        return v
    return ty(v)


def t_convert(rec, i, tier):
    t = tabs(tier)[i]
    n, w = t.shape
    F = ['f%d' % k for k in range(w)]
    kinds = [int, float, str, object, None]
    opts = [('one', k) for k in kinds[:-1]]
    for combo in itertools.product(kinds, repeat=w):
        opts.append(('list', list(combo)))
        opts.append(('dict', {F[k]: c for k, c in enumerate(combo) if c}))
        opts.append(('idict', {k: c for k, c in enumerate(combo) if c}))
    opts += [('baddict', {'nosuch': int}), ('baddict', {w: int}), ('badlist', [int] * (w + 1))]
    for rtype in TYPES + [None]:
        if rtype == 'Sparse' and not numeric(t):
            continue
        for form in ('lists', 'array', 'transposed', 'nimble'):
            for kind, arg in opts:
                per = [arg] * w if kind == 'one' else arg if kind in ('list', 'badlist') else \
                    [arg.get(F[k], arg.get(k)) for k in range(w)]
                rows, refused, skip = [list(r) for r in t.rows], kind.startswith('bad'), False
                if not refused:
                    for j in range(w):
                        for r in rows:
                            v = r[j]
                            if per[j] is str and (not istext(v)):
                                if not (isinstance(v, int) and all(isinstance(x, int) and not isinstance(x, bool) for row in t.rows for x in row)):
                                    skip = True
                            if v is None or v == '' or isinstance(v, float) and v != v or v in ('nan', 'NA'):
                                if per[j] in (int, str, float):
                                    skip = True
                            if isinstance(v, bool):
                                skip = True
                            try:
                                r[j] = conv(v, per[j])
                            except (ValueError, TypeError):
                                refused = True
                if skip:
                    continue
                if rtype == 'Sparse' and (kind not in ('one',) or form == 'array' or str in per or object in per):
                    continue
                if form == 'array':
                    src = objarr(t.rows)
                elif form == 'transposed':
                    src = t.T.rows
                elif form == 'nimble':
                    src = build(Tab(t.rows, None, F), 'List')
                else:
                    src = [list(r) for r in t.rows]
                what = 'data(%s %r, convertToType=%r, returnType=%r)' % (form, t.rows, arg, rtype)
                rec.state((i, rtype, form, repr(arg)))
                attempt(rec, what, 'refused' if refused else Tab(rows, None, F), None if rtype == 'Matrix' else rtype,
                        lambda: nimble.data(src, pointNames=None, featureNames=F, returnType=rtype, convertToType=copy.copy(arg), treatAsMissing=None,
                                          rowsArePoints=form != 'transposed', useLog=False))
    rec.trace()


def t_const(rec):
    for n, w in itertools.product(range(4), repeat=2):
        for rtype in TYPES:
            for names in (False, True):
                P = ['p%d' % i for i in range(n)] if names else None
                F = ['f%d' % i for i in range(w)] if names else None
                for fn, v in ((nimble.ones, 1), (nimble.zeros, 0)):
                    what = '%s(%d, %d, %r, %r, %r)' % (fn.__name__, n, w, P, F, rtype)
                    rec.state(what)
                    want = Tab([[v] * w for _ in range(n)], P, F, w)
                    if n == 0 and w == 0:
                        want = 'refused'
                    attempt(rec, what, want, rtype, lambda: fn(n, w, pointNames=P, featureNames=F, returnType=rtype))
                if n == w and n:
                    what = 'identity(%d, %r, %r, %r)' % (n, P, F, rtype)
                    want = Tab([[int(i == j) for j in range(n)] for i in range(n)], P, F, w)
                    attempt(rec, what, want, rtype, lambda: nimble.identity(n, pointNames=P, featureNames=F, returnType=rtype))
    for rtype in TYPES:
        for fn in (nimble.ones, nimble.zeros):
            attempt(rec, '%s(-1, 2)' % fn.__name__, 'refused', rtype, lambda: fn(-1, 2, returnType=rtype))
        attempt(rec, 'identity(0)', 'refused', rtype, lambda: nimble.identity(0, returnType=rtype))
    rec.trace()


def t_ragged(rec):
    class Foo:
        pass
    bad = [[[1, 2], [3]], [[1], [2, 3]], [(1, 2), (3,)], [[1, 2], []], [{'a': 1}, {'b': 1}], [{'a': 1}, {'a': 1, 'b': 2}], {'a': [1, 2], 'b': [3]},
           [[1, Foo()]], [[Foo(), 1]], [[1, 2], [3, Foo()]], 5, None, 1.5, [[1, {}]], [[1, 2], [3, [4]]], [np.array([1, 2]), np.array([1])]]
    for rtype in TYPES + [None]:
        for b in bad:
            if rtype == 'Sparse' and isinstance(b, list) and any('Foo' in repr(r) for r in b):
                continue
            attempt(rec, 'data(%r, returnType=%r)' % (b, rtype), 'refused', rtype, lambda: nimble.data(b, returnType=rtype, useLog=False))
            rec.state((repr(type(b)), repr(rtype)))
    for bad in ('list', 'Foo', 'matrix', 3):
        attempt(rec, 'returnType=%r' % (bad,), 'refused', None, lambda: nimble.data([[1]], returnType=bad, useLog=False))
    for cd in ('x', 2):
        attempt(rec, 'copyData=%r' % (cd,), 'refused', None, lambda: nimble.data([[1]], copyData=cd, useLog=False))
    rec.trace()


def t_high(rec):
    """Data of more dimensions: the flattened table and the dimensions."""
    shapes = [(2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1), (1, 1, 1), (2, 2, 1, 2), (2, 2, 2, 2), (1, 1, 2, 1)]
    for s in shapes:
        size = int(np.prod(s))
        flat = [(3 * k) % 5 for k in range(size)]
        arr = np.array(flat).reshape(s)
        want = Tab([[int(v) for v in arr[i].ravel()] for i in range(s[0])])
        for rtype in TYPES + [None]:
            for form in ('array', 'object array', 'lists', 'tuple of arrays', 'list of arrays', 'list of matrix', 'nimble', 'list of nimble', 'view'):
                if form == 'array':
                    src = arr.copy()
                elif form == 'object array':
                    src = arr.astype(object)
                elif form == 'lists':
                    src = arr.tolist()
                elif form == 'tuple of arrays':
                    src = tuple(a.copy() for a in arr)
                elif form == 'list of arrays':
                    src = [a.copy() for a in arr]
                elif form == 'list of matrix':
                    if len(s) != 3:
                        continue
                    src = [np.matrix(a) for a in arr]
                elif form == 'nimble':
                    src = nimble.data(arr.tolist(), returnType='List', useLog=False)
                elif form == 'view':
                    src = nimble.data(arr.tolist(), returnType='Matrix', useLog=False).view()
                else:
                    if len(s) != 3 or 1 in s[1:]:
                        continue
                    src = [nimble.data(a.tolist(), returnType='Matrix', useLog=False) for a in arr]
                for pn in (None, ['p%d' % i for i in range(s[0])]):
                    what = 'data(%s of shape %s, returnType=%r, pointNames=%r)' % (form, s, rtype, pn)
                    rec.state(what)
                    o = attempt(rec, what, None, rtype, lambda: nimble.data(src, pointNames=pn, returnType=rtype, useLog=False))
                    try:
                        o = nimble.data(src, pointNames=pn, returnType=rtype, useLog=False)
                    except Exception as e:  # noqa
                        rec.violation(what, 'raised %r' % e)
                        continue
                    if tuple(o.dimensions) != s:
                        rec.violation(what, 'dimensions %r' % (o.dimensions,))
                        continue
                    got = []
                    for i in range(s[0]):
                        p = o.points.copy(i, useLog=False)
                        p.flatten(useLog=False)
                        got.append([cell(v) for v in p])
                    if got != [[cell(v) for v in r] for r in want.rows] or list(o.points.getNames()) != (pn or [None] * s[0]):
                        rec.violation(what, 'values %r, names %r' % (got, o.points.getNames()))
                    if rtype is not None and o.getTypeString() != rtype:
                        rec.violation(what, 'is a %s' % o.getTypeString())
        for bad in (dict(rowsArePoints=False), dict(pointNames=True), dict(featureNames=True)):
            if s[1:] == (1, 1) or 1 in s:
                continue
            attempt(rec, 'data(shape %s, %r)' % (s, bad), 'refused', None, lambda: nimble.data(arr.tolist(), useLog=False, **bad))
    rec.trace()


NUMFORMS = ['lists', 'float array', 'int array', 'csr', 'csc', 'coo', 'coo dup', 'lil', 'matrix']


def t_numbernames(rec, form):
    """names which are numbers, zero and duplicates among them"""
    mk, kind = RAW[form]
    for rows in ([[1, 0], [0, 3], [0, 0]], [[0, 0], [0, 0], [4, 5]], [[2, 7, 1]], [[1], [0]]):
        n, w = len(rows), len(rows[0])
        for p in [None] + list(itertools.product((0, 1, 2), repeat=n)):
            for f in [None] + list(itertools.product((0, 1, 2, 5), repeat=w)):
                for corner in ((0, 9) if p and f else (0,)):
                    if p is None and f is None:
                        continue
                    block = embed(rows, p, f, corner)
                    bad = len(set(p or range(n))) < n or len(set(f or range(w))) < w
                    want = 'refused' if bad else Tab(rows, [str(x) for x in p] if p else None, [str(x) for x in f] if f else None, w)
                    for rtype in TYPES + [None] if not bad else [None]:
                        what = 'nimble.data(%s %r, pointNames=%s, featureNames=%s, returnType=%s)' % (form, block, bool(p), bool(f), rtype)
                        rec.state((form, repr(block), bool(p), bool(f), rtype))
                        attempt(rec, what, want, rtype, lambda: nimble.data(mk(copy.deepcopy(block)), pointNames=bool(p), featureNames=bool(f), returnType=rtype, useLog=False), True)
    rec.trace()
