"""D10: a saved object is loaded as it was."""
import itertools
import os
import numpy as np
import nimble
from mc.core import SCRATCH
from mc.model import Tab, cell
from mc.obs import TYPES, build, observe
from mc.variants import MUTABLE, VIEWS, applicable, make

PROPERTY = 'D10'
LEVEL = 'model_checking'
RULE = ('every table of the set (numbers of every magnitude, zeros, missing values in every position, booleans, text with separators, quotes, line breaks, comment characters, text that looks like numbers) x '
        'names on each axis (none, all, some, with separators, quotes, digits, slashes) x type, hidden state and view x format (and the ways of asking for it) x includeNames x type and file loaded into: '
        'the object loaded has the same cells, names and shape (names as far as the format holds them), the saved one is unchanged, and refused saves leave existing files as they were; '
        'objects of every dimension up to 4; every sequence of two saves to the same path')
ASSUMPTIONS = ['csv holds no types: text that is a number, a boolean or a missing value is read as such', 'csv is loaded with the arguments pointNames and featureNames stating whether names are there, and, where data are numbers and the names of the features are not, automatically',
               'hdf5 holds the names of points only (feature names are not stored)', 'names in mtx files are single lines']
NAN = float('nan')
TABLES = {
    'int': [[1, 0, -2], [0, 3, 0]], 'float': [[1 / 3, 1e-300], [1e22, -0.1]], 'big': [[2 ** 40, 1], [-2 ** 31, 0]], 'nan': [[1, NAN, 2], [NAN, 0, 1]], 'last': [[1, NAN], [2, NAN]],
    'first': [[NAN, 1], [NAN, 2]], 'one': [[5]], 'onenan': [[NAN]], 'zero': [[0, 0], [0, 0]], 'row': [[1, 2, 3]], 'col': [[1], [2], [0]], 'twelve': [[i, i % 3] for i in range(12)], 'wide': [list(range(12)), [0] * 12],
    'bool': [[True, False], [False, True]], 'boolnan': [[True, NAN], [False, True]], 'rownan': [[1, 2], [NAN, NAN]], 'colnan': [[1], [NAN], [2]], 'inf': [[float('inf'), 1], [-float('inf'), 2]],
    'text': [['a', 'b c'], ['d', 'a']], 'comma': [['a,b', 1], ['c', 2]], 'quote': [['say "x"', 1], ['"y"', 2]], 'mixed quotes': [['a,"b"', 1], ["it's", 2]], 'line': [['a\nb', 1], ['\n\nc\n', 2]],
    'space': [[' a ', 1], ['b ', 2]], 'comment': [['#a', 1], ['b', 2]], 'second': [['b', 1], ['#a', 2]], 'unicode': [['é', 1], ['日本', 2]], 'empty': [['', 1], ['b', 2]], 'none': [[None, 1], ['b', 2]],
    'cr': [['a\rb', 1], ['c\r\n', 2]], 'tab': [['a\tb', 1], ['c;d|e', 2]], 'textcol': [['a'], ['b']], 'emptycol': [['a'], [''], ['c']], 'digits': [['1', 'a'], ['2', 'b']], 'late': [[1, 'a'], [2, 'b'], ['x', 'c']],
    'textrow': [['a', 'b']], 'last text': [[1, 'a'], [2, None]], 'bool text': [['True', 1], ['no', 0]], 'sparse': [[0, 0, 0], [0, 0, 4], [0, 0, 0]],
}
NAMES = {
    'none': lambda a, n: None, 'all': lambda a, n: ['%s%d' % (a, i) for i in range(n)], 'some': lambda a, n: [a + '0'] + [None] * (n - 1), 'end': lambda a, n: [None] * (n - 1) + [a + 'z'],
    'odd': lambda a, n: ['%s, "%d"' % (a, i) for i in range(n)], 'digits': lambda a, n: ['%d' % (10 * i + (a == 'f')) for i in range(n)], 'quote': lambda a, n: ['"%s%d"' % (a, i) for i in range(n)],
    'space': lambda a, n: [' %s %d ' % (a, i) for i in range(n)], 'comment': lambda a, n: ['#%s%d' % (a, i) for i in range(n)], 'slash': lambda a, n: ['%s/%d' % (a, i) for i in range(n)],
    'down': lambda a, n: ['%s%d' % (a, n - i) for i in range(n)], 'unicode': lambda a, n: ['é%s%d' % (a, i) for i in range(n)], 'dots': lambda a, n: ['.' * (i + 1) for i in range(n)], 'percent': lambda a, n: ['%%%s %d' % (a, i) for i in range(n)],
    'path': lambda a, n: ['p0/x'] + ['p%d' % i for i in range(n - 1)], 'place': lambda a, n: ['point 1', None, 'point 0', 'a/b'][:n] + ['r%d' % i for i in range(n - 4)],
}
PLAIN = ('none', 'all', 'some', 'end')
EXT = {'csv': ['.csv', '.CSV', ''], 'mtx': ['.mtx'], 'hdf5': ['.hdf5', '.h5'], 'pickle': ['.pickle', '.p', '.pkl']}


def numeric(rows):
    return all(not isinstance(v, str) and v is not None for r in rows for v in r)


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for r in TYPES:
        for t, rows in TABLES.items():
            if r == 'Sparse' and (not numeric(rows) or 'bool' in t):
                continue
            out.append(['trip', r, t, 'names'])
            out.append(['trip', r, t, 'forms'])
            if t in ('int', 'text', 'col', 'nan', 'comma') or deep:
                out.append(['trip', r, t, 'odd'])
        out += [['dims', r], ['overwrite', r], ['refuse', r]]
    return out


def run_task(task, rec):
    d = os.path.join(SCRATCH, 'd10-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        with np.errstate(all='ignore'):
            globals()['t_' + task[0]](rec, d, *task[1:])
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    rec.trace()


def canon(v):
    """a cell as far as a text file can tell"""
    c = cell(v)
    if isinstance(c, str) and c[:2] == 's:':
        t = c[2:]
        if t in ('', 'nan', 'None'):
            return 'NA'
        if t in ('True', 'False'):
            return float(t == 'True')
        try:
            return float(t)
        except ValueError:
            pass
    return c


def any_name(n):
    return n is not None and any(x is not None for x in n)


def compare(rec, key, path, o, tab, fmt, include, load, **kw):
    rec.step()
    try:
        got = nimble.data(path, useLog=False, returnType=load, **dict({'treatAsMissing': None} if fmt == 'pickle' else {}, **kw))
    except Exception as e:
        rec.violation('load|' + key, '%s %s' % (type(e).__name__, str(e)[:200]))
        return
    if len(got.dimensions) != 2:
        rec.violation('dimensions|' + key, got.dimensions)
        return
    if load is not None and got.getTypeString() != load:
        rec.violation('type|' + key, got.getTypeString())
    f = cell if fmt == 'pickle' else canon
    s, c, pn, fn = observe(got, f)
    want = tab.data(f)
    none = (None,) * tab.np, (None,) * tab.nf
    wp = tuple(tab.pn) if include or fmt == 'pickle' else none[0]
    wf = tuple(tab.fn) if include and fmt != 'hdf5' or fmt == 'pickle' else none[1]
    if (s, c) != ((tab.np, tab.nf), want):
        rec.violation('cells|' + key, 'got %r %r want %r' % (s, c, want))
    if tuple(pn) != wp or tuple(fn) != wf:
        rec.violation('names|' + key, 'got %r %r want %r %r' % (pn, fn, wp, wf))
    rec.outcome((fmt, len(c)))


def save(rec, key, o, path, *a, **k):
    try:
        r = o.save(path, *a, **k)
    except Exception as e:
        rec.violation('save|' + key, '%s %s' % (type(e).__name__, str(e)[:200]))
        return False
    if r is not None:
        rec.violation('return|' + key, r)
    return True


def formats(rows):
    return ['csv', 'mtx', 'hdf5', 'pickle'] if numeric(rows) else ['csv', 'pickle']


def loads(rows, tname):
    return [None] + [t for t in TYPES if t != 'Sparse' or numeric(rows) and 'bool' not in tname]


def t_trip(rec, d, rtype, tname, part):
    rows = TABLES[tname]
    p, q = len(rows), len(rows[0])
    if part == 'names':
        grid = [(a, b, 'fresh') for a in PLAIN for b in PLAIN]
    elif part == 'odd':
        grid = [(a, b, 'fresh') for k in NAMES if k not in PLAIN for a, b in ((k, 'none'), ('none', k), (k, k), (k, 'all'))]
    else:
        grid = [(a, b, f) for f in MUTABLE + VIEWS if f != 'fresh' for a, b in (('none', 'none'), ('all', 'all'), ('end', 'some'))]
    for a, b, form in grid:
        tab = Tab(rows, NAMES[a]('p', p), NAMES[b]('f', q))
        if form != 'fresh' and not applicable(tab, rtype, form):
            continue
        if len(set(x for x in tab.pn if x)) < sum(1 for x in tab.pn if x) or len(set(x for x in tab.fn if x)) < sum(1 for x in tab.fn if x):
            continue
        o = make(tab, rtype, form) if form != 'fresh' else build(tab, rtype)
        before = observe(o, cell)
        rec.state((rtype, tname, a, b, form))
        for fmt in formats(rows):
            if fmt == 'hdf5' and (tname == 'boolnan' or 'bool' in tname and form != 'fresh'):     # booleans and numbers mixed: no type of hdf5
                continue
            for ext in EXT[fmt]:
                for include in (True, False):
                    if ext != EXT[fmt][0] and (a, b) != ('all', 'all'):
                        continue
                    path = os.path.join(d, 'x' + ext)
                    key = '%s %s %s %s pn=%s fn=%s %s names=%s' % (fmt, ext, rtype, tname, a, b, form, include)
                    if not save(rec, key, o, path, **({} if include else {'includeNames': False})):
                        continue
                    kw = {}
                    if fmt == 'csv':
                        kw = {'pointNames': include and any_name(tab.pn), 'featureNames': include and any_name(tab.fn)}
                        if q == 1 and part == 'odd':     # nothing tells the separator
                            kw['inputSeparator'] = ','
                    for load in loads(rows, tname) if form == 'fresh' and a == b else [None, rtype]:
                        compare(rec, key + ' into %s' % load, path, o, tab, fmt, include, load, **kw)
                    if fmt == 'csv' and numeric(rows) and q > 1 and include and a in ('all', 'none') and b == 'all' and 'nan' not in tname and tname not in ('last', 'first', 'bool'):
                        compare(rec, key + ' automatic', path, o, tab, fmt, include, None)
                    if fmt == 'csv' and (a, b) == ('all', 'all'):
                        # the same from an open file, in text or binary mode
                        for mode in ('r', 'rb'):
                            with open(path, mode, **({} if mode == 'rb' else {'encoding': 'utf-8', 'newline': ''})) as fh:
                                compare(rec, key + ' open file ' + mode, fh, o, tab, fmt, include, None, **kw)
                                if fh.closed:
                                    rec.violation('closes the file|' + key)
                    os.remove(path)
        if (a, b) == ('all', 'all'):
            for fmt, other in (('csv', '.mtx'), ('pickle', '.csv'), ('csv', '.data'), ('hdf5', '.data'), ('h5', ''), ('p', '.data'), ('mtx', '.data')):
                full = {'h5': 'hdf5', 'p': 'pickle'}.get(fmt, fmt)
                if full not in formats(rows) or other == '.mtx' or full == 'hdf5' and 'bool' in tname:
                    continue
                path = os.path.join(d, 'y' + other)
                key = 'format %s in %s %s %s %s' % (fmt, other, rtype, tname, form)
                if save(rec, key, o, path, fmt):
                    if fmt == 'pickle' or other in ('.data', ''):
                        compare(rec, key, path, o, tab, full, True, None, **({'pointNames': True, 'featureNames': True} if fmt == 'csv' else {}))
                    os.remove(path)
        if observe(o, cell) != before:
            rec.violation('changed|%s %s pn=%s fn=%s %s' % (rtype, tname, a, b, form), '%r %r' % (before, observe(o, cell)))


def t_dims(rec, d, rtype):
    """more than two dimensions"""
    for dims in ((1, 2, 2), (2, 1, 2), (2, 2, 1), (3, 2, 2), (1, 1, 1), (12, 1, 2), (1, 2, 1, 2), (2, 2, 2, 2), (1, 1, 3), (2, 2), (1, 3), (1, 1), (3, 1)):
        n = int(np.prod(dims))
        for start in (0, -3, 0.5):
            arr = (np.arange(n) % 5 + start).reshape(dims)
            for pk in ('none', 'all', 'down', 'slash', 'some'):
                pn = NAMES[pk]('p', dims[0])
                o = nimble.data(arr if rtype == 'Sparse' else arr.tolist(), pointNames=pn, returnType=rtype, useLog=False)
                for ext in ('.h5', '.hdf5', '.pickle', '.p', '.pkl'):
                    for include in (True, False):
                        path = os.path.join(d, 'z' + ext)
                        key = 'dims %s %r %s %s %s names=%s' % (rtype, dims, start, pk, ext, include)
                        if not save(rec, key, o, path, includeNames=include):
                            continue
                        rec.state(key)
                        for load in [None] + TYPES:
                            rec.step()
                            try:
                                got = nimble.data(path, returnType=load, useLog=False)
                            except Exception as e:
                                rec.violation('load|' + key, '%s %s' % (type(e).__name__, str(e)[:150]))
                                continue
                            if tuple(got.dimensions) != dims:
                                rec.violation('dimensions|' + key, got.dimensions)
                                continue
                            a = np.array(got.copy('pythonlist') if len(dims) > 2 else got.copy('numpyarray').tolist(), dtype=float).reshape(dims)
                            if not (a == arr).all():
                                rec.violation('cells|' + key, a.tolist())
                            want = tuple(pn) if pn is not None and (include or ext[1] == 'p') else (None,) * dims[0]
                            if tuple(got.points.getNames()) != want:
                                rec.violation('names|' + key, got.points.getNames())
                for ext in ('.csv', '.mtx'):
                    if len(dims) > 2:
                        path = os.path.join(d, 'w' + ext)
                        try:
                            o.save(path)
                            rec.violation('flattens|%s %r %s' % (rtype, dims, ext))
                        except Exception:
                            rec.rejected += 1


def t_overwrite(rec, d, rtype):
    """the second of two saves to a path replaces the first"""
    tabs = [Tab(TABLES[k], NAMES[n]('p', len(TABLES[k])), NAMES[n]('f', len(TABLES[k][0]))) for k in ('int', 'one', 'twelve', 'nan', 'wide') for n in ('all', 'none')]
    for fmt in ('csv', 'mtx', 'hdf5', 'pickle'):
        for i, j in itertools.product(range(len(tabs)), repeat=2):
            path = os.path.join(d, 'o' + EXT[fmt][0])
            key = 'overwrite %s %s %d %d' % (fmt, rtype, i, j)
            if save(rec, key, build(tabs[i], rtype), path) and save(rec, key, build(tabs[j], rtype), path):
                rec.state(key)
                t = tabs[j]
                compare(rec, key, path, None, t, fmt, True, None, **({'pointNames': any_name(t.pn), 'featureNames': any_name(t.fn)} if fmt == 'csv' else {}))


def t_refuse(rec, d, rtype):
    good = build(Tab([[1, 2], [3, 4]], ['a', 'b'], ['x', 'y']), rtype)
    path = os.path.join(d, 'r.csv')
    good.save(path)
    with open(path, 'rb') as fh:
        content = fh.read()
    empties = [build(Tab([], None, None, nf=2), rtype), build(Tab([[], []]), rtype)]
    cases = [(good, 'r.csv', 'doc'), (good, 'r.csv', 'CSVX'), (good, 'r.xyz', None), (empties[0], 'r.csv', None), (empties[1], 'r.csv', 'pickle'), (empties[1], 'r.csv', 'mtx'), (empties[0], 'r.csv', 'hdf5')]
    for i, (o, name, fmt) in enumerate(cases):
        before = observe(o, cell)
        rec.state((rtype, i))
        try:
            o.save(os.path.join(d, name), fmt)
            rec.violation('accepted|%s %d' % (rtype, i))
        except Exception:
            rec.rejected += 1
        with open(path, 'rb') as fh:
            if fh.read() != content or os.listdir(d) != ['r.csv']:
                rec.violation('refused save writes|%s %d' % (rtype, i))
        if observe(o, cell) != before:
            rec.violation('refused save changes|%s %d' % (rtype, i))
    if rtype != 'Sparse':
        for rows in ([['a', 1], ['b', 2]], [['a']], [[1, 2], [3, 'x']]):
            o = build(Tab(rows), rtype)
            for fmt in ('mtx',):
                try:
                    o.save(os.path.join(d, 'q.mtx'), fmt)
                    rec.violation('text as mtx|%s %r' % (rtype, rows))
                except Exception:
                    rec.rejected += 1
            if observe(o, cell)[1] != Tab(rows).data(cell):
                rec.violation('refused save changes|%s %r' % (rtype, rows))
