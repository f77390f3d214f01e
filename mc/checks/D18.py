"""D18: nimble.data reads from a file exactly the table it holds."""
import bz2
import gzip
import io
import itertools
import os
import tarfile
import zipfile
import numpy as np
import nimble
from mc.core import SCRATCH
from mc.model import Tab, cell
from mc.obs import TYPES, observe

PROPERTY = 'D18'
LEVEL = 'model_checking'
RULE = ('every table of the set x layout of a delimited file (separator, line ends, last line, blank lines, comments, quoting, compression, archive, path or open file) x names embedded, given, detected or absent on each axis x '
        'keepPoints and keepFeatures (indices, names, mixed, any order, everything, invalid ones) x ignoreNonNumericalFeatures x missing value arguments x convertToType x rowsArePoints x returnType; '
        'matrix market files of every kind, hdf5 files of every structure; the oracle parses nothing: files are generated from the table it compares with')
ASSUMPTIONS = ['text marked as missing by treatAsMissing (other than empty and nan) may leave numbers of its feature as text', 'detection of names is asserted for numeric data below text',
               'separators are detected from the first line: there the separator occurs and no other does', 'the point names given in a file are unique']
NAN = float('nan')
# cells as text, as they appear in the file
TABLES = {
    'int': [['1', '0', '-2'], ['0', '3', '7'], ['5', '6', '0']],
    'float': [['1.5', '2e3', '-0.25'], ['0', '1', '1e-4']],
    'mixed': [['1', 'a', '2.5'], ['2', 'b c', '0'], ['3', '', '4']],
    'late': [['1', '2', 'x'], ['2', 'y', '1'], ['3', '4', '2']],
    'missing': [['1', '', '3'], ['', '5', '6'], ['7', '8', 'nan']],
    'column': [['1', '', '3'], ['2', '', '4']],
    'bool': [['True', '1', 'False'], ['False', '0', 'True']],
    'boolnum': [['True', 'False'], ['1', ''], ['False', 'True']],
    'one': [['5']],
    'col': [['4'], ['5'], ['6']],
    'row': [['1', 'q', '3', '4']],
    'quoted': [['a,b', '1', 'say "x"'], ['c;d\te', '2', "it's"]],
    'lines': [['a\nb', '1'], ['\n\nc', '2']],
    'text': [['u', 'v'], ['w', 'u'], ['v', 'x']],
    'None': [['1', 'None'], ['2', 'z'], ['3', '']],
}


def typed(cols):
    """the values of the features, and which of them are not numeric"""
    out, text = [], []
    for col in cols:
        known = [v for v in col if v != '']
        if all(v in ('True', 'False') for v in known) and known:
            out.append([NAN if v == '' else v == 'True' for v in col])
        elif all(number(v) for v in known):
            out.append([NAN if v == '' else float(v) for v in col])
        else:
            out.append([NAN if v in ('', 'nan', 'None') else v for v in col])
            text.append(len(out) - 1)
    return out, text


def number(v):
    try:
        float(v)
        return True
    except ValueError:
        return False


def quote(v, sep, always=False):
    if always or any(c in v for c in (sep, '"', '\n', '\r')) or v.startswith('#'):
        return '"' + v.replace('"', '""') + '"'
    return v


LAYOUTS = {
    'plain': {}, 'crlf': {'end': '\r\n'}, 'cr': {'end': '\r'}, 'nolast': {'last': False}, 'blank': {'blank': True}, 'comments': {'comments': ['# made, by hand', '#1,2,3']},
    'quoted': {'always': True}, 'all': {'end': '\r\n', 'last': False, 'blank': True, 'comments': ['#x']}, 'top': {'top': True}, 'topcomments': {'top': True, 'comments': ['#a', '#b', '#c']},
}


def text(rows, sep=',', end='\n', last=True, blank=False, comments=(), always=False, top=False):
    lines = list(comments)
    if top:
        lines = [''] + lines
    for i, r in enumerate(rows):
        line = sep.join(quote(v, sep, always) for v in r)
        if not line:
            line = '""'
        lines.append(line)
        if blank and i:
            lines.append('')
    s = end.join(lines)
    return s + (end if last else '')


def embed(rows, pn, fn, corner='pointNames'):
    rows = [list(r) for r in rows]
    if pn:
        rows = [[p] + r for p, r in zip(pn, rows)]
    if fn:
        rows = [([corner] if pn else []) + list(fn)] + rows
    return rows


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for t in TABLES:
        out += [['layout', t], ['detect', t], ['names', t], ['types', t]]
        out += [['select', t, a, b] for a in ('file', 'list', 'none') for b in ('file', 'list', 'none')]
    out += [['mtx', deep], ['hdf5', deep], ['refuse', deep]]
    return out


def run_task(task, rec):
    d = os.path.join(SCRATCH, 'd18-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        with np.errstate(all='ignore'):
            globals()['t_' + task[0]](rec, d, *task[1:])
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    rec.trace()


def write(d, s, name='f.csv'):
    path = os.path.join(d, name)
    with open(path, 'wb') as fh:
        fh.write(s if isinstance(s, bytes) else s.encode('utf-8'))
    return path


def canon(v):
    c = cell(v)
    if isinstance(c, str) and c[:2] == 's:' and number(c[2:]):
        return float(c[2:])
    return c


def compare(rec, key, src, rows, pn, fn, f=cell, **kw):
    """rows: the values expected, None: refused"""
    rec.step()
    try:
        o = nimble.data(src, useLog=False, **kw)
    except Exception as e:
        rec.rejected += 1
        if rows is not None:
            rec.violation('refused|' + key, '%s %s' % (type(e).__name__, str(e)[:160]))
        return None
    if rows is None:
        rec.violation('accepted|' + key, observe(o, cell))
        return o
    if kw.get('returnType') and 'convertToType' not in kw and o.getTypeString() != kw['returnType']:
        rec.violation('type|' + key, o.getTypeString())
    s, c, p, q = observe(o, f)
    want = tuple(tuple(f(v) for v in r) for r in rows)
    if c != want or s[0] != len(rows):
        rec.violation('cells|' + key, 'got %r want %r' % (c, want))
    if tuple(p) != tuple(pn or [None] * len(rows)) or tuple(q) != tuple(fn or [None] * s[1]):
        rec.violation('names|' + key, 'got %r %r want %r %r' % (p, q, pn, fn))
    rec.outcome((s, len(kw)))
    return o


def cols_of(rows):
    return [list(c) for c in zip(*rows)]


def expected(rows, points=None, feats=None, ignore=False):
    """typed values of the selected points and features, and the features which are left"""
    rows = [rows[i] for i in (range(len(rows)) if points is None else points)]
    js = list(range(len(rows[0])) if feats is None else feats)
    cols, bad = typed([[r[j] for r in rows] for j in js])
    left = [j for j in range(len(js)) if not (ignore and j in bad)]
    return [[cols[j][i] for j in left] for i in range(len(rows))], [js[j] for j in left]


def textual(rows):
    return bool(typed(cols_of(rows))[1])


def returns(rows):
    return [None] + [t for t in TYPES if t != 'Sparse' or all(number(v) or v == '' for r in rows for v in r)]


def t_layout(rec, d, tname):
    rows = TABLES[tname]
    p, q = len(rows), len(rows[0])
    for pk, fk in itertools.product((False, True), repeat=2):
        pn = ['p%d' % i for i in range(p)] if pk else None
        fn = ['f%d' % i for i in range(q)] if fk else None
        full = embed(rows, pn, fn)
        want, _ = expected(rows)
        if not fk and tname == 'column':
            continue
        for lname, lay in LAYOUTS.items():
            for sep in (',', '\t', ';', '|', ':', ' '):
                s = text(full, sep, **lay)
                first = full[0]
                rec.state((tname, pk, fk, lname, sep))
                for given in (True, False):
                    if not given and (len(first) == 1 or any(c in v for v in first for c in ',\t;:| ~^"\'\n')):
                        continue
                    kw = dict(pointNames=pk, featureNames=fk)
                    if given:
                        kw['inputSeparator'] = sep
                    key = '%s pn=%s fn=%s %s %r given=%s' % (tname, pk, fk, lname, sep, given)
                    path = write(d, s)
                    for rt in returns(rows) if sep == ',' else [None]:
                        o = compare(rec, key + ' %s' % rt, path, want, pn, fn, returnType=rt, **kw)
                    if o is not None and (o.absolutePath != path or o.relativePath != os.path.relpath(path)):
                        rec.violation('path|' + key, (o.absolutePath, o.relativePath))
                    if sep in ',;' and lname in ('plain', 'all', 'blank', 'cr'):
                        opened(rec, d, key, s, want, pn, fn, kw)
            if lname == 'plain':
                packed(rec, d, tname, text(full), want, pn, fn, dict(pointNames=pk, featureNames=fk, inputSeparator=','))


def opened(rec, d, key, s, want, pn, fn, kw):
    path = write(d, s, 'g.csv')
    for mode in ('rb', 'r'):
        with open(path, mode, **({} if mode == 'rb' else {'encoding': 'utf-8', 'newline': ''})) as fh:
            compare(rec, key + ' open ' + mode, fh, want, pn, fn, **kw)
            if fh.closed or fh.tell() != 0:
                rec.violation('file moved|' + key)
    compare(rec, key + ' io', io.StringIO(s, newline=''), want, pn, fn, **kw)
    compare(rec, key + ' bytes', io.BytesIO(s.encode('utf-8')), want, pn, fn, **kw)
    for name in ('g.txt', 'g.data', 'g', 'g.CSV', 'g.tsv', 'a.b.csv'):
        compare(rec, key + ' ' + name, write(d, s, name), want, pn, fn, **kw)


def packed(rec, d, tname, s, want, pn, fn, kw):
    b = s.encode('utf-8')
    key = '%s packed %s %s' % (tname, pn, fn)
    compare(rec, key + ' gz', write(d, gzip.compress(b), 'h.csv.gz'), want, pn, fn, **kw)
    compare(rec, key + ' gz without extension', write(d, gzip.compress(b), 'h2'), want, pn, fn, **kw)
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr('in.csv', s)
    compare(rec, key + ' zip', write(d, buf.getvalue(), 'h.zip'), want, pn, fn, **kw)
    for mode in ('w', 'w:gz'):
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode=mode) as t:
            i = tarfile.TarInfo('in.csv')
            i.size = len(b)
            t.addfile(i, io.BytesIO(b))
        compare(rec, key + ' tar ' + mode, write(d, buf.getvalue(), 'h.tar' + ('.gz' if mode == 'w:gz' else '')), want, pn, fn, **kw)


def t_detect(rec, d, tname):
    """names found without being told"""
    rows = TABLES[tname]
    p, q = len(rows), len(rows[0])
    if not all(number(v) and v != 'nan' for r in rows for v in r) or q == 1:
        return
    want, _ = expected(rows)
    fn, pn = ['f%d' % i for i in range(q)], ['p%d' % i for i in range(p)]
    for lname, lay in LAYOUTS.items():
        for rap in (True, False):
            def go(key, full, pn, fn, **kw):
                rec.state((tname, lname, key, rap))
                s = text(full if rap else cols_of(full), **lay)
                compare(rec, 'detect %s %s %s %s' % (tname, key, lname, rap), write(d, s), want, pn, fn, rowsArePoints=rap, **kw)
            if not rap and p == 1:
                continue
            go('features', embed(rows, None, fn), None, fn)
            go('both', embed(rows, pn, fn), pn, fn)
            go('features, points told', embed(rows, None, fn), None, fn, pointNames=False)
            go('both, features told', embed(rows, pn, fn), pn, fn, featureNames=True)
            go('both, points told', embed(rows, pn, fn, 'any'), pn, fn, pointNames=True)
            go('points given', embed(rows, None, fn), pn, fn, pointNames=pn)
            if p > 1:
                go('none', rows, None, None)
                go('none, points given', rows, pn, None, pointNames=pn)


def t_names(rec, d, tname):
    """names embedded and given, in either orientation of the file"""
    rows = TABLES[tname]
    p, q = len(rows), len(rows[0])
    want, _ = expected(rows)
    odd = {'plain': lambda a, n: ['%s%d' % (a, i) for i in range(n)], 'digits': lambda a, n: ['%d' % (i * 7) for i in range(n)], 'odd': lambda a, n: ['%s, "%d" #' % (a, i) for i in range(n)],
           'some': lambda a, n: [a] + [''] * (n - 1), 'space': lambda a, n: [' %s %d' % (a, i) for i in range(n)], 'down': lambda a, n: ['%s%d' % (a, n - i) for i in range(n)]}
    for (pk, pf), (fk, ff) in itertools.product(odd.items(), repeat=2):
        for pm, fm in itertools.product(('file', 'list', 'dict', False, None), repeat=2):
            if (pk != 'plain' and pm not in ('file', 'list')) or (fk != 'plain' and fm not in ('file', 'list')) or (pk == 'some' and pm != 'file') or (fk == 'some' and fm != 'file'):
                continue
            pn, fn = pf('p', p), ff('f', q)
            kw = {}
            for kwname, m, n in (('pointNames', pm, pn), ('featureNames', fm, fn)):
                kw[kwname] = {'file': True, 'list': list(n), 'dict': {x: i for i, x in reversed(list(enumerate(n)))}, False: False, None: None}[m]
            wp = None if pm in (False, None) else [x or None for x in pn]
            wf = None if fm in (False, None) else [x or None for x in fn]
            full = embed(rows, pn if pm == 'file' else None, fn if fm == 'file' else None, 'corner')
            for rap in (True, False):
                if tname == 'column' and (fm not in ('file',) or not rap):
                    continue
                key = 'names %s %s=%s %s=%s rows=%s' % (tname, pk, pm, fk, fm, rap)
                rec.state(key)
                s = text(full if rap else cols_of(full))
                for rt in (None, 'List'):
                    compare(rec, key + ' %s' % rt, write(d, s), want, wp, wf, rowsArePoints=rap, inputSeparator=',', returnType=rt, **kw)
    # other numbers of names are refused
    for bad in (['a'] * p, ['a%d' % i for i in range(p + 1)], {'a': 0, 'b': 0} if p == 2 else {'a': p}):
        if bad == ['a']:
            continue
        compare(rec, 'names %s %r' % (tname, bad), write(d, text(rows)), None, None, None, pointNames=bad, inputSeparator=',', featureNames=False)
    for bad in (['a'] * q, ['a%d' % i for i in range(q + 1)], {'a': q}):
        if bad == ['a']:
            continue
        compare(rec, 'names %s features %r' % (tname, bad), write(d, text(rows)), None, None, None, featureNames=bad, inputSeparator=',', pointNames=False)


def selections(n, names):
    """keep argument -> positions, None if it is refused"""
    out = [('all', list(range(n)))]
    for r in range(1, n + 1):
        for perm in itertools.permutations(range(n), r):
            if r == n and names != 'file':
                continue
            out.append((list(perm), list(perm)))
    if names == 'file':
        nm = ['n%d' % i for i in range(n)]
        out += [([nm[i]], [i]) for i in range(n)] + [(nm[::-1], list(range(n))[::-1])]
        if n > 1:
            out += [([nm[1], 0], [1, 0]), ([n - 1, nm[0]], [n - 1, 0]), ([nm[0], 0], None), ([1, nm[1]], None)]
        out += [(['nope'], None), ([nm[0], 'nope'], None), ([nm[0], nm[0]], None)]
    elif names == 'none':
        out += [(['n0'], None)]
    out += [([n], None), ([-1], None), ([0, 0], None), ([0, n + 3], None)]
    return out


def t_select(rec, d, tname, pm, fm):
    rows = TABLES[tname]
    p, q = len(rows), len(rows[0])
    pn = None if pm == 'none' else ['n%d' % i for i in range(p)]
    fn = None if fm == 'none' else ['n%d' % i for i in range(q)]
    kw = dict(pointNames={'file': True, 'list': pn, 'none': False}[pm], featureNames={'file': True, 'list': fn, 'none': False}[fm], inputSeparator=',')
    full = embed(rows, pn if pm == 'file' else None, fn if fm == 'file' else None)
    path = write(d, text(full))
    other = write(d, text(cols_of(full)), 'other.csv')
    for kp, ps in selections(p, pm):
        for kf, fs in selections(q, fm):
            if kp != 'all' and kf != 'all' and len(kp) + len(kf) > 4:
                continue
            for ignore in (False, True):
                refused = ps is None or fs is None
                key = 'select %s %s %s keepPoints=%r keepFeatures=%r ignore=%s' % (tname, pm, fm, kp, kf, ignore)
                rec.state(key)
                if refused:
                    if not ignore:
                        compare(rec, key, path, None, None, None, keepPoints=kp, keepFeatures=kf, **kw)
                    continue
                want, left = expected(rows, ps, fs, ignore)
                if not left:
                    continue
                wp = None if pn is None else [pn[i] for i in ps]
                wf = None if fn is None else [fn[j] for j in left]
                if fm == 'none' and kf == 'all' and all(rows[i][-1] == '' for i in ps):
                    continue  # every row ends with the separator
                for rt in (None, 'List') if len(kp) + len(kf) < 5 or kp == 'all' or kf == 'all' else (None,):
                    compare(rec, key + ' %s' % rt, path, want, wp, wf, keepPoints=kp, keepFeatures=kf, ignoreNonNumericalFeatures=ignore, returnType=rt, **kw)
                if tname != 'column' and p > 1 and len(kp) < 3 or kp == 'all':
                    compare(rec, key + ' other orientation', other, want, wp, wf, keepPoints=kp, keepFeatures=kf, ignoreNonNumericalFeatures=ignore, rowsArePoints=False, **kw)
    # names for those that are kept
    if pm == 'list':
        for ps in itertools.permutations(range(p), max(1, p - 1)):
            if len(ps) == p:
                continue
            want, _ = expected(rows, ps)
            if not (tname == 'column' and fm == 'none'):
                compare(rec, 'names of the kept %s %s %r' % (tname, fm, ps), path, want, ['k%d' % i for i in range(len(ps))], fn, keepPoints=list(ps), **dict(kw, pointNames=['k%d' % i for i in range(len(ps))]))
    if fm == 'list':
        for fs in itertools.permutations(range(q), max(1, q - 1)):
            if len(fs) == q:
                continue
            want, _ = expected(rows, None, fs)
            compare(rec, 'names of the kept features %s %s %r' % (tname, pm, fs), path, want, pn, ['k%d' % i for i in range(len(fs))], keepFeatures=list(fs), **dict(kw, featureNames=['k%d' % i for i in range(len(fs))]))


def t_types(rec, d, tname):
    """missing values and convertToType"""
    rows = TABLES[tname]
    p, q = len(rows), len(rows[0])
    fn = ['f%d' % i for i in range(q)]
    path = write(d, text(embed(rows, None, fn)))
    kw = dict(featureNames=True, pointNames=False, inputSeparator=',')
    want, _ = expected(rows)
    default = [NAN, None, '', 'None', 'nan']

    def missing(rows, extra, rep):
        ex, _ = expected(rows)
        return [[rep if v != v or any(v == x and isinstance(v, str) == isinstance(x, str) for x in extra) else v for v in r] for r in ex]
    for extra in ([], [0], ['a', 'u'], [1, 'c'], [5, 'v', 'x']):
        for rep in (NAN, -1, 'gone'):
            for rt in (None, 'List', 'DataFrame', 'Matrix'):
                args = dict(treatAsMissing=default + extra) if extra else {}
                if rep == rep:
                    args['replaceMissingWith'] = rep
                key = 'missing %s %r %r %s' % (tname, extra, rep, rt)
                rec.state(key)
                if 'bool' in tname and (0 in extra or 1 in extra):
                    continue
                compare(rec, key, path, missing(rows, extra, rep), None, fn, returnType=rt, **args, **kw)
    for rt in (None, 'List', 'DataFrame', 'Matrix'):
        if not textual(rows):
            for conv in (float, {0: float}, {'f0': float}, [float] * q, {fn[-1]: float}):
                compare(rec, 'convert %s %r %s' % (tname, conv, rt), path, want, None, fn, convertToType=conv, returnType=rt, **kw)
        if tname in ('int', 'col', 'one'):
            compare(rec, 'convert %s str %s' % (tname, rt), path, rows, None, fn, convertToType=str, returnType=rt, **kw)
            w = [[r[0]] + [float(v) for v in r[1:]] for r in rows]
            for conv in ({0: str}, {'f0': str}, [str] + [None] * (q - 1)):
                compare(rec, 'convert %s %r %s' % (tname, conv, rt), path, w, None, fn, convertToType=conv, returnType=rt, **kw)
        if tname in ('text', 'quoted', 'mixed'):
            compare(rec, 'convert %s text to float %s' % (tname, rt), path, None, None, None, convertToType=float, returnType=rt, **kw)
        if tname == 'int':
            compare(rec, 'convert to bool %s' % rt, path, [[bool(int(v)) for v in r] for r in rows], None, fn, convertToType=bool, returnType=rt, **kw)
            compare(rec, 'convert f1 to bool %s' % rt, path, [[int(r[0]), bool(int(r[1])), int(r[2])] for r in rows], None, fn, convertToType={'f1': bool}, returnType=rt, **kw)
            for bad in ({'nope': int}, {9: int}, [int], {0: 'nonsense'}):
                compare(rec, 'convert %r %s' % (bad, rt), path, None, None, None, convertToType=bad, returnType=rt, **kw)
            for ct in ({'f0': str}, {0: str}):
                w = [[r[0], float(r[2])] for r in rows]
                compare(rec, 'convert kept %r %s' % (ct, rt), path, w, None, ['f0', 'f2'], convertToType=ct, keepFeatures=[0, 2], returnType=rt, **kw)


# ---------------------------------------------------------------- other formats

def mtx(kind, field, sym, rows, head=()):
    p, q = len(rows), len(rows[0])
    out = ['%%%%MatrixMarket matrix %s %s %s' % (kind, field, sym)] + list(head)
    if kind == 'array':
        out.append('%d %d' % (p, q))
        for j in range(q):
            for i in range(j if sym == 'symmetric' else 0, p):
                out.append(('%d' if field == 'integer' else '%r') % rows[i][j])
    else:
        es = [(i, j) for j in range(q) for i in range(p) if rows[i][j] != 0 and (sym == 'general' or i >= j)]
        out.append('%d %d %d' % (p, q, len(es)))
        for i, j in es:
            out.append('%d %d' % (i + 1, j + 1) + ('' if field == 'pattern' else ' %s' % rows[i][j]))
    return '\n'.join(out) + '\n'


def t_mtx(rec, d, deep):
    cases = []
    for rows in ([[1, 0, 2], [0, 3, 0]], [[0, 0], [0, 4], [5, 0]], [[7]], [[1], [2]], [[1, 2, 3]], [[0, 0], [0, 0]]):
        for kind in ('array', 'coordinate'):
            for field in ('integer', 'real'):
                cases.append((rows, kind, field, 'general'))
    cases += [([[1, 0], [1, 1]], 'coordinate', 'pattern', 'general'), ([[1, 2], [2, 0]], 'coordinate', 'integer', 'symmetric'), ([[1, 2], [2, 0]], 'array', 'real', 'symmetric'),
              ([[0, 2, 0], [2, 1, 5], [0, 5, 0]], 'coordinate', 'real', 'symmetric')]
    for rows, kind, field, sym in cases:
        p, q = len(rows), len(rows[0])
        for pk, fk in itertools.product((False, True), repeat=2):
            pn, fn = ['p%d' % i for i in range(p)], ['f%d' % i for i in range(q)]
            head = ['%#' + ','.join(pn if pk else []), '%#' + ','.join(fn if fk else [])]
            for hname, h in (('names', head), ('and comments', ['%', '% other'] + head + ['%last']), ('blank', head)):
                s = mtx(kind, field, sym, rows, h)
                if hname == 'blank' and kind == 'coordinate':
                    s = s.rstrip('\n')
                for fname in ('m.mtx', 'm.data'):
                    path = write(d, s, fname)
                    for rt in [None] + TYPES:
                        key = 'mtx %r %s %s %s %s %s %s %s %s' % (rows, kind, field, sym, pk, fk, hname, fname, rt)
                        rec.state(key)
                        wp, wf = pn if pk else None, fn if fk else None
                        compare(rec, key, path, rows, wp, wf, returnType=rt)
                        if hname == 'names' and fname == 'm.mtx':
                            t = [list(c) for c in zip(*rows)]
                            compare(rec, key + ' transposed', path, t, wf, wp, returnType=rt, rowsArePoints=False)
                            given = ['g%d' % i for i in range(p)], ['h%d' % i for i in range(q)]
                            compare(rec, key + ' given', path, rows, given[0], given[1], returnType=rt, pointNames=given[0], featureNames=given[1])
                            compare(rec, key + ' given points', path, rows, given[0], wf, returnType=rt, pointNames=given[0])
                            compare(rec, key + ' given features', path, rows, wp, given[1], returnType=rt, featureNames=given[1])
                            for i in range(p) if p > 1 else ():
                                compare(rec, key + ' keep %d' % i, path, [rows[i]], None if not pk else [pn[i]], wf, returnType=rt, keepPoints=[i])
                                if pk:
                                    compare(rec, key + ' keep name %d' % i, path, [rows[i]], [pn[i]], wf, returnType=rt, keepPoints=[pn[i]])
                            for j in range(q) if q > 1 else ():
                                compare(rec, key + ' keep feature %d' % j, path, [[r[j]] for r in rows], wp, None if not fk else [fn[j]], returnType=rt, keepFeatures=[j])
                                if fk and q > 2:
                                    compare(rec, key + ' keep features', path, [[r[j], r[j - 1]] for r in rows], wp, [fn[j], fn[j - 1]], returnType=rt, keepFeatures=[fn[j], (j - 1) % q])
                with open(path, 'rb') as fh:
                    compare(rec, key + ' open', fh, rows, wp, wf)
                compare(rec, key + ' gz', write(d, gzip.compress(s.encode()), 'm.mtx.gz'), rows, wp, wf)


def t_hdf5(rec, d, deep):
    import h5py
    path = os.path.join(d, 'x.h5')

    def load(key, want, pn, dims, **kw):
        rec.step()
        rec.state(key)
        for rt in [None] + TYPES:
            try:
                o = nimble.data(path, returnType=rt, useLog=False, **kw)
            except Exception as e:
                rec.violation('hdf5|%s %s' % (key, rt), '%s %s' % (type(e).__name__, str(e)[:150]))
                continue
            if tuple(o.dimensions) != dims:
                rec.violation('hdf5 dimensions|%s %s' % (key, rt), o.dimensions)
                continue
            a = np.array(o.copy('pythonlist') if len(dims) > 2 else o.copy('numpyarray').tolist(), dtype=float).reshape(dims)
            if not (a == want).all():
                rec.violation('hdf5 cells|%s %s' % (key, rt), a.tolist())
            if tuple(o.points.getNames()) != tuple(pn or [None] * dims[0]):
                rec.violation('hdf5 names|%s %s' % (key, rt), o.points.getNames())
    for dims in ((2, 3), (1, 3), (3, 1), (2, 2, 2), (3, 1, 2), (2, 1, 2, 2)):
        arr = np.arange(int(np.prod(dims))).reshape(dims) % 7
        with h5py.File(path, 'w') as h:
            h.create_dataset('all', data=arr)
        names = ['n%d' % i for i in range(dims[0])]
        load('one dataset %r' % (dims,), arr, None, dims)
        if dims[0] > 1:
            load('one dataset named %r' % (dims,), arr, names, dims, pointNames=names)
            for ks in ('ab', 'ba', 'xb'):
                keys = [k + str(i) for i, k in zip(range(dims[0]), ks + 'z')]
                with h5py.File(path, 'w') as h:
                    for i in range(dims[0]):
                        h.create_dataset(keys[i], data=arr[i])
                order = [keys.index(k) for k in sorted(keys)]
                load('datasets %r %s' % (dims, ks), arr[order], None, dims)
                load('datasets, names %r %s' % (dims, ks), arr[order], sorted(keys), dims, pointNames=True)
                load('datasets, named %r %s' % (dims, ks), arr[order], names, dims, pointNames=names)
                with h5py.File(path, 'w', track_order=True) as h:
                    for i in range(dims[0]):
                        h.create_dataset(keys[i], data=arr[i])
                load('ordered datasets %r %s' % (dims, ks), arr, None, dims)
                load('ordered datasets, names %r %s' % (dims, ks), arr, keys, dims, pointNames=True)
        if len(dims) > 2 and dims[0] > 1:
            with h5py.File(path, 'w') as h:
                for i in range(dims[0]):
                    g = h.create_group('g%d' % i)
                    for j in range(dims[1]):
                        g.create_dataset('d%d' % j, data=arr[i, j])
            load('groups %r' % (dims,), arr, None, dims)
            load('groups, names %r' % (dims,), arr, ['g%d' % i for i in range(dims[0])], dims, pointNames=True)


def t_refuse(rec, d, deep):
    """files that are not a table, and arguments that are not accepted"""
    for s in ('', '\n', '\n\n', '#only\n#comments\n', '1,2\n3\n', '1,2\n3,4,5\n', 'a,b\n1,2\n3,4,5\n', '1,2\n3,4\n5\n'):
        for kw in ({}, {'featureNames': True}, {'pointNames': True, 'featureNames': True}, {'featureNames': False, 'pointNames': False}):
            rec.state((s, str(kw)))
            for rap in (True, False):
                compare(rec, 'refuse %r %r %s' % (s, kw, rap), write(d, s), None, None, None, rowsArePoints=rap, **kw)
    good = write(d, '1,2\n3,4\n')
    for kw in ({'inputSeparator': ',,'}, {'returnType': 'matrix'}, {'returnType': 'Nope'}, {'keepPoints': [0.5]}, {'keepFeatures': ['a']}, {'pointNames': ['a']}, {'featureNames': ['a', 'a']}, {'featureNames': {'a': 0, 'b': 0}},
               {'featureNames': {'a': 0, 'b': 5}}, {'pointNames': {'a': -1, 'b': 0}}):
        compare(rec, 'refuse %r' % (kw,), good, None, None, None, **kw)
    compare(rec, 'refuse missing file', os.path.join(d, 'nothing.csv'), None, None, None)
    # reading a file changes nothing outside
    import csv
    before = csv.excel.delimiter, csv.excel_tab.delimiter
    for sep in ',;|\t':
        compare(rec, 'separator %r' % sep, write(d, '1%s2\n3%s4\n' % (sep, sep)), [[1, 2], [3, 4]], None, None)
        compare(rec, 'given %r' % sep, write(d, '1%s2\n3%s4\n' % (sep, sep)), [[1, 2], [3, 4]], None, None, inputSeparator=sep)
        if (csv.excel.delimiter, csv.excel_tab.delimiter) != before:
            rec.violation('changes the csv module|%r' % sep, csv.excel.delimiter)
