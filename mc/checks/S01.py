"""S01: what is printed is what the object holds."""
import contextlib
import io
import itertools
import numpy as np
import nimble
from nimble.exceptions import InvalidArgumentValue
from mc.model import Tab
from mc.obs import TYPES, build, observe
from mc.variants import MUTABLE, VIEWS, applicable, make

PROPERTY = 'S01'
LEVEL = 'model_checking'
RULE = ('every table shape from 0x0 to 7x7 x every line limit x width limit x selection of points and features (every int and range) x named or not x type: the text is parsed back and compared with the labels and elements of the object, '
        'the shown points and features have to be the first and last of those selected with an omission marked exactly if there is one, within the limits, and complete if complete fits; every element kind and label x digits x column width; str, repr and show')
ASSUMPTIONS = ['labels and elements without whitespace', 'objects too large for the limit given may be refused only below the minimum stated in the message', 'the width of one label column and one data column that cannot fit is not bounded']
HOLD = '\u2500\u2500'
BAR = '\u2502'
CUT = '\u2500'


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for t in TYPES:
        for n in range(0, 7 if not deep else 9):
            out += [['lines', t, n, deep], ['widths', t, n, deep]]
        out += [['elements', t, deep], ['selections', t, 'points', deep], ['selections', t, 'features', deep], ['states', t, deep]]
        out += [['show', t, n, deep] for n in (0, 1, 3, 6, 40)]
    return out


def run_task(task, rec):
    globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def element(v, digits):
    if isinstance(v, (float, np.floating)):
        if v != v:
            return ''
        if digits is not None:
            return format(float(v), '.%df' % digits)
    return str(v)


def limited(got, full, width, quoted=False):
    if quoted:
        if not (len(got) > 1 and got[0] == got[-1] == "'"):
            return False
        got, width = got[1:-1], width - 2
    if len(full) <= width:
        return got == full
    return len(got) <= width and got.endswith(CUT) and full.startswith(got[:-1]) and got != full


def ends(ids, of):
    """ids are the first and the last of a list, in order"""
    k = len(ids)
    return any(ids == of[:a] + of[len(of) - (k - a):] for a in range(k + 1)) if k <= len(of) else False


def parse(text, indent=''):
    lines = text.split('\n')
    assert lines[-1] == '', 'no final newline'
    lines = lines[:-1]
    assert all(l.startswith(indent) for l in lines[:1] + lines[2:] if l), 'indent'
    lines = [l[len(indent):] for l in lines]
    head = lines[0].split()
    rows = [(l.split(BAR, 1)[0].strip(), l.split(BAR, 1)[1].split()) for l in lines[2:]]
    return head, rows, lines


def check(rec, key, o, tab, text, lineLimit, width, digits=3, colw=19, pnames=True, fnames=True, quote=False, indent='', psel=None, fsel=None, minus=0, complete=None):
    """compare a rendering with the object"""
    def bad(why):
        rec.violation(why.split(':')[0] + '|' + key, why + '\n' + text)
    try:
        head, rows, lines = parse(text, indent)
    except Exception as e:
        return bad('unreadable: %s %s' % (type(e).__name__, e))
    n, w = tab.shape
    want_p = list(range(n)) if psel is None or isinstance(psel, int) else list(psel)
    want_f = list(range(w)) if fsel is None or isinstance(fsel, int) else list(fsel)

    def lab(names, use, i):
        return names[i] if use and names[i] is not None else str(i)

    def islab(got, names, use, i):
        return limited(got, lab(names, use, i), colw, quote and use and names[i] is not None)
    # features
    if not want_f or not w:
        shown_f = []
        if head and head != [HOLD]:
            return bad('header: of no features')
        fhold = None
    else:
        fhold = head.index(HOLD) if HOLD in head else None
        labels = [h for h in head if h != HOLD]
        if len(labels) != len(head) - (fhold is not None):
            return bad('header: several omissions')
        k = len(labels)
        if k > len(want_f):
            return bad('header: more features than selected')
        cut = k if fhold is None else fhold
        if fhold is None and k < len(want_f):
            return bad('header: omission is not marked')
        if fhold is not None and k == len(want_f):
            return bad('header: nothing is omitted')
        shown_f = want_f[:cut] + want_f[len(want_f) - (k - cut):]
        if not all(islab(l, tab.fn, fnames, j) for l, j in zip(labels, shown_f)):
            return bad('header: labels, want those of %s' % shown_f)
        if isinstance(fsel, int) and k > fsel:
            return bad('header: more features than asked')
    if not shown_f and want_f and fhold is not None:
        return rec.outcome('no column fits')
    # points
    # the label of an omitted row is a bar as well
    holders = [i for i, l in enumerate(lines[2:]) if l.strip() and set(l.split()) <= {BAR, HOLD} and l.count(BAR) > 1 or set(l.split()) == {BAR} and w and want_f and l.count(BAR) > 1]
    if len(holders) > 1:
        return bad('rows: several omissions')
    phold = holders[0] if holders else None
    body = [r for i, r in enumerate(rows) if i != phold]
    k = len(body)
    if k > len(want_p):
        return bad('rows: more points than selected')
    if phold is None and k < len(want_p) and w and want_f:
        return bad('rows: omission is not marked')
    if phold is not None and k == len(want_p):
        return bad('rows: nothing is omitted')
    cut = k if phold is None else phold
    shown_p = want_p[:cut] + want_p[len(want_p) - (k - cut):]
    if isinstance(psel, int) and k > psel:
        return bad('rows: more points than asked')
    if want_p and not shown_p:
        return bad('rows: no points')
    for (l, cells), i in zip(body, shown_p):
        if not islab(l, tab.pn, pnames, i):
            return bad('rows: label %s of point %d' % (l, i))
        if not w or not want_f:
            continue
        full = [element(o[i, j], digits) for j in shown_f]
        if fhold is not None:
            full.insert(fhold, None)
        full = [f for f in full if f is None or f != '']
        if len(full) != len(cells) or not all(c == HOLD if f is None else limited(c, f, colw) for c, f in zip(cells, full)):
            return bad('elements: of point %d are %s, want %s' % (i, cells, full))
    # limits
    if lineLimit is not None and len(lines) > lineLimit:
        return bad('limit: %d lines' % len(lines))
    if lineLimit is not None and phold is not None and not isinstance(psel, int) and len(want_p) + 2 <= lineLimit:
        return bad('incomplete: all the points fit')
    if lineLimit is None and phold is not None and not isinstance(psel, int):
        return bad('incomplete: there is no limit of lines')
    if width is None and fhold is not None and not isinstance(fsel, int):
        return bad('incomplete: there is no limit of width')
    if width is not None:
        longest = max(map(len, lines)) + len(indent)
        if longest > width and len(shown_f) > 0:
            return bad('limit: %d characters' % longest)
        if complete is not None and fhold is not None and not isinstance(fsel, int) and complete + 1 <= width:  # the mark may be wider than the column it stands for
            return bad('incomplete: all the features fit in %d characters' % complete)
    rec.outcome((phold is not None, fhold is not None, len(shown_p), len(shown_f)))


def values(n, w, kind='int'):
    if kind == 'int':
        return [[10 * i + j for j in range(w)] for i in range(n)]
    return [[round((i * w + j) * 0.5 - 1, 3) * (1 if (i + j) % 3 else 1000) for j in range(w)] for i in range(n)]


def tabof(n, w, named, kind='int'):
    pn = fn = None
    if named:
        pn = ['p%s%d' % ('x' * (i % 3), i) for i in range(n)]
        fn = ['f%s%d' % ('y' * (4 * (j % 2)), j) for j in range(w)]
        if named == 'some':
            pn = [x if i % 2 else None for i, x in enumerate(pn)]
            fn = [x if i % 2 else None for i, x in enumerate(fn)]
    return Tab(values(n, w, kind), pn, fn, w)


def full_width(o, **kw):
    text = o.toString(lineWidthLimit=None, **kw)
    return max(map(len, text.split('\n')))


def t_lines(rec, rtype, n, deep):
    for w in (0, 1, 2, 3):
        for named in (False, True, 'some'):
            tab = tabof(n, w, named)
            o = build(tab, rtype)
            before = observe(o)
            for limit in [None] + list(range(0, n + 4)):
                for pts in [None] + list(range(1, n + 2)):
                    rec.state((rtype, n, w, named, limit, pts))
                    rec.step()
                    key = 'toString %s %dx%d %s lineLimit=%s points=%s' % (rtype, n, w, named, limit, pts)
                    rows = n if pts is None else min(n, pts)
                    try:
                        text = o.toString(points=pts, lineLimit=limit, lineWidthLimit=None)
                    except InvalidArgumentValue as e:
                        rec.rejected += 1
                        if limit is None or limit >= 2 + min(rows, 2):
                            rec.violation('refused|' + key, e)
                        continue
                    except Exception as e:
                        if limit is None or limit >= 2:
                            rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                        continue
                    if limit is not None and (limit < 2 + min(rows, 2) or limit == 3 and pts is not None and pts < n):
                        continue
                    check(rec, key, o, tab, text, limit, None, psel=pts)
            if observe(o) != before:
                rec.violation('changed|%s %dx%d' % (rtype, n, w), observe(o))


def t_widths(rec, rtype, w, deep):
    for n in (0, 1, 3):
        for named in (False, True, 'some'):
            for kind in ('int', 'float'):
                tab = tabof(n, w, named, kind)
                o = build(tab, rtype)
                for quote, indent, digits in ((False, '', 3), (True, ' ', 1)):
                    full = full_width(o, quoteNames=quote, indent=indent, sigDigits=digits)
                    least = 0
                    for width in list(range(10, full + 3)) + [None]:
                        for fts in ([None] + list(range(1, w + 2))) if width is None or width in (20, 30) else [None]:
                            rec.state((rtype, n, w, named, kind, width, fts, quote))
                            rec.step()
                            key = 'toString %s %dx%d %s %s lineWidthLimit=%s features=%s quoteNames=%s' % (rtype, n, w, named, kind, width, fts, quote)
                            try:
                                text = o.toString(features=fts, lineWidthLimit=width, quoteNames=quote, indent=indent, sigDigits=digits)
                            except Exception as e:
                                if width is None or width >= 30:
                                    rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                                else:
                                    rec.rejected += 1
                                continue
                            if width is not None and width < 24:
                                # too narrow for one label and one column with the mark: only what is shown is judged
                                check(rec, key, o, tab, text, None, 10 ** 6, digits, quote=quote, indent=indent, fsel=fts)
                            else:
                                check(rec, key, o, tab, text, None, width, digits, quote=quote, indent=indent, fsel=fts, complete=full)


def t_selections(rec, rtype, axis, deep):
    for n, m in ((1, 2), (4, 2), (5, 3)) + (((7, 2),) if deep else ()):
        for named in (False, True):
            tab = tabof(n, m, named)
            tab = tab if axis == 'points' else tab.T
            o = build(tab, rtype)
            for a, b in itertools.product(range(0, n + 1), range(0, n + 3)):
                if a > b:
                    continue
                sel = range(a, b)
                want = list(range(a, min(b, n)))
                for limit in (None, 2 + min(len(want), 2), 5, 30):
                    rec.state((rtype, axis, n, named, a, b, limit))
                    rec.step()
                    key = 'toString %s %s %s=%s lineLimit=%s' % (rtype, tab.shape, axis, sel, limit)
                    if not want and axis == 'features' and limit == 2:
                        continue
                    if axis == 'features' and limit is not None and limit < 5:
                        continue
                    try:
                        text = o.toString(lineLimit=limit, **{axis: sel})
                    except Exception as e:
                        rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                        continue
                    check(rec, key, o, tab, text, limit, 79, **{'psel' if axis == 'points' else 'fsel': want})
            for bad in ('a', 1.5, [0], range(0, n, 2) if n > 2 else 'b'):
                rec.step()
                try:
                    o.toString(**{axis: bad})
                    rec.violation('accepted|%s=%s %s' % (axis, bad, rtype), '')
                except nimble.exceptions.NimbleException:
                    rec.rejected += 1


KINDS = [0, 1, -12, 1.0, -0.5, 1 / 3, 1e6, 123456.789, 1e-5, 2.0005, float('inf'), -float('inf'), float('nan'), 10 ** 15, 99.9996]
TEXTS = ['a', 'abcdefghijklmnopqrstuvwxyz', 'abcdefghijklmnopqrs', 'abcdefghijklmnopqrst', 'True', True, False, None, 'x' * 8, '\u00e9\u00e8']


def t_elements(rec, rtype, deep):
    vals = KINDS if rtype == 'Sparse' else KINDS + TEXTS
    for v in vals:
        for others in ([1], [0.5], ['z'] if rtype != 'Sparse' else [2]):
            for rows in ([[v] + others], [[v], others], [others + [v], [v] + others]):
                for long in (False, True):
                    tab = Tab(rows, ['n%s%d' % ('b' * 18 * long, i) for i in range(len(rows))], ['m%s%d' % ('c' * 9 * long, i) for i in range(len(rows[0]))])
                    o = build(tab, rtype)
                    for digits in (0, 1, 3, None):
                        for colw in (19, 8, 5):
                            for quote, pn, fn in ((False, True, True), (True, True, True), (False, False, True), (True, True, False)):
                                rec.state((rtype, repr(v), str(rows), long, digits, colw, quote, pn, fn))
                                rec.step()
                                key = 'toString %s %r sigDigits=%s columnWidthLimit=%s %s %s %s %s' % (rtype, rows, digits, colw, quote, pn, fn, long)
                                try:
                                    text = o.toString(sigDigits=digits, columnWidthLimit=colw, quoteNames=quote, includePointNames=pn, includeFeatureNames=fn, lineWidthLimit=None)
                                except Exception as e:
                                    rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                                    continue
                                check(rec, key, o, tab, text, 30, None, digits, colw, pn, fn, quote)


def t_states(rec, rtype, deep):
    for which in range(3):
        tab = [tabof(3, 3, True), tabof(4, 2, False, 'float'), Tab([[0, 1, float('nan')], [2, 0, 0]], ['a', None], [None, 'b', 'c'])][which]
        ref = None
        for v in MUTABLE + VIEWS:
            if not applicable(tab, rtype, v):
                continue
            o = make(tab, rtype, v)
            before = observe(make(tab, rtype, v))
            for kw in ({}, {'lineLimit': 4}, {'lineWidthLimit': 25}, {'points': range(1, 2)}, {'features': range(1, 2)}, {'points': 2}, {'features': 1}):
                rec.state((rtype, which, v, str(kw)))
                rec.step()
                key = 'toString %s table %d %s %s' % (rtype, which, v, kw)
                try:
                    text = o.toString(**kw)
                except Exception as e:
                    rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                    continue
                p, f = kw.get('points'), kw.get('features')
                check(rec, key, o, tab, text, kw.get('lineLimit', 30), kw.get('lineWidthLimit', 79), psel=p, fsel=f)
            if observe(o) != before:
                rec.violation('changed|%s %s' % (rtype, v), observe(o))


def t_show(rec, rtype, n, deep):
    import re
    for w in (0, 1, 2, 12):
        for named in (False, True):
            for oname in (None, 'objName'):
                tab = tabof(n, w, named)
                o = build(tab, rtype)
                o.name = oname
                size = '%dpt x %dft' % tab.shape
                first = ('"objName" ' if oname else '') + size
                for kw in ({}, {'description': 'about'}, {'lineLimit': 10}, {'lineLimit': None}, {'lineWidthLimit': 40}, {'lineWidthLimit': 40, 'lineLimit': 12}, {'lineWidthLimit': None}, {'points': range(0, 1)}, {'points': 2}, {'features': 2},
                           {'features': range(0, 2)}, {'includeObjectName': False}, {'includePointNames': False}, {'includeFeatureNames': False}, {'sigDigits': 1}, {'columnWidthLimit': 8}):
                    rec.state((rtype, n, w, named, oname, str(kw)))
                    rec.step()
                    key = 'show %s %dx%d %s %s' % (rtype, n, w, named, kw)
                    out = io.StringIO()
                    try:
                        with contextlib.redirect_stdout(out):
                            o.show(**kw)
                    except Exception as e:
                        rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                        continue
                    text = out.getvalue()
                    lines = text.split('\n')
                    at = 0
                    if 'description' in kw:
                        if lines[0] != 'about':
                            rec.violation('description|' + key, text)
                        at = 1
                    if lines[at] != (size if kw.get('includeObjectName') is False else first):
                        rec.violation('size|' + key, text)
                    p, f = kw.get('points'), kw.get('features')
                    if lines[-2:] != ['', '']:
                        rec.violation('end|' + key, text)
                        continue
                    limit = kw.get('lineLimit', 30)
                    if limit is not None and len(lines) - 1 > limit:
                        rec.violation('limit|' + key, '%d lines\n%s' % (len(lines) - 1, text))
                    check(rec, key, o, tab, '\n'.join(lines[at + 1:-2]) + '\n', None if limit is None else 10 ** 6 if n + 5 + at <= limit else limit, kw.get('lineWidthLimit', 79 if f is None else None),
                          digits=kw.get('sigDigits', 3), colw=kw.get('columnWidthLimit', 30), pnames=kw.get('includePointNames', True), fnames=kw.get('includeFeatureNames', True),
                          psel=p if not isinstance(p, range) else list(range(n))[:1], fsel=f if not isinstance(f, range) else list(range(w))[:2])
                s, r = str(o), repr(o)
                rec.step(2)
                key = 'str %s %dx%d %s' % (rtype, n, w, named)
                if not s.startswith(first + '\n'):
                    rec.violation('str|' + key, s)
                else:
                    check(rec, key, o, tab, s.split('\n', 1)[1], 10 ** 6 if n <= 20 else 30, 79, colw=30)
                if not r.startswith('<' + rtype + ' ' + first + '\n') or not r.endswith('>'):
                    rec.violation('repr|' + key, r)
                else:
                    check(rec, 'repr' + key, o, tab, r.split('\n', 1)[1][:-1], 10 ** 6 if n <= 20 else 30, 79, colw=30, indent=' ')
