"""D07: arithmetic, logical, matrix and stretch operations agree with the table model."""
from mc.model import Tab, approx
from mc.histories import explore
from mc.ops import spec_of
from mc.obs import TYPES
from mc import arith, elem  # noqa: F401  (registers the operations)
from mc.variants import MUTABLE, VIEWS, applicable
from mc.checks import D01

PROPERTY = 'D07'
LEVEL = 'model_checking'
RULE = ('every operator (arithmetic, reflected, in-place, unary, logical, matrix, stretch) x every operand of the alphabet (scalars, '
        'objects of every storage type, hidden state, naming) applied to every initial table in every hidden state or view, and to '
        'the state reached by every history of in-place operators and edits up to the depth bound')
ASSUMPTIONS = ['cell alphabet {0,1,2,3,-1,-2,0.5,NaN}', 'products of NaN and zero are compared for dense types only in element-wise '
               'operations', 'tables up to 3x3', 'no arithmetic on boolean objects']

NAN = float('nan')
SCALARS = [2, 0, -1, 0.5, 1, 3, 0.1, -2]


def inits():
    return [
        Tab([[1, 0, 2], [0, 3, 0]], ['a', 'b'], ['x', 'y', 'z']),
        Tab([[1, 2], [3, -1]], ['a', 'b'], ['x', 'y']),
        Tab([[0, -1, 0], [2, 0, 1], [1, 0, -2]]),
        Tab([[0, 0.5], [1, 2]], ['a', None], [None, 'y']),
        Tab([[NAN, 1], [0, 2]], None, ['x', 'y']),
        Tab([[0, 0], [0, 0]], ['a', 'b'], None),
        Tab([[1, 0, 1]], ['a'], ['x', 'y', 'z']),
        Tab([[2], [1], [3]], None, ['x']),
        Tab([[3]]),
        Tab([[1, 0], [0, 1], [1, 1]], None, ['x', 'y']),
        Tab([[True, False], [False, True]], None, ['x', 'y']),
        Tab([['u', 1], [2, 3]], None, ['x', 'y']),
        Tab([], None, ['x', 'y'], 2),
    ]


VALS = [[2, 0, -1], [0, 0, 3], [1, 2, 0.5]]
NOZ = [[2, 1, -1], [1, -2, 3], [0.5, 2, 1]]
BIN = [[1, 0, 1], [0, 0, 1], [1, 1, 0]]


def block(vals, n, w):
    return [[vals[i % 3][j % 3] for j in range(w)] for i in range(n)]


def namings(t, full):
    """names of the other operand relative to those of t"""
    n, w = t.shape
    same = (t.pn, t.fn)
    none = ([None] * n, [None] * w)
    out = [same, none]
    if full:
        diffp = ['q%d' % i for i in range(n)]
        difff = ['r%d' % i for i in range(w)]
        out += [(diffp, t.fn), (t.pn, difff), (diffp, difff), (diffp, none[1]), (none[0], difff)]
        if n > 1:
            out.append((t.pn[::-1], t.fn))
            out.append((t.pn[:1] + [None] * (n - 1), t.fn))
            out.append(([None] * (n - 1) + [t.pn[0]], t.fn))
            out.append((['q'] + t.pn[1:], t.fn))
        if w > 1:
            out.append((t.pn, t.fn[::-1]))
            out.append((t.pn, [None] + t.fn[1:]))
    return [(list(p), list(f)) for p, f in out]


def spec(rows, pn, fn, nf, rtype=None, variant='fresh'):
    s = spec_of(Tab(rows, pn, fn, nf))
    if rtype:
        s['type'] = rtype
    s['variant'] = variant
    return s


OTHERV = ['fresh', 'transposed', 'freversed', 'zeroed', 'view']


def operands(t, rtype, full):
    n, w = t.shape
    out = []
    k = 0
    for vals in (VALS, NOZ):
        rows = block(vals, n, w)
        for pn, fn in namings(t, full and vals is NOZ):
            for ty in (TYPES if full else [rtype, 'Sparse']):
                v = OTHERV[k % len(OTHERV)]
                k += 1
                if v == 'view' and not (n and w):
                    v = 'fresh'
                if v in ('zeroed', 'freversed') and not (n and w):
                    v = 'fresh'
                out.append(spec(rows, pn, fn, w, ty, v))
    if full:
        out.append(spec(block(VALS, n + 1, w), None, None, w))
        out.append(spec(block(VALS, n, w + 1), None, None, w + 1))
        out.append(spec([['u'] * w] * n, None, None, w, 'List') if n and w else spec([], None, None, w))
    return out


def arithmetic(t, rtype, full, forms=('', 'r', 'i')):
    out = []
    for op in arith.ARITH:
        for f in forms:
            name = 'ibin' if f == 'i' else 'bin'
            for s in SCALARS if full else SCALARS[:4]:
                out.append([name, '-', op, f, s])
            if f != 'r':
                for o in operands(t, rtype, full):
                    out.append([name, '-', op, f, o])
    return out


def matrix(t, rtype, full):
    n, w = t.shape
    out = [['un', '-', u] for u in ('neg', 'pos', 'abs')]
    for k in (range(1, 4) if full else (2,)):
        for i, (rp, rf) in enumerate((([None] * w, ['c%d' % j for j in range(k)]), (t.fn, None),
                                      (['q%d' % j for j in range(w)], None), (t.fn[::-1], None))):
            if not full and i > 1:
                continue
            for j, ty in enumerate(TYPES if full else [rtype]):
                if w:
                    out.append(['mm', '-', spec(block(VALS, w, k), rp, rf, k, ty, OTHERV[(i + j) % 5]), '' if j else 'm'])
                    out.append(['imm', '-', spec(block(VALS, w, k), rp, rf, k, ty, OTHERV[(i + j) % 5]), 'i'])
        if n:
            for ln in (None, t.pn):
                out.append(['mm', '-', spec(block(VALS, k, n), None, ln, n, rtype), 'r'])
    out.append(['mm', '-', spec(block(VALS, w + 1, 2), None, None, 2), ''])
    out.append(['mm', '-', 3, ''])
    for p in ((0, 1, 2, 3, 0.5) if full else (2,)):
        out.append(['mp', '-', p])
    return out


def logical(t, rtype, full):
    n, w = t.shape
    out = [['inv', '-']]
    for op in ('and_', 'or_', 'xor'):
        for pn, fn in namings(t, full):
            for i, ty in enumerate(TYPES if full else [rtype]):
                out.append(['log', '-', op, '', spec(block(BIN, n, w), pn, fn, w, ty, OTHERV[i] if n and w else 'fresh')])
        out.append(['log', '-', op, '', 1])
        out.append(['log', '-', op, '', spec(block(VALS, n, w), None, None, w)])
    return out


def stretch(t, rtype, full):
    n, w = t.shape
    out = []
    ops = arith.ARITH + ['and_', 'or_', 'xor']
    for op in ops:
        vals = BIN if op in ('and_', 'or_', 'xor') else NOZ
        types = TYPES if full else [rtype, 'Sparse']
        # t is the full operand
        shapes = {(1, w), (n, 1)}
        if full:
            shapes |= {(1, w + 1), (n + 1, 1), (2, 2)}
        for a, b in sorted(shapes):
            if not a or not b:
                continue
            for pn, fn in ((None, None), (['q%d' % i for i in range(a)], None), (None, t.fn if b == w else None),
                           (t.pn if a == n else None, ['r%d' % j for j in range(b)])):
                for ty in types:
                    out.append(['st', '-', op, 'os', spec(block(vals, a, b), pn, fn, b, ty)])
                    if full and op in ('sub', 'truediv'):
                        out.append(['st', '-', op, 'os', spec(block(VALS, a, b), pn, fn, b, ty)])
        # t is the stretched operand
        if 1 in t.shape:
            k = 3
            for a, b in ((k, w), (n, k)):
                for pn, fn in ((None, None), (['q%d' % i for i in range(a)], None), (t.pn if a == n else None, t.fn if b == w else None)):
                    for ty in types:
                        out.append(['st', '-', op, 'so', spec(block(vals, a, b), pn, fn, b, ty)])
            for a, b in ((1, k), (k, 1)):
                for pn, fn in ((None, None), (None, ['r%d' % j for j in range(b)]), (['q%d' % i for i in range(a)], None)):
                    for ty in types:
                        out.append(['st', '-', op, 'ss', spec(block(vals, a, b), pn, fn, b, ty)])
    return out


def changes(t, rtype):
    """operations which change the object, with the state sorted both ways"""
    out = []
    n, w = t.shape
    for op in arith.ARITH:
        for s in (2, 0, 0.5):
            out.append(['ibin', '-', op, 'i', s])
        for vals in (VALS, NOZ):
            out.append(['ibin', '-', op, 'i', spec(block(vals, n, w), t.pn, t.fn, w, None, 'transposed')])
    out.append(['imm', '-', spec(block(VALS, w, w), None, None, w), 'i'])
    out.append(['imm', '-', spec(block(VALS, w, 2), None, ['c', 'd'], 2), 'i'])
    for axis in 'pf':
        out += D01.tiny(t if axis == 'p' else t.T, axis)
    out.append(['transpose', 'p'])
    out.append(['set', '-', ['2', 0, 0], 0])
    out.append(['set', '-', ['2', -1, -1], 4])
    out.append(['te', '-', 'swap01', None, None, False, False])
    return out


def alphabet(level, rtype):
    if '@' in level:
        name, part = level.split('@')
        k, n = map(int, part.split('/'))
        full = alphabet(name, rtype)
        return lambda t: full(t)[k::n]

    def ops(t):
        if level == 'arith':
            return arithmetic(t, rtype, True)
        if level == 'arith2':
            return arithmetic(t, rtype, False)
        if level == 'other':
            return matrix(t, rtype, True) + logical(t, rtype, True)
        if level == 'stretch':
            return stretch(t, rtype, True)
        if not t.np or not t.nf:
            return []
        if level == 'other2':
            return matrix(t, rtype, False) + logical(t, rtype, False)
        if level == 'stretch2':
            return stretch(t, rtype, False)
        if level == 'mut':
            return changes(t, rtype)
        if level == 'next':
            return (arithmetic(t, rtype, False, ('', 'i')) + matrix(t, rtype, False)
                    + [['it', '-', o, 'nz'] for o in ('point', 'feature')] + [['cz', '-']])
        raise AssertionError(level)
    return ops


def tasks(tier):
    out = []
    for i, t in enumerate(inits()):
        strs = any(isinstance(v, str) for r in t.rows for v in r)
        for rtype in TYPES:
            if rtype == 'Sparse' and strs:
                continue
            out += [[i, rtype, 'fresh', [lv]] for lv in ('arith', 'other', 'stretch')]
            if not t.np or strs:
                continue
            bools = any(isinstance(v, bool) for r in t.rows for v in r)
            for v in MUTABLE + VIEWS:
                if bools and rtype == 'Sparse' and v in ('sorted', 'view', 'view_t', 'appended', 'extracted', 'viewcopy', 'zeroed'):
                    continue  # the construction mixes booleans and numbers, which this scipy refuses
                if v == 'fresh' or not applicable(t, rtype, v):
                    continue
                if tier == 'quick' and rtype != 'Sparse' and (v in ('preversed', 'appended', 'named', 'renamed', 'pread', 'fullview', 'sorted')):
                    continue
                out += [[i, rtype, v, ['arith2' if tier == 'quick' else 'arith']], [i, rtype, v, ['other2' if tier == 'quick' else 'other']]]
                if v in ('freversed', 'view', 'viewcopy', 'pview', 'fview', 'transposed'):
                    out.append([i, rtype, v, ['stretch2' if tier == 'quick' else 'stretch']])
            if tier == 'quick':
                if i in (0, 2, 3) and rtype == 'Sparse' or (i, rtype) in ((1, 'List'), (0, 'Matrix'), (3, 'DataFrame')):
                    out += [[i, rtype, 'fread' if i == 0 else 'fresh', ['mut@%d/6' % k, 'next']] for k in range(6)]
            else:
                for v in ('fresh', 'fread', 'freversed'):
                    out += [[i, rtype, v, ['mut@%d/6' % k, 'mut', 'next']] for k in range(6)]
    return out


def run_task(task, rec):
    i, rtype, variant, levels = task
    alphabets = [alphabet(lv, rtype) for lv in levels]
    if variant in VIEWS:
        # modifying a view is refused (D05)
        alphabets = [lambda t, a=a: [o for o in a(t) if o[0] not in ('ibin', 'imm')] for a in alphabets]
    explore(rec, rtype, inits()[i], alphabets, variant=variant, f=approx)
