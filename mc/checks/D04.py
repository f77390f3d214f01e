"""D04: an object shares no changeable state with its copies, results, arguments or raw sources."""
import copy
import numpy as np
import nimble
from mc import reads, tables, alias
from mc.model import Tab, approx
from mc.obs import TYPES, observe, check_names, build
from mc.variants import MUTABLE, VIEWS, applicable, make
from mc.histories import describe

PROPERTY = 'D04'
LEVEL = 'model_checking'
RULE = ('all two-step histories: every call that yields an object, a raw container or an export, or that takes one as an argument, followed by '
        'every in-place change of one side; the other side must keep its table. Both directions, every storage type, hidden-state variants')
ASSUMPTIONS = ['views share data with their source by design and are excluded (see D05)', 'nimble.data with copyData left at its default',
               'tables 2x2 to 3x3 of numbers']

NAN = float('nan')


def inits():
    return [
        Tab([[1, 0, 2], [0, 3, 1], [2, 1, 0]], ['a', 'b', 'c'], ['x', 'y', 'z']),
        Tab([[1, 0.5], [0, 2]]),
        Tab([[0, 1], [NAN, 1], [1, 0]], None, ['x', 'y']),
    ]


SKIP = {'groupBy', 'text', 'compare'}


def tasks(tier):
    out = []
    quick = tier == 'quick'
    for i, t in enumerate(inits()):
        if quick and i == 2:
            continue
        for rtype in TYPES:
            vs = [v for v in MUTABLE + VIEWS if applicable(t, rtype, v)]
            if quick:
                vs = ['fresh'] + (['freversed', 'fullview', 'view'] if i == 0 else [])
            for v in vs:
                parts = 4 if v == 'fresh' else 4
                for k in range(parts):
                    out.append(['result', i, rtype, v, k, parts, quick])
                if v not in VIEWS:
                    out.append(['args', i, rtype, v, 0, 1, quick])
    for rtype in TYPES:
        for k in range(4):
            out.append(['raw', 0, rtype, 'fresh', k, 4, quick])
    return out


def muts(quick):
    return alias.SHORT if quick else list(alias.MUT)


def mutate(o, m):
    try:
        alias.MUT[m](o)
        return True
    except Exception:  # noqa  refused for this object
        return False


def call(name, o):
    try:
        return reads.R[name][0](o)
    except Exception:  # noqa
        return None


def ob(o):
    try:
        check_names(o.points)
        check_names(o.features)
        return observe(o, approx)
    except Exception as e:  # noqa
        return 'unreadable %r' % (e,)


def results(task, rec):
    _, i, rtype, v, k, parts, quick = task
    t = inits()[i]
    names = [n for n in reads.names() if not reads.R[n][1] & SKIP][k::parts]
    isview = v in VIEWS
    for n in names:
        o = make(t, rtype, v)
        r = call(n, o)
        if r is None:
            continue
        want = ob(o)

        def bad(what, why):
            rec.violation(describe(rtype, t, [[n], [what]], v), why)
        rec.state((rtype, v, n))
        # the raw containers in the result
        if alias.has_raw(r):
            rec.step()
            alias.spoil(r)
            if ob(o) != want:
                bad('overwrite the result', 'the object became %r' % (ob(o),))
                continue
        count = len(alias.bases(call(n, make(t, rtype, v))))
        idx = range(count) if not quick else ([0, count - 1] if count > 1 else range(count))
        for m in muts(quick):
            # change the results
            for j in idx:
                bs = alias.bases(call(n, o))
                if j >= len(bs):
                    continue
                before = [ob(b) for b in bs]
                mutate(bs[j], m)
                rec.step()
                if ob(o) != want:
                    bad(m + ' on result %d' % j, 'the object became %r\nwas %r' % (ob(o), want))
                    o = make(t, rtype, v)
                for q, b in enumerate(bs):
                    if q != j and b is not bs[j] and ob(b) != before[q]:
                        bad(m + ' on result %d' % j, 'result %d became %r\nwas %r' % (q, ob(b), before[q]))
            # change the object
            if isview or not (count or alias.has_raw(r)):
                continue
            o2 = make(t, rtype, v)
            r2 = call(n, o2)
            if alias.has_view(r2):
                continue
            c = reads.canon(r2)
            mutate(o2, m)
            rec.step()
            try:
                c2 = reads.canon(r2)
            except Exception as e:  # noqa
                c2 = repr(e)
            rec.outcome(c2)
            if c2 != c:
                bad(m + ' on the object', 'the result became %r\nwas %r' % (c2, c))
    # extracted parts and what remains
    if isview:
        return
    for n in ('points.extract', 'features.extract', 'trainAndTestSets'):
        for m in muts(quick):
            for side in (0, 1):
                o = make(t, rtype, v)
                if n == 'trainAndTestSets':
                    o, r = o.trainAndTestSets(0.5, useLog=False)
                else:
                    r = getattr(o, n.split('.')[0]).extract([0], useLog=False)
                a, b = (o, r) if side == 0 else (r, o)
                before = ob(b)
                mutate(a, m)
                rec.step()
                if ob(b) != before:
                    rec.violation(describe(rtype, t, [[n], [m, side]], v), 'the other part became %r\nwas %r' % (ob(b), before))
    rec.trace(len(names))


def same(a, b):
    return reads.canon(a) == reads.canon(b)


def arguments(task, rec):
    _, i, rtype, v, k, parts, quick = task
    t = inits()[i]
    for n, (mk, f) in alias.OBJARG.items():
        for at in TYPES:
            for av in ('fresh', 'view'):
                def setup():
                    o = make(t, rtype, v)
                    a = mk(o, at)
                    if av == 'view':
                        a = a.view()
                    return o, a
                o, a = setup()
                wa = ob(a)
                try:
                    f(o, a)
                    ok = True
                except Exception:  # noqa
                    ok = False
                rec.step()
                rec.state((rtype, v, n, at, av))

                def bad(what, why):
                    rec.violation(describe(rtype, t, [[n, at, av]] + what, v), why)
                if ob(a) != wa:
                    bad([], 'the argument became %r\nwas %r' % (ob(a), wa))
                if not ok or av == 'view':
                    continue
                for m in muts(quick):
                    for side in (0, 1):
                        o, a = setup()
                        f(o, a)
                        x, y = (o, a) if side == 0 else (a, o)
                        want = ob(y)
                        mutate(x, m)
                        rec.step()
                        if ob(y) != want:
                            bad([[m, ('object', 'argument')[side]]], 'the %s became %r\nwas %r' % (('argument', 'object')[side], ob(y), want))
    for n, (mk, f) in alias.RAWARG.items():
        o = make(t, rtype, v)
        a = mk(o)
        before = copy.deepcopy(a)
        try:
            r = f(o, a)
        except Exception:  # noqa
            r = None
        rec.step()
        rec.state((rtype, v, n))
        if not same(a, before):
            rec.violation(describe(rtype, t, [[n]], v), 'the argument became %r\nwas %r' % (a, before))
        want = ob(o)
        wr = reads.canon(r)
        alias.spoil(a)
        if ob(o) != want or reads.canon(r) != wr:
            rec.violation(describe(rtype, t, [[n], ['overwrite the argument']], v), 'the object became %r\nwas %r' % (ob(o), want))
        # and the argument is not changed later on through the object
        for m in muts(quick):
            o = make(t, rtype, v)
            a = mk(o)
            before = copy.deepcopy(a)
            try:
                f(o, a)
            except Exception:  # noqa
                continue
            mutate(o, m)
            rec.step()
            if not same(a, before):
                rec.violation(describe(rtype, t, [[n], [m]], v), 'the argument became %r\nwas %r' % (a, before))
    rec.trace()


def raw(task, rec):
    _, i, rtype, v, k, parts, quick = task
    src = list(alias.sources().items())[k::parts]
    for n, mk in src:
        for ntype in (None, 'list', 'dict', True):
            kw = {}
            if ntype is True:
                kw = {'featureNames': True} if 'lists' in n else {'pointNames': True, 'featureNames': True}
            for extra in ({}, {'treatAsMissing': None, 'convertToType': None}, {'convertToType': float}, {'keepFeatures': [1, 0]}):
                def setup():
                    s = mk()
                    kws = dict(kw, **copy.deepcopy(extra))
                    if ntype in ('list', 'dict'):
                        try:
                            shape = nimble.data(mk(), returnType=rtype, useLog=False).shape
                        except Exception:  # noqa
                            return s, kws, None
                        pn = ['pn%d' % i for i in range(shape[0])]
                        fn = ['fn%d' % i for i in range(shape[1])]
                        if ntype == 'dict':
                            pn, fn = {x: i for i, x in enumerate(pn)}, {x: i for i, x in enumerate(fn)}
                        kws.update(pointNames=pn, featureNames=fn)
                    try:
                        o = nimble.data(s, returnType=rtype, useLog=False, **kws)
                    except Exception:  # noqa
                        o = None
                    return s, kws, o
                s, kws, o = setup()
                rec.step()
                rec.state((rtype, n, ntype, repr(extra)))
                key = '%s nimble.data(%s, names=%s, %s)' % (rtype, n, ntype, extra)
                if not same(s, mk()):
                    rec.violation(key, 'the source became %r' % (s,))
                if o is None:
                    continue
                want = ob(o)
                ks = reads.canon({a: b for a, b in kws.items() if a in ('pointNames', 'featureNames', 'keepFeatures')})
                for m in muts(quick):
                    if extra and quick and m not in ('setitem', 'features.setNames one', 'points.setNames one', 'imul', 'points.permute'):
                        continue
                    s, kws, o = setup()
                    c = reads.canon(s)
                    mutate(o, m)
                    rec.step()
                    if reads.canon(s) != c:
                        rec.violation(key + ' ; ' + m, 'the source became %r' % (s,))
                    k2 = reads.canon({a: b for a, b in kws.items() if a in ('pointNames', 'featureNames', 'keepFeatures')})
                    if k2 != ks:
                        rec.violation(key + ' ; ' + m, 'the arguments became %r' % (kws,))
                s, kws, o = setup()
                alias.spoil(s)
                alias.spoil(kws)
                rec.step()
                if ob(o) != want:
                    rec.violation(key + ' ; overwrite the source', 'the object became %r\nwas %r' % (ob(o), want))
    rec.trace()


def run_task(task, rec):
    {'result': results, 'args': arguments, 'raw': raw}[task[0]](task, rec)
