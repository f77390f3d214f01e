"""Breadth-first exploration of operation histories on the real objects."""
import json
from mc.model import Tab, Rejected, Unspecified, cell
from mc.obs import (build, observe, observe_full, canon_tab, is_base, Inconsistent)
from mc.ops import model_apply, real_apply, tab_of, PURE_OPS
from mc.variants import make

PURE = PURE_OPS
PURE |= {'copy', 'count', 'repeat', 'unique'}


def describe(rtype, init, hist, variant='fresh'):
    return '%s%s %s :: %s' % (rtype, '' if variant == 'fresh' else '/' + variant, json.dumps([init.rows, init.pn, init.fn]),
                            ' ; '.join(json.dumps(o) for o in hist))


def replay(rtype, init, hist, variant='fresh'):
    obj = make(init, rtype, variant)
    for op in hist:
        real_apply(obj, op)
    return obj


def explore(rec, rtype, init, alphabets, full_every=True, seen=None,
            variant='fresh', f=cell):
    """
    alphabets: list of functions tab -> list of ops, one per depth.
    States merge when the observable table AND the operation that produced it
    are equal: the hidden representation may depend on the last operation.
    """
    seen = set() if seen is None else seen
    obj = make(init, rtype, variant)
    ob = observe_full(obj, f)
    if ob != canon_tab(init, f):
        rec.violation('build ' + describe(rtype, init, [], variant), ob)
        return
    rec.state((rtype, ob))
    frontier = [([], init)]
    for depth, alphabet in enumerate(alphabets):
        nxt = []
        for hist, tab in frontier:
            obj = None
            want_before = canon_tab(tab, f)
            for op in alphabet(tab):
                key = None
                try:
                    mt, mret = model_apply(tab, op)
                    rejected = False
                except Rejected:
                    mt, mret, rejected = tab, None, True
                except Unspecified:
                    continue
                if obj is None:
                    obj = replay(rtype, init, hist, variant)
                extra = []
                err = None
                ret = None
                try:
                    ret = real_apply(obj, op, extra)
                except Exception as e:  # noqa
                    err = e
                rec.step()
                name = op[0]

                def bad(why):
                    rec.violation(describe(rtype, init, hist + [op], variant), why)

                if rejected:
                    rec.rejected += 1
                    if err is None:
                        bad('must be refused, but returned %r' % (ret,))
                        obj = None
                        continue
                elif err is not None:
                    bad('raised %s: %s; expected %r / %r' % (type(err).__name__, str(err)[:300], mt, mret))
                    obj = None
                    continue
                isnew = False
                skey = (canon_tab(mt, f), name, op[1])
                if not rejected and name not in PURE and skey not in seen:
                    seen.add(skey)
                    isnew = True
                try:
                    got = observe_full(obj, f) if isnew else observe(obj, f)
                except Exception as e:
                    bad('unreadable afterwards: %s: %s' % (type(e).__name__, e))
                    obj = None
                    continue
                want = canon_tab(mt, f)
                rec.outcome(got)
                if got != want:
                    bad('object is\n%r\nmodel is\n%r' % (got, want))
                    obj = None
                    continue
                if not rejected:
                    how = 'full'
                    want_type = rtype
                    if isinstance(mret, tuple) and mret[0] in ('values', 'values!'):
                        how = mret[0]
                        if len(mret) > 2 and mret[2] is not None:
                            want_type = mret[2]
                        mret = mret[1]
                    if isinstance(mret, tuple) and mret[0] == 'cell':
                        if is_base(ret) or f(ret) != f(mret[1]):
                            bad('returned %r, expected %r' % (ret, mret[1]))
                    elif isinstance(mret, Tab):
                        if not is_base(ret):
                            bad('returned %r, expected a data object' % type(ret))
                        else:
                            try:
                                rg = observe_full(ret, f) if depth == 0 else observe(ret, f)
                            except Exception as e:
                                bad('result unreadable: %s: %s' % (type(e).__name__, e))
                                continue
                            rec.outcome(rg)
                            cut = 4 if how == 'full' else 2
                            if rg[:cut] != canon_tab(mret, f)[:cut]:
                                bad('result is\n%r\nmodel is\n%r' % (rg, canon_tab(mret, f)))
                            elif ret.getTypeString() != want_type:
                                bad('result type %s' % ret.getTypeString())
                            elif ret is obj:
                                bad('result is the object itself')
                    elif mret is not None and ret != mret:
                        bad('returned %r, expected %r' % (ret, mret))
                for other, ot in extra:
                    if observe(other, f) != canon_tab(ot, f):
                        bad('argument changed to %r' % (observe(other, f),))
                if not rejected and name not in PURE:
                    if isnew:
                        rec.state((rtype, got))
                        nxt.append((hist + [op], mt))
                        rec.trace()
                        if len(hist) >= 1:
                            rec.sample(describe(rtype, init, hist + [op], variant))
                    obj = None
        frontier = nxt
