"""Errors of the store and of callbacks reach the caller (C13).

On every path with a failed operation the function returns that error, and does nothing more with
the store or with the callbacks. Back edges of loops are paths too: an iteration that goes on after
a failure must keep the error in what it carries along.
"""
from common import *

EFFECT = ('op', 'call', 'rec', 'err')


def describe(e):
    return {'callback': 'the callback', 'rec': 'the recursive call'}.get(e[1], e[1])


def returned(o):
    """what the function hands back: the error of a Result, or of an item Some(Err(..))"""
    v = o.st.pure(o.val)
    for _ in range(3):
        if v[0] == 'adt' and v[1] == OPTION and v[2] == 1:
            v = v[3][0]
        elif v[0] == 'adt' and v[1] == RESULT:
            return v
        else:
            break
    return v


def to(rep):
    """where verdicts about errors go"""
    return getattr(rep, 'errors_to', rep)


def check(rep, rule, body, eng, outs, carries=None, cleanup=False):
    """carries(state, error): the error is kept somewhere for the caller, other than in the result"""
    w = where(body)
    if hasattr(rep, 'checked'):
        rep.checked |= eng.analysed | {w}
    rep = to(rep)
    for o in outs:
        ev = o.st.events
        errs = [i for i, e in enumerate(ev) if e[0] == 'err']
        if not errs:
            continue
        e = ev[errs[0]]
        name = describe(e)
        key = '%s: %s' % (body.name, e[1])
        if o.kind == 'panic':
            # the failure itself is what panics
            direct = ev[-1][0] == 'panic' and len(ev[-1]) > 3 and contains(ev[-1][3], lambda x: x == e[3])
            if not (sure(eng, o.st) or direct and precise(o.st)):
                rep.undecided(rule, w, 'panic after a failure')
            else:
                rep.bad(rule, w, key + ':panic', 'panics when %s fails\npath %s' % (name, fact_str(o.st.pc)))
            continue
        if o.kind != 'return':
            rep.undecided(rule, w, 'path ends with ' + o.kind)
            continue
        v = returned(o)
        has = contains(v, lambda x: x == e[3])
        if not has and carries is not None:
            has = carries(o.st, e[3])
        after = [x for x in ev[errs[0] + 1:] if x[0] in EFFECT]
        if o.st.imprecise and not has:
            rep.undecided(rule, w, 'imprecise path after a failure of ' + name)
        elif not has:
            rep.bad(rule, w, key + ':lost', 'a failure of %s (%s) is not returned; the function goes on to return %s\npath %s' % (
                name, ', '.join(show(x)[:80] for x in e[2]), show(v)[:300], fact_str(o.st.pc)))
        elif v[0] == 'adt' and v[1] == RESULT and v[2] == 0:
            rep.bad(rule, w, key + ':ok', 'a failure of %s is wrapped in an Ok result\npath %s' % (name, fact_str(o.st.pc)))
        elif after and not cleanup:
            rep.bad(rule, w, key + ':goes on', 'after a failure of %s the function still does %s before it returns\npath %s' % (
                name, describe(after[0]), fact_str(o.st.pc)))
        else:
            rep.ok(rule, w, 'a failure of %s is returned' % name)
    for l in eng.loops.values():
        for it in l['iters']:
            st = it['st']
            errs = [e for e in st.events if e[0] == 'err']
            if not errs:
                continue
            e = errs[0]
            kept = any(contains(x, lambda y: y == e[3]) for x in it['final'].values())
            if not kept and carries is not None:
                kept = carries(st, e[3])
            if kept or st.imprecise:
                rep.undecided(rule, w, 'a loop carries an error along')
            else:
                rep.bad(rule, w, '%s: %s:swallowed in a loop' % (body.name, e[1]),
                        'a loop goes on after a failure of %s and forgets the error\npath %s' % (describe(e), fact_str(st.pc)))
