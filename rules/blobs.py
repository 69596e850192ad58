"""Blobs: what a slice shows, and that every blob keeps the memory it points into alive."""
from common import *
import stores
import storemodels as fm
from stores import DATA, find
from linear import Domain, concrete

OWNER = ('sym', 'owner')
BOUND = 'std::ops::Bound'


def is_blob(x):
    return x[0] == 'adt' and x[1].split('::')[-1] == 'Blob'


def blob_value(ctx, data=DATA, owner=OWNER):
    a = ctx.adt('Blob')
    v = {'data': data, 'owner': owner}
    f = [x[0] for x in a['variants'][0][1]]
    if set(f) != set(v):
        raise Missing('fields data and owner of Blob')
    return ('adt', a['id'], 0, tuple(v[x] for x in f))


def parts(ctx, b):
    f = ctx.fields('Blob')
    return b[3][f.index('data')], b[3][f.index('owner')]


def models():
    m = dict(fm.S)

    def bound(which):
        def g(eng, st, v, call):
            r = st.pure(v[0])
            if r[0] == 'adt':
                k, f = r[1].split('::')[-1], r[3]
                x = {'RangeFull': (None, None), 'RangeFrom': (0, None), 'RangeTo': (None, 0), 'RangeToInclusive': (None, 0),
                     'Range': (0, 1), 'RangeInclusive': (0, 1)}.get(k)
                if x is None:
                    return None
                i = x[0 if which == 'start' else 1]
                if i is None:
                    return ('adt', BOUND, 2, ())
                return ('adt', BOUND, 0 if which == 'start' or 'Inclusive' in k else 1, (f[i],))
            t = ('t', 'bound', ('str', which), r)
            out = []
            for i in (0, 1, 2):
                s = st.copy()
                if s.assume(discr(t), i):
                    out.append((s, ('adt', BOUND, i, (('t', 'at', ('str', which), r),) if i < 2 else ())))
            return out
        return g
    m['RangeBounds::start_bound'] = bound('start')
    m['RangeBounds::end_bound'] = bound('end')
    m['slice::as_ptr'] = m['Vec::as_ptr'] = lambda eng, st, v, call: ('t', 'ptr', as_seq(st.deref(v[0])))
    m['slice::as_ptr_range'] = lambda eng, st, v, call: ('adt', 'Range', 0, (('t', 'ptr', as_seq(st.deref(v[0]))), ('t', 'ptrend', as_seq(st.deref(v[0])))))

    def raw(eng, st, v, call):
        x = st.pure(v[0])
        if not is_t(x, 'ptr'):
            return None
        st.event('ext', x[2])
        return take(x[2], v[1])
    m['slice::from_raw_parts'] = raw

    # copies are told apart from what they were made of
    def fresh(eng, st, v, call):
        x = as_seq(st.deref(v[0]))
        if is_t(x, 'copy') or x == EMPTY:
            return x
        return ('t', 'copy', ('str', eng.new('copy')), x)
    for n in ('slice::to_vec', 'slice::to_owned', 'ToOwned::to_owned', 'Vec::clone', 'Vec::from', 'slice::into_vec', 'Arc::from'):
        m[n] = fresh
    return m


def engine(ctx):
    eng = Engine(ctx.prog, models(), max_steps=ctx.big)
    eng.sink = ctx.loop_seen
    eng.on_recursion = nm.on_recursion
    eng.templates = {}
    eng.check_sub = True
    return eng


def uncopy(v):
    def f(x):
        if is_t(x, 'copy'):
            return uncopy(x[3])
        return None
    return substitute(v, f)


def addr(x):
    """the address of a slice as a number"""
    return ('t', 'ptraddr', ('t', 'ptr', x))


# ---- slices --------------------------------------------------------------------------------------

def slicing(ctx, rep):
    rule = 'a slice shows exactly the requested bytes'
    body = ctx.method('Blob', 'slice')
    R = ('sym', 'range')
    eng = engine(ctx)
    eng.check_add = True
    try:
        outs = eng.exec_body(State(), body, [blob_value(ctx), R])
    except TooComplex as e:
        return rep.undecided(rule, where(body), str(e))
    rep.analysed.add(body.path)

    def limits(o):
        ks, ke = (o.st.decide(discr(('t', 'bound', ('str', w), R))) for w in ('start', 'end'))
        if ks is None or ke is None:
            return None
        a, b = (('t', 'at', ('str', w), R) for w in ('start', 'end'))
        return (ZERO if ks == 2 else add(a, ONE) if ks == 1 else a), (length(DATA) if ke == 2 else add(b, ONE) if ke == 0 else b)
    judge_slices(ctx, rep, rule, body, outs, limits, DATA)

    rule = 'a sub slice is found by its address'
    body = ctx.method('Blob', 'slice_ref')
    SUB = ('sym', 'subset')
    eng = engine(ctx)
    try:
        outs = eng.exec_body(State(), body, [blob_value(ctx), SUB])
    except TooComplex as e:
        return rep.undecided(rule, where(body), str(e))
    rep.analysed.add(body.path)

    def limits2(o):
        if o.st.decide(eq0(length(SUB))) == 1:
            return ZERO, ZERO
        a = sub(addr(SUB), addr(DATA))
        return a, add(a, length(SUB))
    judge_slices(ctx, rep, rule, body, outs, limits2, DATA, {addr(SUB): range(4, 10), addr(DATA): range(4, 8), length(SUB): range(1, 4), length(DATA): range(0, 5)})


def judge_slices(ctx, rep, rule, body, outs, limits, data, leaves=None):
    w = where(body)
    n = length(data)
    for o in outs:
        ev = [e for e in o.st.events if e[0] == 'panic']
        if o.kind == 'panic' and ev and ev[-1][1] == 'assert' and 'verflow' in str(ev[-1][2]):
            # a check that only some builds have
            if Domain(o.st, [(sub(I(2 ** 63 - 1), n), '>=')]).contradictory():
                rep.ok(rule, w, 'no overflow')
            elif precise(o.st):
                rep.bad(rule, w, body.name + ': overflow', 'the request is computed with an overflow that builds without overflow checks do not notice\npath %s' % fact_str(o.st.pc))
            else:
                rep.undecided(rule, w, 'possible overflow')
            continue
        lim = limits(o)
        if lim is None:
            if o.kind == 'panic' and any(is_t(t, 'overflow') and x == 1 for t, x in o.st.facts.items()):
                rep.ok(rule, w, 'panics for a start behind every index')
            elif o.kind == 'panic':
                rep.undecided(rule, w, 'panics before the range is looked at')
            else:
                rep.undecided(rule, w, 'the range is not looked at through its bounds')
            continue
        a, b = lim
        d = Domain(o.st)
        if d.contradictory():
            continue
        valid = [(a, '>='), (sub(b, a), '>='), (sub(n, b), '>=')]
        if o.kind == 'panic':
            dv = Domain(o.st, [(x, '>=') for x, _ in valid])
            # what is not larger than the length of a slice does not overflow
            over = [t[2] for t, x in o.st.facts.items() if is_t(t, 'overflow') and x == 1]
            if any(dv.ge0(sub(n, x)) for x in over) or dv.contradictory():
                rep.ok(rule, w, 'panics only outside of the bounds')
            elif precise(o.st):
                rep.bad(rule, w, body.name + ': panics', 'panics for a range inside the blob: %s .. %s\npath %s' % (show(a), show(b), fact_str(o.st.pc)))
            elif leaves and concrete(list(o.st.pc) + [(lt0(x), 0) for x, _ in valid], leaves):
                rep.bad(rule, w, body.name + ': panics', 'panics for a range inside the blob: %s .. %s\npath %s' % (show(a), show(b), fact_str(o.st.pc)))
            else:
                rep.undecided(rule, w, 'a path that panics: %s' % fact_str(o.st.pc))
            continue
        v = o.st.pure(o.val)
        if o.kind != 'return' or not is_blob(v):
            rep.undecided(rule, w, 'result ' + show(v)[:200])
            continue
        x, owner = parts(ctx, v)
        x = as_seq(x)
        if not precise(o.st):
            rep.undecided(rule, w, 'imprecise path: %s' % (o.st.imprecise,))
            continue
        if x == EMPTY:
            if d.equal(a, b) and (a, b) == (ZERO, ZERO) or d.equal(a, b) and d.ge0(sub(n, b)) and d.ge0(a):
                rep.ok(rule, w, 'an empty request gives an empty blob')
            else:
                rep.bad(rule, w, body.name + ': empty', 'an empty blob for the range %s .. %s\npath %s' % (show(a), show(b), fact_str(o.st.pc)))
            continue
        good = all(d.ge0(y) for y, _ in valid)
        start, ln = ZERO, None
        y = x
        if is_t(y, 'take'):
            ln, y = y[3], y[2]
        if is_t(y, 'drop'):
            start, y = y[3], y[2]
        if ln is None:
            ln = sub(n, start)
        if y != data:
            (rep.bad if not contains(y, lambda z: is_t(z, 'opaque')) else lambda r, w, k, m: rep.undecided(r, w, m))(
                rule, w, body.name + ': other bytes', 'the slice does not show bytes of the blob but ' + show(x)[:200])
            continue
        if not good:
            rep.bad(rule, w, body.name + ': out of bounds', 'a range is accepted that is not shown to be inside the blob: %s .. %s\npath %s' % (
                show(a), show(b), fact_str(o.st.pc)))
        elif d.equal(start, a) and d.equal(add(start, ln), b):
            rep.ok(rule, w, 'exactly the bytes of the range')
        else:
            rep.bad(rule, w, body.name + ': wrong bytes', 'the slice shows %s instead of %s .. %s\npath %s' % (show(x), show(a), show(b), fact_str(o.st.pc)))
        if owner == OWNER or same_option(o.st, owner):
            rep.ok(rule, w, 'the slice keeps the owner')
        else:
            rep.bad(rule, w, body.name + ': owner', 'the slice does not keep the owner of the blob alive: its owner is %s' % show(owner)[:200])


def same_option(st, owner):
    o = option_norm(owner)
    return o == OWNER or o == NONE and st.decide(discr(OWNER)) == 0


# ---- access ----------------------------------------------------------------------------------------

def access(ctx, rep):
    rule = 'a blob shows its bytes'
    for tr, name in (('Deref', 'deref'), ('AsRef', 'as_ref'), ('Borrow', 'borrow')):
        body = ctx.method('Blob', name, trait=tr)
        for o in engine(ctx).exec_body(State(), body, [blob_value(ctx)]):
            v = o.st.pure(o.val) if o.kind == 'return' else None
            if v == DATA:
                rep.ok(rule, where(body), 'the bytes themselves')
            elif v is None or not precise(o.st):
                rep.undecided(rule, where(body), 'result')
            else:
                rep.bad(rule, where(body), name, 'a blob shows %s instead of its bytes' % show(v)[:200])
    body = ctx.method('Blob', 'clone', trait='Clone')
    for o in engine(ctx).exec_body(State(), body, [blob_value(ctx)]):
        v = o.st.pure(o.val) if o.kind == 'return' else None
        if v is not None and is_blob(v) and parts(ctx, v)[0] == DATA and option_norm(parts(ctx, v)[1]) == OWNER:
            rep.ok(rule, where(body), 'a clone has the same bytes and owner')
        elif v is None or not precise(o.st) or not is_blob(v):
            rep.undecided(rule, where(body), 'result ' + (show(v)[:200] if v else o.kind))
        else:
            rep.bad(rule, where(body), 'clone', 'a clone of a blob is ' + show(v)[:300])


# ---- owners ------------------------------------------------------------------------------------------

def root(d):
    while True:
        if is_t(d, 'take') or is_t(d, 'drop') or is_t(d, 'idx'):
            d = d[2]
        else:
            return d


def held(o):
    """what a value owns"""
    r = [o]
    if o[0] == 'adt':
        for x in o[3]:
            if isinstance(x, tuple) and x:
                r += held(x)
    return r


def inside(r, o):
    """r is o or a part of it"""
    while r != o:
        if is_t(r, 'fld') or is_t(r, 'as') or is_t(r, 'deref') or is_t(r, 'take') or is_t(r, 'drop'):
            r = r[2]
        else:
            return False
    return True


def derived(data, owner, pairs):
    """data lives in memory that owner keeps alive"""
    r = root(data)
    if owner[0] == 'adt' and owner[1] == OPTION:
        owner = owner[3][0] if owner[2] else None
        if owner is None:
            return False
    r0 = r
    o0 = option_norm(owner)
    if any(inside(r0, x) for x in held(o0)):
        return True
    for d, o in pairs:
        if r0 == d and (o0 == o or inside(o0, o)):
            return True
    # both parts of one blob that came from somewhere else
    return is_t(r0, 'fld') and inside(o0, r0[2])


def constructors(ctx, rep):
    rule = 'every blob keeps the memory it points into alive'
    pairs = [(DATA, OWNER)]
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.path):
        if b.kind not in ('AssocFn', 'Fn'):
            continue
        ret = ctx.prog.tys_s(b.locals[0][0])
        if 'Blob<' not in ret or 'dyn ' in ret.split('Blob<')[0]:
            continue
        st = State()
        args = []
        for i in range(1, b.argc + 1):
            ty = ctx.prog.tys_s(b.locals[i][0])
            base = ty.lstrip('&').replace('mut ', '')
            if base.split('<')[0].split('::')[-1] == 'Blob':
                args.append(blob_value(ctx))
            elif base.split('<')[0].split('::')[-1] == 'PagedFileStore':
                P = stores.paged(ctx, rep, rule)
                if P is None:
                    args = None
                    break
                args.append(P.self_val)
                st = P.state()
            elif ty.startswith('&mut '):
                st.mem[('A', i)] = ('sym', 'arg%d' % i)
                args.append(('ref', ('A', i), ()))
            else:
                args.append(('sym', 'arg%d' % i))
        if args is None:
            continue
        eng = engine(ctx)
        eng.mark_ext = True
        try:
            outs = eng.exec_body(st, b, args)
        except TooComplex as e:
            rep.undecided(rule, where(b), str(e))
            continue
        rep.analysed.add(b.path)
        for o in outs:
            if o.kind != 'return':
                continue
            v = o.st.pure(o.val)
            ext = [root(e[1]) for e in o.st.events if e[0] == 'ext']
            blobs = []

            def go(x):
                if is_blob(x):
                    blobs.append(x)
                elif x[0] == 'adt':
                    for y in x[3]:
                        if isinstance(y, tuple) and y:
                            go(y)
            go(v)
            if not blobs:
                rep.ok(rule, where(b), 'no blob is made here')
            for x in blobs:
                d, ow = parts(ctx, x)
                d = as_seq(d)
                none = ow == NONE or ow == OWNER and o.st.decide(discr(OWNER)) == 0
                if d == EMPTY:
                    rep.ok(rule, where(b), 'an empty blob points to nothing')
                elif none:
                    r = root(d)
                    lost = [e for e in ext if e == r or contains(e, lambda y: y == r) or contains(r, lambda y: y == e)]
                    static = r[0] == 'str'
                    if not lost or static:
                        rep.ok(rule, where(b), 'a blob without owner borrows from its argument')
                    elif not precise(o.st):
                        rep.undecided(rule, where(b), 'imprecise path: %s' % (o.st.imprecise,))
                    else:
                        rep.bad(rule, where(b), b.name + ': no owner', 'the lifetime of %s is extended, but the blob has no owner that keeps it alive\npath %s' % (
                            show(d)[:200], fact_str(o.st.pc)))
                elif derived(d, ow, pairs):
                    rep.ok(rule, where(b), 'the owner of the blob is what its bytes belong to')
                elif is_t(ow, 'sym') or ow[0] == 'sym':
                    if b.is_unsafe or b.name == 'owned_new':
                        rep.ok(rule, where(b), 'the caller names the owner')
                    else:
                        rep.undecided(rule, where(b), 'owner %s of %s' % (show(ow)[:100], show(d)[:100]))
                elif not precise(o.st) or contains(ow, lambda y: is_t(y, 'opaque')) or contains(d, lambda y: is_t(y, 'opaque')):
                    rep.undecided(rule, where(b), 'owner %s of %s' % (show(ow)[:200], show(d)[:200]))
                else:
                    rep.bad(rule, where(b), b.name + ': wrong owner', 'the owner of the blob does not keep its bytes alive: bytes %s, owner %s\npath %s' % (
                        show(d)[:300], show(ow)[:300], fact_str(o.st.pc)))
