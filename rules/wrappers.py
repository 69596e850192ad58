"""Convenience methods against the general ones they stand for (C10)."""
from common import *
import errors

a, sa, b, sb, f, k1, k2, k3 = (('sym', x) for x in ('a', 'sa', 'b', 'sb', 'f', 'k1', 'k2', 'k3'))
SELF = ('R', 'self')
SYMS = {a, sa, b, sb, f, k1, k2, k3}


def sig(prog, body):
    return [prog.tys_s(body.locals[i + 1][0]) for i in range(body.argc)]


def make_args(ctx, body, conv=False):
    """abstract arguments by type; st memory for self"""
    st = State()
    args = []
    keys = [k1, k2, k3]
    for i, t in enumerate(sig(ctx.prog, body)):
        if i == 0 and t.startswith('&mut'):
            st.mem[SELF] = ctx.tree(a, sa)
            args.append(('ref', SELF, ()))
        elif i == 0 and 'RadixTree' in t:
            args.append(ctx.tree(a, sa))
        elif 'RadixTree<' in t or t.endswith('RadixTree'):
            args.append(ctx.tree(b, sb))
        elif 'Vec<u8>' in t:
            args.append(keys.pop(0))
        else:
            args.append(None)
    return st, args, keys


class Behaviour:
    """the paths of a function, in a form that can be compared"""

    def __init__(self, ctx, body, args, st):
        self.eng = eng = ctx.engine()
        self.body = body
        self.outs = eng.exec_body(st, body, args)
        self.result = {}
        self.imprecise = False
        for o in self.outs:
            self.imprecise |= bool(o.st.imprecise)
            if any(e[0] == 'err' for e in o.st.events):
                continue
            v = o.st.pure(o.val) if o.kind == 'return' else ('str', o.kind)
            if v[0] == 'adt' and v[1] == RESULT and v[2] == 0:
                v = v[3][0]
            v = self.canon(v)
            fin = o.st.pure(o.st.mem[SELF]) if SELF in o.st.mem else None
            k = frozenset(o.st.pc)
            self.result.setdefault(k, set()).add((v, fin))
        self.loops = []
        for l in eng.loops.values():
            for it in l['iters']:
                if any(e[0] == 'err' for e in it['st'].events):
                    continue
                self.imprecise |= bool(it['st'].imprecise)
                self.loops.append((frozenset(it['st'].pc), tuple(sorted(((repr(k), v) for k, v in it['final'].items())))))
        self.loops = frozenset(self.loops)

    def canon(self, v):
        """item wise adapters of an infallible iterator"""
        while is_t(v, 'map') and self.item_ident(v[3]):
            v = v[2]
        return v

    def item_ident(self, fn):
        n = ('sym', 'item')
        try:
            r = self.eng.apply(State(), fn, [ok(n)])
        except TooComplex:
            return False
        return len(r) == 1 and r[0].kind == 'return' and r[0].st.pure(r[0].val) == n


def strip(name):
    return name[4:] if name.startswith('try_') else None


def delegates(ctx, rep):
    """every infallible method behaves like the fallible method of the same name"""
    rule = 'infallible methods behave like the fallible ones'
    tries = {}
    for b in ctx.prog.bodies.values():
        if strip(b.name) and ctx.prog.self_adt(b) and ctx.prog.self_adt(b).split('<')[0].split('::')[-1] == 'RadixTree' and b.kind not in ('Closure', 'closure'):
            tries[strip(b.name)] = b
    for name, tb in sorted(tries.items()):
        r = [x for x in ctx.method('RadixTree', name, all_=True)]
        if len(r) != 1 or name in ('dump',):
            continue
        one(ctx, rep, rule, r[0], tb)


def full_args(ctx, body):
    st, args, keys = make_args(ctx, body)
    rest = list(keys)
    for i, x in enumerate(args):
        if x is None:
            args[i] = f if callable_type(ctx, body, i) else ('sym', 'conv') if is_conv(ctx, body, i) else rest.pop(0)
    return st, args


def forwards(ctx, rep, rule, body, tb):
    """True when the method was recognised as a single call of a fallible one"""
    w = where(body)
    models = dict(nm.M)
    tries = [b for b in ctx.prog.bodies.values() if strip(b.name) and ctx.prog.self_adt(b) and ctx.prog.self_adt(b).split('<')[0].split('::')[-1] == 'RadixTree']

    def rec(name):
        def m(eng, st, v, call):
            st.event('try', name, tuple(v))
            ty = eng.prog.tys_s(call.ty)
            val = ('t', 'tried', ('str', name))
            if v[0][0] == 'ref':
                st.write(v[0][1:], ('t', 'after', ('str', name)))
            if ty.startswith('std::result::Result'):
                return ok(UNIT if 'Result<()' in ty else val)
            return val
        return m
    for t in tries:
        models['RadixTree::' + t.name] = rec(t.name)
    eng = ctx.engine(models)
    st, args = full_args(ctx, body)
    outs = eng.exec_body(st, body, args)
    if len(outs) != 1 or outs[0].kind != 'return' or outs[0].st.imprecise:
        return False
    o = outs[0]
    calls = [e for e in o.st.events if e[0] == 'try']
    if len(calls) != 1:
        return False
    _, name, v = calls[0]
    res = o.st.pure(o.val)
    n = ('sym', 'item')
    while is_t(res, 'map'):
        r = eng.apply(State(), res[3], [ok(n)])
        if not (len(r) == 1 and r[0].kind == 'return' and r[0].st.pure(r[0].val) == n):
            return False
        res = res[2]
    if res not in (UNIT, ('t', 'tried', ('str', name))):
        return False
    want_st, want = full_args(ctx, tb)
    bad = None
    if name != tb.name:
        if len(v) != len(want):
            return False
        bad = 'is carried out by %s' % name
    else:
        for i, (x, y) in enumerate(zip(v, want)):
            if x[0] == 'ref' and x == y:
                continue
            x = o.st.pure(x)
            if y == ('sym', 'conv'):
                if not (x == y or is_conv_val(x)):
                    return False
            elif y == f:
                r = same_callback(eng, o.st, x)
                if r is None:
                    return False
                if r is not True:
                    bad = 'wraps the function of the caller as ' + r
            elif x != y:
                y2 = want_st.pure(y)
                if x == y2:
                    continue
                if not clean(x, SYMS) and x[0] != 'adt':
                    return False
                bad = 'argument %d of %s is %s' % (i, name, show(x))
    rep.analysed |= eng.analysed
    rep.count('paths_analysed', len(outs))
    if bad:
        rep.bad(rule, w, body.name, '%s %s' % (body.name, bad))
    else:
        rep.ok(rule, w, 'forwards to %s with the same arguments' % name)
    return True


def same_callback(eng, st, fn):
    """fn answers what the function of the caller answers"""
    if fn == f:
        return True
    if fn[0] != 'clo' or fn[1] not in eng.prog.bodies:
        return None
    n = eng.prog.bodies[fn[1]].argc - 1
    x = [('sym', 'x%d' % i) for i in range(n)]
    st = st.copy()
    cell = ('R', 'x')
    st.mem[cell] = x[0]
    body = eng.prog.bodies[fn[1]]
    mut = eng.prog.tys_s(body.locals[2][0]).startswith('&mut')
    args = [('ref', cell, ())] + x[1:] if mut else x
    outs = eng.apply(st, fn, args)
    for o in outs:
        if o.kind != 'return' or o.st.imprecise:
            return None
        v = o.st.pure(o.val)
        if v[0] == 'adt' and v[1] == RESULT and v[2] == 0:
            v = v[3][0]
        t = ('t', 'cb', f) + tuple(x)
        if mut:
            fin = o.st.pure(o.st.mem[cell])
            if fin != ('t', 'cbm', f, I(0)) + tuple(x) or v not in (UNIT, t):
                return '%s leaving %s' % (show(v), show(fin))
        elif v != t:
            k = o.st.decide(t)
            if is_int(v) and k is not None and v == I(k):
                continue
            return show(v)
    return True


def one(ctx, rep, rule, body, tb):
    w = where(body)
    try:
        if forwards(ctx, rep, rule, body, tb):
            return
        st, args = full_args(ctx, body)
        st2, targs = full_args(ctx, tb)
        x = Behaviour(ctx, body, args, st)
        y = Behaviour(ctx, tb, targs, st2)
    except TooComplex as e:
        return rep.undecided(rule, w, str(e))
    rep.analysed |= x.eng.analysed | y.eng.analysed
    rep.count('paths_analysed', len(x.outs) + len(y.outs))
    if norm_all(x, ctx) == norm_all(y, ctx):
        return rep.ok(rule, w, 'the same %d paths as %s' % (len(x.result), tb.name))
    d = difference(x, y, ctx)
    if x.imprecise or y.imprecise or x.loops or y.loops:
        return rep.undecided(rule, w, d)
    if {k for k in x.result} == {k for k in y.result}:
        return rep.bad(rule, w, body.name, '%s and %s differ: %s' % (body.name, tb.name, d))
    rep.undecided(rule, w, d)


def norm_all(x, ctx):
    def n(v):
        if v is None:
            return None
        return substitute(v, lambda t: ('sym', 'conv') if is_conv_val(t) else None)
    return (frozenset((frozenset((n(t), z) for t, z in k), frozenset((n(p), n(q)) for p, q in v)) for k, v in x.result.items()),
            frozenset((frozenset((n(t), z) for t, z in k), tuple((s, n(v)) for s, v in fin)) for k, fin in x.loops))


def is_conv_val(t):
    return t[0] == 'adt' and t[1].endswith('Converter')


def difference(x, y, ctx):
    rx, lx = norm_all(x, ctx)
    ry, ly = norm_all(y, ctx)
    d = sorted(rx - ry, key=repr)[:1] + sorted(ry - rx, key=repr)[:1]
    if not d:
        d = sorted(lx - ly, key=repr)[:1] + sorted(ly - lx, key=repr)[:1]
        return 'a loop: ' + ' // '.join(str(q)[:300] for q in d)
    r = []
    for k, v in d:
        r.append('[%s] -> %s' % (fact_str(sorted(k, key=repr)), '; '.join('%s self=%s' % (show(p)[:300], show(q)[:300] if q else '-') for p, q in v)))
    return ' // '.join(r)


def callable_type(ctx, body, i):
    t = sig(ctx.prog, body)[i]
    return t == 'F' or 'Fn(' in t


def is_conv(ctx, body, i):
    return sig(ctx.prog, body)[i] == 'C'


# ---- insert, remove, remove_prefix, from_iter ----------------------------------------------------

def recorder(name, log):
    def m(eng, st, v, call):
        st.event('general', name, tuple(v))
        if v[0][0] == 'ref':
            st.write(v[0][1:], ('t', 'after', ('str', name), st.pure(v[0])))
        log.append((name, st.copy(), v, call))
        return nm.fallible(eng, st, call, name, [('str', name)], UNIT)
    return m


def composed(ctx, rep):
    general = {'try_insert': 'try_outer_combine_with', 'try_remove': 'try_left_combine_with', 'try_remove_prefix': 'try_remove_prefix_with'}
    for name, gen in general.items():
        body = ctx.method('RadixTree', name)
        ctx.method('RadixTree', gen)
        rule = 'meaning of ' + name
        w = where(body)
        log = []
        models = dict(nm.M)
        for g in set(general.values()) | {'try_retain_prefix_with', 'try_inner_combine_with'}:
            models['RadixTree::' + g] = recorder(g, log)
        eng = ctx.engine(models)
        st = State()
        st.mem[SELF] = ctx.tree(a, sa)
        args = [('ref', SELF, ()), k1, k2][:body.argc]
        outs = eng.exec_body(st, body, args)
        rep.analysed |= eng.analysed
        errors.check(rep, 'errors of ' + name, body, eng, outs)
        for o in outs:
            if any(e[0] == 'err' for e in o.st.events):
                continue
            calls = [e for e in o.st.events if e[0] == 'general']
            if o.kind != 'return' or o.st.imprecise or eng.loops:
                rep.undecided(rule, w, 'path ends with %s %s' % (o.kind, o.st.imprecise))
                continue
            if len(calls) != 1:
                if not calls and o.st.pure(o.st.mem[SELF]) == ctx.tree(a, sa):
                    rep.bad(rule, w, name + ':nothing', 'does not change the tree\npath %s' % fact_str(o.st.pc))
                else:
                    rep.undecided(rule, w, 'not one call of a general operation')
                continue
            _, g, v = calls[0]
            if g != gen:
                rep.bad(rule, w, name + ':operation', 'carried out by %s instead of %s' % (g, gen))
                continue
            if v[0] != ('ref', SELF, ()):
                rep.undecided(rule, w, 'on another tree')
                continue
            that = o.st.pure(v[1])
            x = ctx.tree_node(that) if that[0] == 'adt' else that
            while is_t(x, 'canon'):
                x = x[2]
            key_ok = nP(x) == k1 and nC(x) == EMPTY
            val_ok = nV(x) == some(k2) if name == 'try_insert' else nV(x)[0] == 'adt' and nV(x)[2] == 1
            what = 'the entry %s' % show(x)
            if key_ok and val_ok:
                rep.ok(rule, w, 'combines with ' + what)
            elif clean(x, SYMS):
                rep.bad(rule, w, name + ':entry', 'combines with %s' % what)
            else:
                rep.undecided(rule, w, what)
            callback(ctx, rep, rule, w, eng, o, name, v[-1])


def callback(ctx, rep, rule, w, eng, o, name, fn):
    old, new = ('sym', 'old'), ('sym', 'new')
    cell = ('R', 'value')
    st = o.st.copy()
    st.mem[cell] = some(old)
    args = [some(new)] if name == 'try_remove_prefix' else [('ref', cell, ()), some(new)]
    outs = eng.apply(st, fn, args)
    for r in outs:
        if r.kind != 'return':
            rep.undecided(rule, w, 'callback ends with ' + r.kind)
            continue
        res, fin = r.st.pure(r.val), r.st.pure(r.st.mem[cell])
        if name == 'try_insert':
            good, what = res == ok(UNIT) and fin == some(new), 'keeps the new value'
        elif name == 'try_remove':
            good, what = res == ok(UNIT) and fin == NONE, 'drops the value'
        else:
            good, what = res == ok(ONE), 'covers everything below the prefix'
        if good:
            rep.ok(rule, w, what)
        elif r.st.imprecise:
            rep.undecided(rule, w, 'callback: %s' % (r.st.imprecise,))
        else:
            rep.bad(rule, w, name + ':callback', 'the function given to the general operation returns %s and leaves %s' % (show(res), show(fin)))


def from_iter(ctx, rep):
    body = ctx.method('RadixTree', 'from_iter', 'FromIterator')
    rule = 'a tree is built from all pairs'
    w = where(body)
    models = dict(nm.M)

    def ins(eng, st, v, call):
        if v[0][0] != 'ref':
            return None
        st.write(v[0][1:], ('t', 'ins', st.pure(v[0]), st.pure(v[1]), st.pure(v[2])))
        return ok(UNIT) if 'Result' in eng.prog.tys_s(call.ty) else UNIT
    models['RadixTree::insert'] = models['RadixTree::try_insert'] = ins
    eng = ctx.engine(models)
    outs = eng.exec_body(State(), body, [('sym', 'pairs')])
    rep.analysed |= eng.analysed
    S = ('sym', 'pairs')
    empty = ctx.tree(node(EMPTY, NONE, EMPTY), None)

    def is_empty_tree(v):
        if v[0] != 'adt':
            return False
        x = ctx.tree_node(v)
        return nP(x) == EMPTY and nV(x) == NONE and nC(x) == EMPTY
    if len(eng.loops) != 1:
        return rep.undecided(rule, w, '%d loops' % len(eng.loops))
    l = list(eng.loops.values())[0]
    it = [s for s, i in l['init'].items() if i == S]
    tr = [s for s, i in l['init'].items() if is_empty_tree(i)]
    if len(it) != 1 or len(tr) != 1 or len(l['init']) != 2:
        return rep.undecided(rule, w, 'loop state %s' % [show(i) for i in l['init'].values()])
    it, tr = it[0], tr[0]
    for i in l['iters']:
        st, fin = i['st'], i['final']
        x = index(it, ZERO)
        want = ('t', 'ins', tr, project(x, ('f', 0)), project(x, ('f', 1)))
        if st.imprecise:
            rep.undecided(rule, w, 'loop: %s' % (st.imprecise,))
        elif fin[tr] == want and fin[it] == drop(it, ONE):
            rep.ok(rule, w, 'a round inserts the next pair')
        elif fin[it] == drop(it, ONE) and clean_ins(fin[tr], {it, tr}):
            rep.bad(rule, w, 'from_iter:round', 'a round over the pairs leaves %s\npath %s' % (show(fin[tr]), fact_str(st.pc)))
        else:
            rep.undecided(rule, w, 'a round leaves %s, %s' % (show(fin[tr]), show(fin[it])))
    for o in outs:
        if o.kind != 'return':
            rep.undecided(rule, w, 'path ends with ' + o.kind)
            continue
        v = o.st.pure(o.val)
        if v == tr and o.st.decide(eq0(length(it))) == 1:
            rep.ok(rule, w, 'all pairs were inserted at the end')
        elif o.st.imprecise or not clean_ins(v, {it, tr}):
            rep.undecided(rule, w, show(v))
        else:
            rep.bad(rule, w, 'from_iter:end', 'ends with %s\npath %s' % (show(v), fact_str(o.st.pc)))


def clean_ins(v, syms):
    return not contains(v, lambda x: x[0] == 't' and x[1] not in GOOD_OPS | {'ins'} or x[0] == 'sym' and x not in syms)


def basics(ctx, rep):
    """constructors and observers of a tree"""
    rule = 'constructors and observers'
    for name, args, want in (('leaf', [k1], node(EMPTY, some(k1), EMPTY)), ('single', [k1, k2], node(k1, some(k2), EMPTY)),
                             ('empty', [sa], node(EMPTY, NONE, EMPTY))):
        body = ctx.method('RadixTree', name)
        eng = ctx.engine()
        for o in eng.exec_body(State(), body, args):
            v = o.st.pure(o.val) if o.kind == 'return' else ('t', 'undef')
            x = ctx.tree_node(v) if v[0] == 'adt' else v
            got = node(nP(x), option_norm(nV(x)), nC(x))
            good = got == want and (name != 'empty' or project(v, ('f', ctx.fields('RadixTree').index('store'))) == sa)
            if good:
                rep.ok(rule, where(body), name)
            elif precise(o.st) and clean(got, SYMS):
                rep.bad(rule, where(body), name, '%s gives %s' % (name, show(v)))
            else:
                rep.undecided(rule, where(body), show(v)[:300])
        rep.analysed |= eng.analysed
    for name in ('is_empty', 'is_leaf', 'value'):
        body = ctx.method('RadixTree', name)
        eng = ctx.engine()
        for o in eng.exec_body(State(), body, [ctx.tree(a, sa)]):
            if o.kind != 'return':
                rep.undecided(rule, where(body), o.kind)
                continue
            v = o.st.pure(o.val)
            hv, hc = o.st.decide(discr(nV(a))), o.st.decide(eq0(length(nC(a))))
            if name == 'is_leaf':
                want = {1: ONE, 0: ZERO, None: None}[hc]
            elif name == 'is_empty':
                want = ZERO if hv == 1 or hc == 0 else ONE if hv == 0 and hc == 1 else None
            else:
                want = NONE if hv == 0 else some(nV(a)) if hv == 1 else None
                v = some(nV(a)) if v in (nV(a), some(some(nV(a)))) else v
            if v == want:
                rep.ok(rule, where(body), name)
            elif precise(o.st) and clean(v, SYMS) and want is not None:
                rep.bad(rule, where(body), name, '%s gives %s\npath %s' % (name, show(v), fact_str(o.st.pc)))
            else:
                rep.undecided(rule, where(body), '%s gives %s' % (name, show(v)[:300]))
        rep.analysed |= eng.analysed
