"""The lowest layer: a header byte and the slot next to it.

The models of lib/rawmodels.py say what the methods of Header, CompactOwnedBlob and ChildrenRef mean. Here the bodies are
compared with that, for each of the 256 header bytes: what the byte means, which field of the slot is accessed, that a copy of
a slot counts as another owner and a release is made once. Lengths are symbolic."""
from common import *
from stdmodels import M as STD, panic, fork_bool

U, D = ('sym', 'u'), ('sym', 'd')
ME = ('L', 'arg', 0)
L0 = dict(STD)


def keep(name):
    """the call stays visible in the value"""
    def g(eng, st, v, call):
        return ('t', name, st.pure(v[0]))
    return g


def event(name, val=None):
    def g(eng, st, v, call):
        st.event(name, st.pure(v[0]))
        return UNIT if val is None else val(st.pure(v[0]))
    return g


for n in ('Clone::clone', 'Arc::clone', 'ManuallyDrop::clone', 'clone::Clone::clone'):
    L0[n] = keep('another')
for n in ('ptr::read', 'mem::transmute_copy', 'transmute_copy', 'const_ptr::read', 'mut_ptr::read', 'Arc::from_raw'):
    L0[n] = keep('bitcopy')
for n in ('ManuallyDrop::drop', 'ptr::drop_in_place', 'mut_ptr::drop_in_place'):
    L0[n] = event('released')
L0['ManuallyDrop::take'] = event('released', lambda x: ('t', 'taken', x))
L0['mem::drop'] = lambda eng, st, v, call: UNIT
L0['mem::forget'] = event('forgotten')
L0['Arc::strong_count'] = keep('count')


def range_of(i, n):
    k, f = i[1].split('::')[-1], i[3]
    return {'RangeFull': lambda: (ZERO, n), 'RangeFrom': lambda: (f[0], n), 'RangeTo': lambda: (ZERO, f[0]), 'Range': lambda: (f[0], f[1]),
            'RangeToInclusive': lambda: (ZERO, add(f[0], ONE))}.get(k, lambda: None)()


def index_mut(eng, st, v, call):
    i = st.deref(v[1])
    if v[0][0] == 'ref' and i[0] == 'adt':
        n = length(as_seq(st.deref(v[0])))
        ab = range_of(i, n)
        if ab:
            r = []
            for s, bad in fork_bool(st, lt(ab[1], ab[0])):
                if bad:
                    r.append(panic(s, 'slice', call))
                else:
                    r += [panic(s2, 'slice', call) if bad2 else (s2, ('t', 'part', v[0], ab[0], ab[1])) for s2, bad2 in fork_bool(s, lt(n, ab[1]))]
            return r
    return STD['IndexMut::index_mut'](eng, st, v, call)


def copy_from_slice(eng, st, v, call):
    x = st.pure(v[1])
    to = v[0]
    while to[0] == 'ref' and is_t(st.read(to[1:]), 'part'):
        to = st.read(to[1:])
    if is_t(to, 'part'):
        ref, a, b = to[2:]
    elif v[0][0] == 'ref':
        ref, a = v[0], ZERO
        b = length(as_seq(st.deref(ref)))
    else:
        return None
    r = []
    for s, same in fork_bool(st, eq(length(as_seq(x)), sub(b, a))):
        if not same:
            r.append(panic(s, 'slice', call))
        else:
            eng.write_ref(s, ref, ('t', 'overlay', s.pure(ref), a, x))
            r.append((s, UNIT))
    return r


L0['IndexMut::index_mut'] = index_mut
for n in ('slice::copy_from_slice', 'slice::clone_from_slice'):
    L0[n] = copy_from_slice


class Slots:
    def __init__(self, ctx):
        self.ctx = ctx
        self.hid = ctx.adt('Header')['id']
        self.runs = {}

    def engine(self):
        e = self.ctx.engine(dict(L0))
        e.write_ref = lambda st, r, x: st.write(r[1:], x)
        return e

    def hdr(self, n):
        return ('adt', self.hid, 0, (n,))

    def fields(self, owner):
        """index of a field by what it holds"""
        r = {}
        for i, f in enumerate(self.ctx.adt(owner)['variants'][0][1]):
            s = self.ctx.prog.tys_s(f[1])
            if self.ctx.prog.ty(f[1])['k'] == 'array':
                r['inline'] = i
            elif 'Arc<' in s and 'TreeNode' in s:
                r['nodes'] = i
            elif 'Arc<' in s:
                r['bytes'] = i
        return r

    def run(self, owner, name, args, trait=None):
        """(body, outcomes)"""
        b = self.ctx.method(owner, name, trait)
        st, vals = State(), []
        for i, a in enumerate(args):
            if self.ctx.prog.ty(b.locals[i + 1][0])['k'] == 'ref' and not (a[0] == 'sym' and i):
                st.mem[('L', 'arg', i)] = a
                a = ('ref', ('L', 'arg', i), ())
            vals.append(a)
        eng = self.engine()
        return b, eng, eng.exec_body(st, b, vals)

    def width(self):
        """bytes of an inline slot"""
        for o in ('CompactOwnedBlob', 'ChildrenRef'):
            k, e = self.constant(o, 'EMPTY')
            x = project(e, ('f', self.fields(o)['inline'])) if e else None
            if x and x[0] == 'adt' and x[1] == 'array':
                return len(x[3])
        return 8

    def constant(self, owner, name):
        for b in self.ctx.prog.bodies.values():
            if b.kind in ('Fn', 'AssocFn', 'Closure') or not b.path.split('::')[-1] == name or owner not in b.path:
                continue
            if b.path.split('::')[-2] != owner and not b.path.split('::')[-2].startswith('<') and owner + '::' not in b.path:
                continue
            outs = [o for o in self.engine().exec_body(State(), b, []) if o.kind == 'return']
            if len(outs) == 1:
                return b, outs[0].st.pure(outs[0].val)
        return None, None


def imprecise(o):
    return o.st.imprecise or any(e[0] == 'unknown' for e in o.st.events)


def single(rep, rule, w, key, outs, want, what):
    """every end returns want(value, state) -> None when right, else what is wrong"""
    for o in outs:
        m = want(o)
        if m is None:
            rep.ok(rule, w, what)
        elif m is False or imprecise(o):
            rep.undecided(rule, w, '%s: %s' % (what, show(o.st.pure(o.val))[:200] if o.kind == 'return' else o.kind))
        else:
            rep.bad(rule, w, key, '%s: %s' % (what, m))


def const_val(v):
    while v[0] == 'adt' and len(v[3]) == 1:
        v = v[3][0]
    return v


def headers(ctx, rep):
    rule = 'a header byte means what is documented'
    S = Slots(ctx)
    W = S.width()
    spec = {'is_id': lambda k, n: k, 'is_data': lambda k, n: 1 - k, 'is_none': lambda k, n: int(k == 1 and n == 0),
            'is_inline': lambda k, n: int(n <= W), 'is_arc': lambda k, n: int(n > W), 'len': lambda k, n: n, 'len_u8': lambda k, n: n}
    for name, f in spec.items():
        bs = ctx.method('Header', name, None, True)
        if len(bs) != 1:
            rep.undecided(rule, 'Header::' + name, 'not found')
            continue
        rep.analysed.add(bs[0].id)
        for h in range(256):
            b, eng, outs = S.run('Header', name, [S.hdr(I(h))])
            x = f(h >> 7, h & 127)

            def want(o):
                if o.kind != 'return':
                    return 'it does not return'
                v = const_val(o.st.pure(o.val))
                return None if v == I(x) else 'it answers %s' % show(v)[:80] if is_int(v) else False
            single(rep, rule, where(b), 'header:%s' % name, outs, want, '%s of the byte %d' % (name, h))
    for name, k in (('id', 1), ('data', 0)):
        bs = ctx.method('Header', name, None, True)
        if len(bs) != 1:
            rep.undecided(rule, 'Header::' + name, 'not found')
            continue
        rep.analysed.add(bs[0].id)
        for n in list(range(132)) + [255, 256, 257, 383, 384, 2 ** 16, 2 ** 32, 2 ** 32 + 5, 2 ** 63, 2 ** 64 - 1]:
            b, eng, outs = S.run('Header', name, [I(n)])

            def want(o):
                if o.kind != 'return':
                    return None if k and n > 127 else 'it does not return'
                v = const_val(o.st.pure(o.val))
                if not is_int(v):
                    return False
                if k and n > 127:
                    return 'a length that does not fit is accepted'
                return None if v == I(k << 7 | min(n, 127)) else 'the byte is %s' % show(v)
            single(rep, rule, where(b), 'header:%s' % name, outs, want, '%s(%d)' % (name, n))
    for name, x in (('EMPTY', 0), ('NONE', 128), ('ARCDATA', 127)):
        b, v = S.constant('Header', name)
        if b is None or not is_int(const_val(v)):
            rep.undecided(rule, 'Header::' + name, 'not evaluated')
        elif const_val(v) == I(x):
            rep.ok(rule, where(b), 'the byte %d' % x)
        else:
            rep.bad(rule, where(b), 'header:' + name, 'the byte is %s' % show(v))
    # conversions keep the byte, comparisons compare it
    x, y = ('sym', 'x'), ('sym', 'y')
    for tr, owner in (('From', 'Header'), ('From', 'u8'), ('PartialEq', 'Header')):
        for b in ctx.prog.bodies.values():
            t = (b.impl or {}).get('trait')
            if not t or b.path.split('::')[-1] not in ('from', 'eq') or t[0].split('<')[0].split('::')[-1] != tr:
                continue
            tys = [ctx.prog.tys_s(b.locals[i][0]) for i in range(b.argc + 1)]
            if tr == 'From' and sorted(t.split('::')[-1] for t in tys) == ['Header', 'u8']:
                arg = x if tys[1] == 'u8' else S.hdr(x)
                rep.analysed.add(b.id)
                eng = S.engine()
                single(rep, rule, where(b), 'header:from', eng.exec_body(State(), b, [arg]),
                       lambda o: None if o.kind == 'return' and const_val(o.st.pure(o.val)) == x else 'the byte changes' if o.kind == 'return' and
                       not contains(o.val, lambda z: is_t(z, 'opaque')) else False, 'the byte is kept')
            elif tr == 'PartialEq' and len(tys) == 3 and all(t.endswith('Header') for t in tys[1:]):
                rep.analysed.add(b.id)
                eng = S.engine()
                for n, m in ((0, 0), (0, 128), (127, 127), (127, 255), (5, 133), (128, 128)):
                    st = State()
                    st.mem[('L', 'arg', 0)], st.mem[('L', 'arg', 1)] = S.hdr(I(n)), S.hdr(I(m))
                    single(rep, rule, where(b), 'header:eq', eng.exec_body(st, b, [('ref', ('L', 'arg', 0), ()), ('ref', ('L', 'arg', 1), ())]),
                           lambda o: None if o.kind == 'return' and o.val == I(int(n == m)) else 'wrong answer' if o.kind == 'return' and is_int(o.val) else False,
                           'comparison of %d and %d' % (n, m))


def slots(ctx, rep):
    rule = 'a slot is accessed as what its header says'
    S = Slots(ctx)
    W = S.width()
    for owner in ('CompactOwnedBlob', 'ChildrenRef'):
        F = S.fields(owner)
        if not {'inline', 'bytes'} <= set(F):
            rep.undecided(rule, owner, 'fields not recognised')
            continue
        inl = lambda: project(U, ('f', F['inline']))
        fld = lambda k: project(U, ('f', F[k]))
        # kind of what is in the slot, by header
        names = ('slice', 'ref_count', 'manual_clone', 'manual_drop') if owner == 'CompactOwnedBlob' else ('deref', 'deref_mut', 'ref_count', 'manual_clone', 'manual_drop')
        for name in names:
            bs = ctx.method(owner, name, None, True)
            if len(bs) != 1:
                rep.undecided(rule, owner + '::' + name, 'not found')
                continue
            b = bs[0]
            rep.analysed.add(b.id)
            for h in range(256):
                k, n = h >> 7, h & 127
                part = 'inline' if n <= W else 'bytes' if owner == 'CompactOwnedBlob' or k else 'nodes'
                st = State()
                st.mem[ME] = U
                st.assume(eq(length(inl()), I(W)), 1)
                eng = S.engine()
                outs = eng.exec_body(st, b, [('ref', ME, ()), S.hdr(I(h))])
                single(rep, rule, where(b), '%s:%s' % (owner, name), outs, lambda o: slot_use(S, owner, name, part, k, n, W, F, o),
                       '%s for the header %d' % (name, h))
    for owner, name in (('CompactOwnedBlob', 'copy_from_slice'), ('ChildrenRef', 'id_from_slice'), ('ChildrenRef', 'data_from_arc')):
        bs = ctx.method(owner, name, None, True)
        if len(bs) != 1:
            rep.undecided(rule, owner + '::' + name, 'not found')
            continue
        b = bs[0]
        rep.analysed.add(b.id)
        F = S.fields(owner)
        # any length, and each length on its own, so that the limit itself is decided
        for n in [None] + list(range(W + 4)) + [127, 128, 129]:
            st = State()
            if n is not None:
                st.assume(eq(length(D), I(n)), 1)
            outs = S.engine().exec_body(st, b, [D])
            single(rep, rule, where(b), '%s:%s' % (owner, name), outs, lambda o: filled(owner, name, W, F, o, n is None),
                   name if n is None else '%s of %d bytes' % (name, n))
    for owner in ('CompactOwnedBlob', 'ChildrenRef'):
        b, v = S.constant(owner, 'EMPTY')
        F = S.fields(owner)
        if b is None:
            rep.undecided(rule, owner + '::EMPTY', 'not evaluated')
        elif v[0] == 'adt' and v[2] == 'u:%d' % F['inline']:
            rep.ok(rule, where(b), 'no allocation')
        else:
            rep.bad(rule, where(b), owner + ':EMPTY', 'the empty slot is not an inline one: %s' % show(v)[:100])


def slot_use(S, owner, name, part, k, n, W, F, o):
    """None: right; text: wrong; False: not decided"""
    x = project(U, ('f', F[part]))
    ev = [e for e in o.st.events if e[0] in ('released', 'forgotten')]
    known = lambda v: not contains(v, lambda z: z[0] == 't' and z[1] == 'opaque' or is_t(z, 'reinterpret') and False)
    if o.kind != 'return':
        # an empty or short array of nodes does not exist
        if name in ('deref', 'deref_mut') and not k and n <= W:
            return None
        return 'it panics'
    v = o.st.pure(o.val)
    fin = o.st.pure(o.st.mem[ME])
    if name == 'manual_drop':
        rel = [e[1] for e in ev if e[0] == 'released']
        if any(e[0] == 'forgotten' for e in ev):
            return False
        if part == 'inline':
            return None if not rel else 'something is released that is no allocation: %s' % show(rel[0])[:100]
        if rel == [x]:
            return None
        return 'the allocation is not released' if not rel else 'released: %s, in the slot is %s' % (', '.join(show(r)[:60] for r in rel), show(x)[:60])
    if ev:
        return 'an allocation is released' if ev[0][0] == 'released' else False
    if fin != U:
        return 'the slot changes'
    if name == 'ref_count':
        if part == 'inline':
            return None if v == NONE else 'it counts %s, in the slot is no allocation' % show(v)[:80] if known(v) else False
        return None if v == some(('t', 'count', x)) else 'it answers %s' % show(v)[:80] if known(v) else False
    if name == 'manual_clone':
        if v[0] != 'adt' or not str(v[2]).startswith('u:'):
            return 'the slot is copied without counting another owner' if part != 'inline' and v in (U, ('t', 'bitcopy', U)) else None if part == 'inline' and v in (U, ('t', 'bitcopy', U)) else False
        f, y = v[2], v[3][0]
        if part == 'inline':
            if f == 'u:%d' % F['inline']:
                return None if y in (x, ('t', 'another', x)) else 'the bytes are not copied' if known(y) else False
            return 'an inline slot is copied as %s' % show(v)[:80]
        if f != 'u:%d' % F[part]:
            return 'the slot holds %s, the copy is %s' % (show(x)[:60], show(v)[:100])
        if y == ('t', 'another', x):
            return None
        return 'the copy does not count as another owner: %s' % show(y)[:100] if y in (x, ('t', 'bitcopy', x)) else 'the copy is %s' % show(y)[:100] if known(y) else False
    # slice, deref, deref_mut
    if name != 'slice':
        if v[0] != 'adt' or v[1] != RESULT:
            return False
        if v[2] != k:
            return 'an id is taken for nodes in memory' if k else 'nodes in memory are taken for an id'
        v = v[3][0]
        if not k and n <= W:
            return 'inline bytes are taken for nodes in memory'
    if part == 'inline':
        good = [take(x, I(n))] + [x] * (n == W) + [EMPTY] * (n == 0)
    else:
        good = [x]
    return None if v in good else 'it gives %s, in the slot is %s' % (show(v)[:100], show(good[0])[:60]) if known(v) else False


def filled(owner, name, W, F, o, any_):
    if o.kind != 'return':
        return 'it panics'
    v = o.st.pure(o.val)
    if v[0] != 'adt' or not str(v[2]).startswith('u:'):
        return False
    f, y = int(v[2][2:]), v[3][0]
    if any(e[0] in ('released', 'forgotten') for e in o.st.events):
        return False
    if name == 'data_from_arc':
        if f != F['nodes']:
            return 'the nodes are kept as field %d' % f
        return None if y == D else 'the allocation is shared without counting it' if y == ('t', 'bitcopy', D) else False
    fits = o.st.decide(lt(I(W), length(D)))
    if fits is None:
        return None if any_ else False
    if f != F['inline' if fits == 0 else 'bytes']:
        return 'bytes that %s are kept as field %d' % ('fit inline' if fits == 0 else 'do not fit inline', f)
    if fits == 1:
        return None if y == D else 'the bytes are %s' % show(y)[:100] if not contains(y, lambda z: is_t(z, 'opaque')) else False
    if is_t(y, 'overlay'):
        return None if y[3] == ZERO and y[4] == D else 'the bytes are %s' % show(y)[:100]
    if o.st.decide(eq0(length(D))) == 1:
        return None
    return 'the bytes are not copied' if y[0] == 'adt' and y[1] == 'array' else False
