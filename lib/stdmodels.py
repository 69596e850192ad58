"""Models of the standard library functions the analysed code uses."""
from terms import *
from absint import discr, Out, Call, has_struct

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def ident(eng, st, v, call):
    return v[0]


def dval(st, v):
    return st.deref(v)


# ---- forking on unknown values -------------------------------------------

def fork_enum(eng, st, v, n=2):
    """[(state, variant, payload)] for an Option / Result value"""
    v = st.deref(v)
    if v[0] == 'adt':
        return [(st, v[2], v[3][0] if v[3] else None)]
    d = discr(v)
    k = st.decide(d)
    res = []
    for i in range(n):
        if k is not None and k != i:
            continue
        s = st if k is not None else st.copy()
        if k is None and not s.assume(d, i):
            continue
        res.append((s, i, project(project(v, ('v', i)), ('f', 0))))
    return res


def fork_bool(st, c):
    """[(state, 0/1)]"""
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    res = []
    for x in (1, 0):
        s = st.copy()
        if s.assume(c, x):
            res.append((s, x))
    return res


def panic(st, why, call=None, *about):
    st.event('panic', why, call.body.id if call is not None and call.body is not None else '', *about)
    return Out('panic', st)


def outs_of(eng, st, f, args, call, wrap=None):
    r = []
    for o in eng.apply(st, f, args, call):
        if o.kind == 'return' and wrap:
            o = Out('return', o.st, wrap(o.val))
        r.append(o)
    return r


# ---- identities --------------------------------------------------------------

for n in ('Deref::deref', 'DerefMut::deref_mut', 'Borrow::borrow', 'AsRef::as_ref', 'AsMut::as_mut',
          'Arc::as_ref', 'Arc::deref', 'Vec::deref', 'Vec::deref_mut', 'Arc::new', 'Box::new', 'ManuallyDrop::new',
          'ManuallyDrop::deref', 'ManuallyDrop::deref_mut', 'ManuallyDrop::into_inner',
          'Clone::clone', 'Arc::clone', 'Vec::clone', 'Option::clone', 'ManuallyDrop::clone',
          'IntoIterator::into_iter', 'Vec::as_slice', 'slice::iter', 'slice::to_vec', 'slice::into_vec', 'Into::into', 'From::from',
          'Iterator::cloned', 'Iterator::copied', 'ToOwned::to_owned', 'Iter::as_slice', 'Iterator::by_ref', 'convert::identity',
          'Vec::from', 'Arc::from', 'Iter::clone', 'slice::to_owned', 'String::as_str', 'Iterator::collect_', 'hint::black_box', 'Vec::into_boxed_slice',
          'Vec::as_mut_slice', 'Vec::borrow', 'Arc::borrow', 'Borrow::borrow_mut', 'Vec::into_iter', 'clone::Clone::clone', 'Clone::clone_box'):
    M[n] = ident


def pure_ident(eng, st, v, call):
    return st.pure(v[0])


for n in ('Clone::clone', 'Arc::clone', 'Vec::clone', 'Option::clone', 'slice::to_vec', 'ToOwned::to_owned', 'slice::to_owned',
          'Option::cloned', 'Option::copied', 'slice::iter', 'Iter::as_slice', 'Arc::new', 'slice::into_vec', 'Iter::clone'):
    M[n] = pure_ident

M['Arc::make_mut'] = lambda eng, st, v, call: (st.event('make_mut', st.pure(v[0])), v[0])[1]


@model('Option::as_ref', 'Option::as_deref', 'Result::as_ref', 'Option::as_deref_mut_')
def _(eng, st, v, call):
    return st.deref(v[0])


@model('Option::as_mut', 'Option::as_deref_mut', 'Result::as_mut')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if v[0][0] == 'ref':
            ref = ('ref', v[0][1], v[0][2] + (('v', i), ('f', 0)))
        else:
            ref = x
        if 'Result' in (call.key or ''):
            r.append((s, ok(ref) if i == 0 else err(ref)))
        else:
            r.append((s, some(ref) if i else NONE))
    return r


# ---- ? ---------------------------------------------------------------------------

@model('Try::branch')
def _(eng, st, v, call):
    ty = eng.prog.tys_s(call.argtys[0]) if call.argtys else ''
    opt = ty.startswith('std::option::Option') or ty.startswith('core::option')
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if opt:
            r.append((s, ('adt', CFLOW, 0, (x,)) if i == 1 else ('adt', CFLOW, 1, (NONE,))))
        else:
            r.append((s, ('adt', CFLOW, 0, (x,)) if i == 0 else ('adt', CFLOW, 1, (err(x),))))
    return r


@model('FromResidual::from_residual')
def _(eng, st, v, call):
    return v[0]


@model('Try::from_output')
def _(eng, st, v, call):
    ty = eng.prog.tys_s(call.ty) if call.ty is not None else ''
    return some(v[0]) if ty.startswith('std::option::Option') else ok(v[0])


# ---- Option / Result combinators ---------------------------------------------------

@model('Option::is_some')
def _(eng, st, v, call):
    d = discr(st.deref(v[0]))
    return d if is_int(d) else ('t', 'bool', d) if False else [(s, I(i)) for s, i, _ in fork_enum(eng, st, v[0])]


@model('Option::is_none')
def _(eng, st, v, call):
    return [(s, I(i == 0)) for s, i, _ in fork_enum(eng, st, v[0])]


@model('Result::is_ok')
def _(eng, st, v, call):
    return [(s, I(i == 0)) for s, i, _ in fork_enum(eng, st, v[0])]


@model('Result::is_err')
def _(eng, st, v, call):
    return [(s, I(i == 1)) for s, i, _ in fork_enum(eng, st, v[0])]


@model('Option::unwrap', 'Option::expect')
def _(eng, st, v, call):
    return [(s, x) if i else panic(s, 'unwrap', call) for s, i, x in fork_enum(eng, st, v[0])]


@model('Result::unwrap', 'Result::expect')
def _(eng, st, v, call):
    return [(s, x) if i == 0 else panic(s, 'unwrap', call, s.pure(x)) for s, i, x in fork_enum(eng, st, v[0])]


@model('Result::unwrap_err', 'Result::expect_err')
def _(eng, st, v, call):
    return [(s, x) if i == 1 else panic(s, 'unwrap_err', call) for s, i, x in fork_enum(eng, st, v[0])]


@model('Option::unwrap_or', 'Result::unwrap_or')
def _(eng, st, v, call):
    good = 1 if call.key.startswith('Option') else 0
    return [(s, x if i == good else v[1]) for s, i, x in fork_enum(eng, st, v[0])]


@model('Result::unwrap_or_default', 'Option::unwrap_or_default')
def _(eng, st, v, call):
    good = 1 if call.key.startswith('Option') else 0
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == good:
            r.append((s, x))
        else:
            t = eng.prog.tys_s(call.ty)
            r.append((s, ZERO if t in eng.BITS else EMPTY if 'Vec' in t or t.startswith('&[') or t == '&str' else ('t', 'default', ('str', t))))
    return r


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _(eng, st, v, call):
    o = call.key.startswith('Option')
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == (1 if o else 0):
            r.append((s, x))
        else:
            r += eng.apply(s, v[1], [] if o else [x])
    return r


@model('Option::map', 'Option::and_then')
def _(eng, st, v, call):
    r = []
    w = some if call.key.endswith('map') else None
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 0:
            r.append((s, NONE))
        else:
            r += outs_of(eng, s, v[1], [x], None, w)
    return r


@model('Option::filter')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 0:
            r.append((s, NONE))
            continue
        for o in eng.apply(s, v[1], [x]):
            if o.kind != 'return':
                r.append(o)
                continue
            r += [(s2, some(x) if b else NONE) for s2, b in fork_bool(o.st, o.val)]
    return r


@model('Option::map_or', 'Result::map_or')
def _(eng, st, v, call):
    good = 1 if call.key.startswith('Option') else 0
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i != good:
            r.append((s, v[1]))
        else:
            r += eng.apply(s, v[2], [x])
    return r


@model('Option::map_or_else', 'Result::map_or_else')
def _(eng, st, v, call):
    o = call.key.startswith('Option')
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i != (1 if o else 0):
            r += eng.apply(s, v[1], [] if o else [x])
        else:
            r += eng.apply(s, v[2], [x])
    return r


@model('Option::is_some_and', 'Option::is_none_or')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 0:
            r.append((s, I(call.key.endswith('or'))))
        else:
            r += eng.apply(s, v[1], [x])
    return r


@model('Option::or_else')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i:
            r.append((s, some(x)))
        else:
            r += eng.apply(s, v[1], [])
    return r


@model('Option::or')
def _(eng, st, v, call):
    return [(s, some(x) if i else v[1]) for s, i, x in fork_enum(eng, st, v[0])]


@model('Option::and')
def _(eng, st, v, call):
    return [(s, v[1] if i else NONE) for s, i, x in fork_enum(eng, st, v[0])]


@model('Option::zip')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        for s2, j, y in fork_enum(eng, s, v[1]):
            r.append((s2, some(tup(x, y)) if i and j else NONE))
    return r


@model('Option::ok_or', 'Context::context', 'Option::context')
def _(eng, st, v, call):
    ty = eng.prog.tys_s(call.argtys[0]) if call.argtys else 'std::option::Option'
    if 'option::Option' not in ty.split('<')[0]:
        return [(s, ok(x) if i == 0 else err(('t', 'ctx', x))) for s, i, x in fork_enum(eng, st, v[0])]
    return [(s, ok(x) if i else err(('t', 'newerr', st.pure(v[1])))) for s, i, x in fork_enum(eng, st, v[0])]


@model('Option::ok_or_else', 'Context::with_context')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i:
            r.append((s, ok(x)))
        else:
            r += outs_of(eng, s, v[1], [], None, err)
    return r


@model('Option::transpose')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 0:
            r.append((s, ok(NONE)))
            continue
        for s2, j, y in fork_enum(eng, s, x):
            r.append((s2, ok(some(y)) if j == 0 else err(y)))
    return r


@model('Result::transpose')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 1:
            r.append((s, some(err(x))))
            continue
        for s2, j, y in fork_enum(eng, s, x):
            r.append((s2, some(ok(y)) if j else NONE))
    return r


@model('Result::map')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 0:
            r += outs_of(eng, s, v[1], [x], None, ok)
        else:
            r.append((s, err(x)))
    return r


@model('Result::map_err')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 1:
            r += outs_of(eng, s, v[1], [x], None, err)
        else:
            r.append((s, ok(x)))
    return r


@model('Result::and_then')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 0:
            r += eng.apply(s, v[1], [x])
        else:
            r.append((s, err(x)))
    return r


@model('Result::or_else')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i == 1:
            r += eng.apply(s, v[1], [x])
        else:
            r.append((s, ok(x)))
    return r


@model('Result::ok')
def _(eng, st, v, call):
    return [(s, some(x) if i == 0 else NONE) for s, i, x in fork_enum(eng, st, v[0])]


@model('Result::err')
def _(eng, st, v, call):
    return [(s, some(x) if i == 1 else NONE) for s, i, x in fork_enum(eng, st, v[0])]


@model('Option::take', 'mem::take')
def _(eng, st, v, call):
    old = st.deref(v[0])
    t = eng.prog.tys_s(call.ty)
    if call.key == 'mem::take' and not t.startswith('std::option::Option'):
        if 'Vec<' in t.split('::')[-1] or t.startswith('std::vec::Vec'):
            new = EMPTY
        else:
            return None
    else:
        new = NONE
    if v[0][0] == 'ref':
        st.write((v[0][1], v[0][2]), new)
    return st.pure(old) if new == EMPTY else old


@model('mem::replace', 'Option::replace', 'Option::insert')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    old = st.deref(v[0])
    new = v[1] if call.key == 'mem::replace' else some(v[1])
    st.write((v[0][1], v[0][2]), new)
    if call.key == 'Option::insert':
        return ('ref', v[0][1], v[0][2] + (('v', 1), ('f', 0)))
    return old


@model('mem::swap')
def _(eng, st, v, call):
    if v[0][0] != 'ref' or v[1][0] != 'ref':
        return None
    a, b = v[0][1:], v[1][1:]
    x, y = st.read(a), st.read(b)
    st.write(a, y)
    st.write(b, x)
    return UNIT


@model('mem::drop', 'mem::forget')
def _(eng, st, v, call):
    return UNIT


# ---- comparison ---------------------------------------------------------------------

@model('PartialEq::eq', 'PartialEq::ne', 'Option::eq', 'Option::ne', 'slice::eq', 'slice::ne')
def _(eng, st, v, call):
    # bodies of local types are analysed (dispatch)
    a, b = st.pure(v[0]), st.pure(v[1])
    if a[0] == 'adt' and a[1] in eng.prog.adts:
        x = eng.dispatch(st, call.info, v)
        if x is not None:
            return None
    no = call.key.endswith('::ne')
    for x, y in ((a, b), (b, a)):
        if is_t(x, 'cmp') and y[0] == 'adt' and y[1] == ORDERING:
            return [(s, I(int((k == y[2] - 1) != no))) for s, k in orders(eng, st, x)]
    r = eq(a, b)
    return boolnot(r) if no else r


@model('Ord::cmp', 'Option::cmp', 'u8::cmp', 'usize::cmp')
def _(eng, st, v, call):
    return mkcmp(st, st.pure(v[0]), st.pure(v[1]))


def mkcmp(st, a, b):
    t = ('t', 'cmp', a, b)
    d = discr(t)
    if is_int(d):
        return ordering(d[1])
    if is_t(d, 'discr'):
        return d[2]
    return t


@model('PartialOrd::partial_cmp')
def _(eng, st, v, call):
    return some(mkcmp(st, st.pure(v[0]), st.pure(v[1])))


def ordtest(name):
    def f(eng, st, v, call):
        a, b = st.pure(v[0]), st.pure(v[1])
        if has_struct(a) or has_struct(b) or a[0] in ('t', 'sym') and not numeric(a):
            return [(s, I({'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0}[name])) for s, x in orders(eng, st, mkcmp(st, a, b))]
        if name == 'lt':
            return lt(a, b)
        if name == 'gt':
            return lt(b, a)
        if name == 'le':
            return boolnot(lt(b, a))
        return boolnot(lt(a, b))
    return f


for n in ('lt', 'le', 'gt', 'ge'):
    M['PartialOrd::' + n] = ordtest(n)


def orders(eng, st, c):
    """[(state, -1 | 0 | 1)] for an ordering"""
    d = discr(c)
    r = []
    k = st.decide(d)
    for x in (-1, 0, 1):
        if k is not None and k != x:
            continue
        s = st if k is not None else st.copy()
        if k is None:
            if not s.assume(d, x):
                continue
            eng.on_fact(s, d, x)
        r.append((s, x))
    return r


def ordering_is(name):
    def f(eng, st, v, call):
        return [(s, I({'is_lt': x < 0, 'is_le': x <= 0, 'is_gt': x > 0, 'is_ge': x >= 0, 'is_eq': x == 0, 'is_ne': x != 0}[name]))
                for s, x in orders(eng, st, st.deref(v[0]))]
    return f


for n in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'):
    M['Ordering::' + n] = ordering_is(n)


@model('Ordering::reverse')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] == 'adt':
        return ordering(-(x[2] - 1))
    if is_t(x, 'cmp'):
        return ('t', 'cmp', x[3], x[2])
    return None


@model('Ord::min', 'cmp::min', 'Ord::max', 'cmp::max')
def _(eng, st, v, call):
    a, b = st.deref(v[0]), st.deref(v[1])
    mn = call.key.endswith('min')
    return [(s, (a if c else b) if mn else (b if c else a)) for s, c in fork_bool(st, lt(a, b))]


@model('usize::saturating_sub', 'num::saturating_sub', 'u64::saturating_sub')
def _(eng, st, v, call):
    d = sub(v[0], v[1])
    if surely_nonneg(d):
        return d
    return [(s, ZERO if c else d) for s, c in fork_bool(st, lt0(d))]


@model('usize::checked_add', 'num::checked_add', 'u64::checked_add')
def _(eng, st, v, call):
    # overflow of a usize is not represented, the caller sees both outcomes
    s2 = st.copy()
    t = ('t', 'overflow', add(v[0], v[1]))
    r = []
    if st.assume(t, 0):
        r.append((st, some(add(v[0], v[1]))))
    if s2.assume(t, 1):
        r.append((s2, NONE))
    return r


@model('usize::checked_sub', 'num::checked_sub', 'u64::checked_sub')
def _(eng, st, v, call):
    d = sub(v[0], v[1])
    return [(s, NONE if c else some(d)) for s, c in fork_bool(st, lt0(d))]


def num_bits(eng, call):
    return eng.BITS.get(eng.prog.tys_s(call.argtys[0])) if call.argtys else None


def unsigned(eng, call):
    return bool(call.argtys) and eng.prog.tys_s(call.argtys[0]).startswith('u')


@model('num::wrapping_add', 'num::saturating_add', 'num::overflowing_add')
def _(eng, st, v, call):
    b = num_bits(eng, call)
    if not b or not unsigned(eng, call):
        return None
    n = call.key.split('::')[-1]
    x = [st.deref(y) for y in v]
    r = add(*x)
    out = []
    for s, over in fork_bool(st, lt(I(2 ** b - 1), r)):
        w = sub(r, I(2 ** b)) if over else r
        out.append((s, I(2 ** b - 1) if over and n.startswith('sat') else tup(w, I(over)) if n.startswith('over') else w))
    return out


@model('num::wrapping_sub', 'num::overflowing_sub')
def _(eng, st, v, call):
    b = num_bits(eng, call)
    if not b or not unsigned(eng, call):
        return None
    x = [st.deref(y) for y in v]
    r = sub(*x)
    out = []
    for s, under in fork_bool(st, lt(*x)):
        w = add(r, I(2 ** b)) if under else r
        out.append((s, tup(w, I(under)) if call.key.split('::')[-1].startswith('over') else w))
    return out


@model('num::abs_diff')
def _(eng, st, v, call):
    if not unsigned(eng, call):
        return None
    x = [st.deref(y) for y in v]
    return [(s, sub(x[1], x[0]) if c else sub(x[0], x[1])) for s, c in fork_bool(st, lt(*x))]


@model('num::is_power_of_two')
def _(eng, st, v, call):
    x = st.deref(v[0])
    return I(x[1] > 0 and x[1] & (x[1] - 1) == 0) if is_int(x) else None


# ---- vectors and slices -------------------------------------------------------------------

@model('Vec::new', 'Vec::with_capacity', 'String::new')
def _(eng, st, v, call):
    return EMPTY


@model('Vec::push')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    a = v[0][1:]
    x = st.read(a)
    if x[0] == 'ref':
        a = x[1:]
        x = st.read(a)
    st.write(a, cat(x, unit(v[1])))
    return UNIT


@model('Vec::pop')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    a = v[0][1:]
    x = as_seq(st.read(a))
    l = length(x)
    r = []
    for s, e in fork_bool(st, eq0(l)):
        if e:
            r.append((s, NONE))
        elif is_t(x, 'cat') and is_t(x[-1], 'unit'):
            s.write(a, cat(*x[2:-1]))
            r.append((s, some(x[-1][2])))
        else:
            n = sub(l, ONE)
            s.write(a, take(x, n))
            r.append((s, some(index(x, n))))
    return r


@model('Vec::clear')
def _(eng, st, v, call):
    st.write(v[0][1:], EMPTY)
    return UNIT


@model('Vec::truncate')
def _(eng, st, v, call):
    x = st.deref(v[0])
    n = v[1]
    d = sub(length(x), n)
    r = []
    for s, c in fork_bool(st, lt0(d)):
        if not c:
            s.write(v[0][1:], take(x, n))
        r.append((s, UNIT))
    return r


@model('Vec::extend_from_slice')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    a = v[0][1:]
    st.write(a, cat(st.read(a), st.pure(v[1])))
    return UNIT


@model('Extend::extend', 'Vec::extend', 'Vec::append')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    a = v[0][1:]
    x = st.pure(v[1])
    if is_t(x, 'opaque'):
        return None
    if len(call.argtys or ()) > 1 and eng.prog.tys_s(call.argtys[1]).startswith('std::option::Option<'):
        r = []
        for s, i, y in fork_enum(eng, st, x):
            if i:
                s.write(a, cat(s.read(a), unit(s.pure(y))))
            r.append((s, UNIT))
        return r
    if not seq_like(as_seq(x)) and call.key != 'Vec::append':
        return None
    st.write(a, cat(st.read(a), x))
    if call.key == 'Vec::append' and v[1][0] == 'ref':
        st.write(v[1][1:], EMPTY)
    return UNIT


@model('Vec::capacity', 'String::capacity')
def _(eng, st, v, call):
    # any number
    return ('t', 'capacity', st.pure(v[0]))


@model('Vec::len', 'slice::len', 'Iter::len', 'ExactSizeIterator::len', 'str::len')
def _(eng, st, v, call):
    return length(st.pure(v[0]))


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'ExactSizeIterator::is_empty')
def _(eng, st, v, call):
    return eq0(length(st.pure(v[0])))


@model('Vec::reserve', 'Vec::shrink_to_fit')
def _(eng, st, v, call):
    return UNIT


def elem_ref(st, base, idx_proj, i):
    """an element of the sequence behind base, as a place when base is a mutable reference"""
    if base[0] == 'ref':
        return ('ref', base[1], base[2] + (idx_proj,))
    return index(base, i)


@model('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut')
def _(eng, st, v, call):
    i = v[1]
    s0 = st.deref(v[0])
    if i[0] == 'adt':
        if call.key.endswith('mut'):
            return None
        x = slice_index(st, s0, i, call)
        for o in x or []:
            if isinstance(o, Out):
                o.st.events = o.st.events[:-1]
        return None if x is None else [(o.st, NONE) if isinstance(o, Out) else (o[0], some(o[1])) for o in x]
    r = []
    for s, c in fork_bool(st, lt(i, length(s0))):
        r.append((s, some(elem_ref(s, v[0], ('i', i), i) if call.key.endswith('mut') else index(s0, i)) if c else NONE))
    return r


@model('slice::first', 'slice::first_mut')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    r = []
    for s, e in fork_bool(st, eq0(length(s0))):
        r.append((s, NONE if e else some(elem_ref(s, v[0], ('i', ZERO), ZERO) if call.key.endswith('mut') else index(s0, ZERO))))
    return r


@model('slice::last', 'slice::last_mut')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    r = []
    for s, e in fork_bool(st, eq0(length(s0))):
        if e:
            r.append((s, NONE))
        else:
            n = sub(length(s0), ONE)
            r.append((s, some(elem_ref(s, v[0], ('last',), n) if call.key.endswith('mut') else index(s0, n))))
    return r


@model('Iterator::last', 'DoubleEndedIterator::next_back_')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    r = []
    for s, e in fork_bool(st, eq0(length(s0))):
        r.append((s, NONE if e else some(index(s0, sub(length(s0), ONE)))))
    return r


@model('slice::split_first')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    r = []
    for s, e in fork_bool(st, eq0(length(s0))):
        r.append((s, NONE if e else some(tup(index(s0, ZERO), drop(s0, ONE)))))
    return r


@model('slice::split_at')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    r = []
    for s, c in fork_bool(st, lt(length(s0), v[1])):
        r.append(panic(s, 'split_at', call) if c else (s, tup(take(s0, v[1]), drop(s0, v[1]))))
    return r


@model('slice::concat')
def _(eng, st, v, call):
    x = st.pure(v[0])
    if x[0] == 'adt' and x[1] == 'array':
        return cat(*x[3])
    return None


@model('Iterator::next', 'Iter::next', 'IntoIter::next')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    a = v[0][1:]
    x = as_seq(st.read(a))
    while x[0] == 'ref':
        a = x[1:]
        x = as_seq(st.read(a))
    if x[0] == 'adt' and x[1].endswith('::Range'):
        i, n = x[3]
        r = []
        for s, c in fork_bool(st, lt(i, n)):
            if c:
                s.write(a, ('adt', x[1], 0, (add(i, ONE), n)))
            r.append((s, some(i) if c else NONE))
        return r
    if x[0] == 'adt':
        return None
    r = []
    for s, e in fork_bool(st, eq0(length(x))):
        if e:
            r.append((s, NONE))
        else:
            s.write(a, drop(x, ONE))
            r.append((s, some(index(x, ZERO))))
    return r


RANGES = {'Range': 'r', 'RangeFrom': 'f', 'RangeTo': 't', 'RangeFull': 'a', 'RangeInclusive': 'ri', 'RangeToInclusive': 'ti'}


def slice_index(st, x, i, call):
    """[(state, value) | Out] for x[i]"""
    x = as_seq(x)
    n = length(x)
    if i[0] == 'adt':
        k = i[1].split('::')[-1]
        f = i[3]
        if k == 'RangeFull':
            return [(st, x)]
        if k == 'RangeFrom':
            a, b = f[0], n
        elif k == 'RangeTo':
            a, b = ZERO, f[0]
        elif k == 'RangeToInclusive':
            a, b = ZERO, add(f[0], ONE)
        elif k == 'Range':
            a, b = f
        elif k == 'RangeInclusive':
            a, b = f[0], add(f[1], ONE)
        else:
            return None
        r = []
        for s, bad in fork_bool(st, lt(b, a)):
            if bad:
                r.append(panic(s, 'slice', call))
                continue
            for s2, bad2 in fork_bool(s, lt(n, b)):
                r.append(panic(s2, 'slice', call) if bad2 else (s2, take(drop(x, a), sub(b, a))))
        return r
    r = []
    for s, good in fork_bool(st, lt(i, n)):
        r.append((s, index(x, i)) if good else panic(s, 'index', call))
    return r


@model('Index::index')
def _(eng, st, v, call):
    return slice_index(st, st.deref(v[0]), st.deref(v[1]), call)


@model('IndexMut::index_mut')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    i = st.deref(v[1])
    if i[0] != 'adt':
        n = length(st.deref(v[0]))
        return [(s, ('ref', v[0][1], v[0][2] + (('i', i),))) if g else panic(s, 'index', call) for s, g in fork_bool(st, lt(i, n))]
    # a mutable subslice: a view
    k = i[1].split('::')[-1]
    base = v[0]
    x = as_seq(st.deref(base))
    n = length(x)
    f = i[3]
    a, b = {'RangeFull': (ZERO, n), 'RangeFrom': (f[0] if f else ZERO, n), 'RangeTo': (ZERO, f[0] if f else n)}.get(k, (f[0], f[1]) if len(f) == 2 else (None, None))
    if a is None:
        return None
    if a == ZERO and b == n:
        return base
    r = []
    for s, bad in fork_bool(st, lt(b, a)):
        if bad:
            r.append(panic(s, 'slice', call))
            continue
        for s2, bad2 in fork_bool(s, lt(n, b)):
            r.append(panic(s2, 'slice', call) if bad2 else (s2, ('t', 'mview', base, a, b)))
    return r


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _(eng, st, v, call):
    src = st.pure(v[1])
    d = v[0]
    if is_t(d, 'mview'):
        base, a, b = d[2:]
        x = as_seq(st.deref(base))
        r = []
        for s, e in fork_bool(st, eq(sub(b, a), length(src))):
            if not e:
                r.append(panic(s, 'copy_from_slice', call))
            else:
                s.write(base[1:], cat(take(x, a), src, drop(x, b)))
                r.append((s, UNIT))
        return r
    if d[0] == 'ref':
        st.write(d[1:], src)
        return UNIT
    return None


@model('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = st.pure(v[0])

    def before(s, a, b):
        """[(state, a has to stand before b)]"""
        r = []
        for o in eng.apply(s, v[1], [a]):
            if o.kind != 'return':
                return None
            for p in eng.apply(o.st, v[1], [b]):
                if p.kind != 'return':
                    return None
                r += key_order(eng, p.st, p.st.pure(o.val), p.st.pure(p.val))
        return [(s2, k < 0) for s2, k in r]
    r = sort_units(st, v, x, before)
    if r is not None:
        return r
    # the key must be the first byte of the prefix: recorded, checked by the rules
    s2 = st.copy()
    probe = ('sym', 'sortprobe')
    keys = [s2.pure(o.val) for o in eng.apply(s2, v[1], [probe]) if o.kind == 'return']
    st.event('sort', tuple(keys))
    if x == EMPTY or st.decide(lt(ONE, length(x))) == 0:
        return UNIT
    st.write(v[0][1:], ('t', 'sorted', x, keys[0] if len(keys) == 1 else ('t', 'opaque', ('str', 'sort key'))))
    return UNIT


def key_order(eng, st, a, b):
    """[(state, -1 | 0 | 1)] for two sort keys"""
    n = 0
    while a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[1].split('::')[-1] == 'Reverse':
        a, b, n = b[3][0], a[3][0], n + 1
    return orders(eng, st, mkcmp(st, a, b))


def sort_units(st, v, x, before):
    """a list of a few known items is sorted by inserting one after the other"""
    x = units_of(x)
    if x is None or not 2 <= len(x) <= 3:
        return None
    done = [(st.copy(), [])]
    for y in x:
        nxt = []
        for s, l in done:
            # stable: y goes behind every item that it is not smaller than
            todo = [(s, len(l))]
            while todo:
                s2, k = todo.pop()
                r = before(s2, y, l[k - 1]) if k else [(s2, False)]
                if r is None:
                    return None
                for s3, c in r:
                    if c:
                        todo.append((s3, k - 1))
                    else:
                        nxt.append((s3, l[:k] + [y] + l[k:]))
        done = nxt
    for s, l in done:
        s.write(v[0][1:], cat(*[unit(y) for y in l]))
    return [(s, UNIT) for s, l in done]


@model('slice::sort_by', 'slice::sort_unstable_by')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None

    def before(s, a, b):
        r = []
        for o in eng.apply(s, v[1], [a, b]):
            if o.kind != 'return':
                return None
            c = o.st.deref(o.val)
            r += [(o.st, c[2] == 0)] if c[0] == 'adt' and c[1] == ORDERING else [(s2, k < 0) for s2, k in orders(eng, o.st, c)]
        return r
    return sort_units(st, v, st.pure(v[0]), before)


@model('Iterator::take_while', 'Iterator::filter', 'Iterator::skip_while')
def _(eng, st, v, call):
    x = st.pure(v[0])
    op = call.key.split('::')[1]
    return ('t', op, x, probe_fn(eng, st, v[1], 1))


def mutates(eng, f):
    """a closure that changes, or owns, what it captured"""
    if f[0] != 'clo':
        return False
    for t in eng.prog.tys:
        if t.get('k') == 'closure' and t.get('id') == f[1]:
            return any(not eng.prog.tys_s(u).startswith('&') or eng.prog.tys_s(u).startswith('&mut') for u in t['upvars'])
    return True


@model('prelude::stage')
def _(eng, st, v, call):
    rs = [(st, v[1])]
    outs = []
    for stage in v[0][3]:
        f, nxt = stage[3][0], []
        for s, x in rs:
            if x == NONE:
                nxt.append((s, x))
                continue
            arg = x
            if is_t(f, 'lambda'):
                os = [Out('return', s, substitute(f[2], lambda y: s.pure(arg) if y == ('sym', 'arg0') else None))]
            else:
                os = eng.apply(s, f, [arg])
            for o in os:
                if o.kind != 'return':
                    outs.append(o)
                elif stage[1] == 'prelude::map':
                    nxt.append((o.st, o.val))
                else:
                    nxt += [(s2, arg if keep else NONE) for s2, keep in fork_bool(o.st, o.st.pure(o.val))]
        rs = nxt
    return outs + [Out('return', s, NONE if x == NONE and len(v[0][3]) and v[0][3][-1][1] != 'prelude::map' else some(x)) for s, x in rs]


def run_each(eng, st, x, into, mode, call):
    import prelude
    seq, fs = prelude.stages(x)
    if not seq_like(as_seq(seq)) or call is None or call.body is None:
        return None
    if any(mutates(eng, f[3][0]) for f in fs[3]):
        return None
    return eng.exec_body(st, prelude.each(eng.prog, call.body, mode), [as_seq(seq), fs, into])


@model('prelude::apply')
def _(eng, st, v, call):
    return eng.apply(st, v[0], v[1:])


def owns(eng, f):
    """a closure with state of its own"""
    if f[0] != 'clo':
        return False
    for t in eng.prog.tys:
        if t.get('k') == 'closure' and t.get('id') == f[1]:
            return any(not eng.prog.tys_s(u).startswith('&') for u in t['upvars'])
    return True


@model('Iterator::for_each', 'Iterator::try_for_each', 'Iterator::fold')
def _(eng, st, v, call):
    import prelude
    mode = call.key.split('::')[1]
    x = st.pure(v[0])
    seq, fs = prelude.stages(x)
    f = v[2 if mode == 'fold' else 1]
    if not (seq_like(as_seq(seq)) or seq[0] == 'sym') or call.body is None or owns(eng, st.pure(f)) or any(mutates(eng, g[3][0]) for g in fs[3]):
        return None
    if mode == 'try_for_each' and not eng.prog.tys_s(call.ty).startswith('std::result::Result<'):
        return None
    if v[0][0] == 'ref':
        st.write(v[0][1:], ('t', 'opaque', ('str', 'rest of an iterator')))
    return eng.exec_body(st, prelude.drain(eng.prog, call.body, mode), [as_seq(seq), fs, f, v[1] if mode == 'fold' else UNIT])


@model('Iterator::collect')
def _(eng, st, v, call):
    if v[0][0] == 'ref' or call.ty is None:
        return None
    x = st.pure(v[0])
    t = eng.prog.tys_s(call.ty)
    if t.startswith('std::vec::Vec<'):
        if seq_like(x):
            return as_seq(x)
        return run_each(eng, st, x, EMPTY, 'vec', call)
    if t.startswith('std::result::Result<std::vec::Vec<'):
        return run_each(eng, st, x, EMPTY, 'result', call)
    if t.startswith('std::option::Option<std::vec::Vec<'):
        return run_each(eng, st, x, EMPTY, 'option', call)
    return None


@model('Iterator::find')
def _(eng, st, v, call):
    if call is None or call.body is None:
        return None
    x = st.pure(v[0])
    if v[0][0] == 'ref':
        st.write(v[0][1:], ('t', 'opaque', ('str', 'rest of an iterator')))
    return run_each(eng, st, ('t', 'filter', x, st.pure(v[1])), EMPTY, 'find', call)


@model('Iterator::map')
def _(eng, st, v, call):
    x = st.pure(v[0])
    if v[0][0] == 'ref':
        st.write(v[0][1:], ('t', 'opaque', ('str', 'rest of a borrowed iterator')))
    return ('t', 'map', x, probe_fn(eng, st, v[1], 1, x))


def probe_fn(eng, st, f, n, x=None):
    """canonical form of a side effect free closure: its value for a symbolic argument"""
    s2 = st.copy()
    args = [('sym', 'arg%d' % i) for i in range(n)]
    try:
        o = [o for o in eng.apply(s2, f, args)]
    except Exception:
        return st.pure(f)
    if len(o) == 1 and o[0].kind == 'return' and o[0].st.events == st.events and o[0].st.pc == st.pc:
        return ('t', 'lambda', o[0].st.pure(o[0].val))
    return st.pure(f)


@model('Iterator::zip')
def _(eng, st, v, call):
    return ('t', 'zip', st.pure(v[0]), st.pure(v[1]))


EQPAIR = ('t', 'lambda', eq(project(('sym', 'arg0'), ('f', 0)), project(('sym', 'arg0'), ('f', 1))))


@model('Iterator::count')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if is_t(x, 'take_while') and is_t(x[2], 'zip') and x[3] == EQPAIR:
        return cp(x[2][2], x[2][3])
    if is_t(x, 'map'):
        return length(x[2])
    if x[0] == 't' and x[1] in ('take_while', 'filter', 'zip', 'skip_while'):
        return ('t', 'count', x)
    return length(x)


@model('Iterator::position')
def _(eng, st, v, call):
    return ('t', 'position', st.pure(v[0]), probe_fn(eng, st, v[1], 1))


NEPAIR = ('t', 'lambda', eq(EQPAIR[2], I(0)))


def zip_all(st, z, f, call):
    """are all (or any two) elements of two sequences at the same place equal (different): only the shorter length is compared"""
    every = call.key.endswith('all')
    if f != (EQPAIR if every else NEPAIR):
        return None
    x, y = z[2], z[3]
    same = eq(x, y)
    r = []
    n = eq(length(x), length(y))
    for lens, equal, ans in ((1, 1, 1), (1, 0, 0), (0, 0, 1), (0, 0, 0)):
        if st.decide(n) == 1 - lens:
            continue
        s = st.copy()
        if (s.decide(n) == lens or s.assume(n, lens)) and (s.decide(same) == equal or s.assume(same, equal)):
            r.append((s, I(ans if every else 1 - ans)))
    return r or None


@model('Iterator::any', 'Iterator::all')
def _(eng, st, v, call):
    """asks every element of a sequence of which nothing else is known: the answers the closure can give for one decide what is possible.
    The event keeps the answers that the elements gave."""
    x = st.pure(st.deref(v[0]))
    if is_t(x, 'zip'):
        return zip_all(st, x, probe_fn(eng, st, v[1], 1), call)
    if x[0] not in ('t', 'sym') or x[0] == 't' and x[1] not in ('kids', 'block', 'fld', 'idx', 'drop', 'take', 'loaded', 'nC', 'nP'):
        return None
    n = length(x)
    i = ('sym', eng.new('some'))
    item = index(x, i)
    s0 = st.copy()
    s0.assume(lt(i, n), 1)
    answers = {0: [], 1: []}
    try:
        outs = eng.apply(s0, v[1], [item])
    except Exception:
        return None
    todo = list(outs)
    while todo:
        o = todo.pop()
        if o.kind != 'return' or o.st.imprecise != st.imprecise or any(e[0] not in ('tag', 'ok') for e in o.st.events[len(st.events):]):
            return None
        val = o.st.pure(o.val)
        d = val[1] if val[0] == 'i' else o.st.decide(val)
        if d is not None:
            answers[int(d)].append(o.st.pc[len(st.pc):])
            continue
        for b in (0, 1):
            s = o.st.copy()
            if s.assume(val, b):
                todo.append(Out('return', s, I(b)))
        if len(answers[0]) + len(answers[1]) > 64:
            return None
    stop = 0 if call.key.endswith('all') else 1     # the answer that ends the search
    r = []
    s = st.copy()       # no element gave it
    if s.decide(eq0(n)) == 1 or answers[1 - stop] or s.assume(eq0(n), 1):
        s.event('every', x, i, tuple(answers[1 - stop]))
        r.append((s, I(1 - stop)))
    s = st.copy()
    if answers[stop] and s.decide(eq0(n)) != 1 and s.assume(eq0(n), 0):
        s.event('every', x, i, tuple(answers[0] + answers[1]))
        r.append((s, I(stop)))
    if v[0][0] == 'ref':
        for s, _ in r:
            s.write(v[0][1:], ('t', 'opaque', ('str', eng.new('rest'))))
    return r or None


def inputs_of(x):
    r = set()

    def f(y):
        if y[0] == 'sym':
            r.add(y)
        return False
    contains(x, f)
    return r


@model('ptr::eq', 'Arc::ptr_eq', 'Rc::ptr_eq', 'ptr::addr_eq')
def _(eng, st, v, call):
    """the same place has the same content; different places can have the same content or not"""
    if v[0][0] == 'ref' and v[0] == v[1]:
        return I(1)
    a, b = st.pure(st.deref(v[0])), st.pure(st.deref(v[1]))
    t = ('t', 'sameplace') + tuple(sorted((a, b), key=repr))
    r = []
    for d in (1, 0):
        s = st.copy()
        if not s.assume(t, d) or d and a != b and not s.assume(eq(a, b), 1):
            continue
        if a == b and not d or inputs_of(a) & inputs_of(b) and a != b and d:
            s.imprecise = s.imprecise + (call.key,)
        r.append((s, I(d)))
    return r


@model('slice::starts_with')
def _(eng, st, v, call):
    a, b = st.pure(v[0]), st.pure(v[1])
    return eq(cp(a, b), length(b))


@model('Box::new_uninit')
def _(eng, st, v, call):
    r = ('B', eng.new('box'))
    st.mem[r] = ('t', 'undef')
    return ('ref', r, ())


@model('box_assume_init_into_vec_unsafe', 'vec::box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe')
def _(eng, st, v, call):
    return as_seq(st.pure(v[0]))


@model('vec::from_elem', 'from_elem')
def _(eng, st, v, call):
    return ('t', 'rep', v[0], v[1])


@model('TryInto::try_into', 'TryFrom::try_from')
def _(eng, st, v, call):
    ty = eng.prog.tys_s(call.ty)
    import re
    x = st.pure(v[0])
    m = re.search(r'\[u8; (\d+)\]', ty)
    if m:
        n = int(m.group(1))
        return [(s, ok(x) if e else err(('t', 'tryerr', x))) for s, e in fork_bool(st, eq(length(x), I(n)))]
    m = re.search(r'Result<(u8|u16|u32|u64|usize)', ty)
    if m:
        bits = eng.BITS[m.group(1)]
        fits = lt(x, I(1 << bits)) if bits < 64 else ONE
        return [(s, ok(x) if e else err(('t', 'tryerr', x))) for s, e in fork_bool(st, fits)]
    return None


def be(n):
    def f(eng, st, v, call):
        x = st.pure(v[0])
        if is_t(x, 'tobe') and x[3] == n:
            return x[2]
        return ('t', 'be', x, n)
    return f


def tobe(n):
    def f(eng, st, v, call):
        x = st.pure(v[0])
        if is_t(x, 'be') and x[3] == n:
            return x[2]
        return ('t', 'tobe', x, n)
    return f


for name, n in (('u64', 8), ('u32', 4), ('u16', 2)):
    M[name + '::from_be_bytes'] = be(n)
    M[name + '::to_be_bytes'] = tobe(n)


def swap(x, n):
    return x[2] if is_t(x, 'swap') and x[3] == n else ('t', 'swap', x, n)


def le(n):
    f = be(n)
    return lambda eng, st, v, call: swap(f(eng, st, v, call), n)


def tole(n):
    f = tobe(n)
    return lambda eng, st, v, call: f(eng, st, [swap(st.pure(v[0]), n)], call)


SIZES = {'u64': 8, 'u32': 4, 'u16': 2}
for name, n in SIZES.items():
    for end in ('le', 'ne'):
        M['%s::from_%s_bytes' % (name, end)] = le(n)
        M['%s::to_%s_bytes' % (name, end)] = tole(n)
for end in ('le', 'ne'):
    M['num::from_%s_bytes' % end] = lambda eng, st, v, call: le(SIZES.get(eng.prog.tys_s(call.ty), 8))(eng, st, v, call)
    M['num::to_%s_bytes' % end] = lambda eng, st, v, call: tole(SIZES.get(eng.prog.tys_s(call.argtys[0]), 8))(eng, st, v, call)
M['num::from_be_bytes'] = lambda eng, st, v, call: be({'u64': 8, 'u32': 4, 'u16': 2}.get(eng.prog.tys_s(call.ty), 8))(eng, st, v, call)
M['num::to_be_bytes'] = lambda eng, st, v, call: tobe({'u64': 8, 'u32': 4, 'u16': 2}.get(eng.prog.tys_s(call.argtys[0]), 8))(eng, st, v, call)


@model('Default::default')
def _(eng, st, v, call):
    t = eng.prog.tys_s(call.ty)
    if t.startswith(('std::vec::Vec', 'std::sync::Arc<std::vec::Vec', '&[')) or t == '&str':
        return EMPTY
    if t in eng.BITS:
        return ZERO
    if t.startswith('std::option::Option'):
        return NONE
    return ('t', 'default', ('str', t))


@model('From::from', 'Into::into')
def _(eng, st, v, call):
    return v[0]


# ---- errors, formatting, panics -------------------------------------------------------------

def opaque_err(eng, st, v, call):
    return ('t', 'newerr')


for n in ('Error::msg', 'anyhow::__private::format_err', '__private::format_err', 'Error::new', 'Adhoc::new', 'Trait::new', '__private::must_use',
          'kind::Adhoc::new', 'kind::Trait::new', 'Error::from', 'ensure::render', 'Error::context', '__private::kind'):
    M[n] = opaque_err


@model('__private::__dispatch_ensure', 'kind::__dispatch_ensure')
def _(eng, st, v, call):
    return ('t', 'newerr')


def unitfmt(eng, st, v, call):
    return ('t', 'fmt')


for n in ('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str', 'Argument::new_debug', 'Argument::new_display', 'fmt::format',
          'rt::Argument::new_debug', 'rt::Argument::new_display', 'Argument::none', 'Arguments::new_v1_formatted', 'string::to_string', 'ToString::to_string', 'String::from', 'fmt::format::{closure#0}', 'alloc::fmt::format', 'hint::must_use'):
    M[n] = unitfmt


@model('_print', 'io::_print', 'stdio::_print', '_eprint', 'io::_eprint')
def _(eng, st, v, call):
    return UNIT


def diverge(eng, st, v, call):
    return panic(st, 'explicit', call)


for n in ('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_default_msg', 'panicking::panic_display', 'panicking::unreachable_display', 'panicking::assert_failed',
          'core::panicking::panic', 'panicking::panic_explicit', 'panicking::panic_str_2015', 'rt::begin_panic', 'rt::panic_fmt', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_nounwind',
          'unreachable_unchecked', 'panicking::panic_const'):
    M[n] = diverge


# ---- operators through traits ----------------------------------------------------------------

@model('Not::not')
def _(eng, st, v, call):
    return boolnot(st.deref(v[0]))


@model('FnOnce::call_once', 'Fn::call', 'FnMut::call_mut')
def _(eng, st, v, call):
    args = list(v[1][3]) if v[1][0] == 'adt' and v[1][1] == 'tuple' else [v[1]]
    return eng.apply(st, v[0], args, call)


# ---- InPlaceVecBuilder -------------------------------------------------------------------------

IPV = 'InPlaceVecBuilder'


@model('InPlaceVecBuilder::from')
def _(eng, st, v, call):
    x = st.deref(v[0])
    return ('adt', IPV, 0, (v[0], EMPTY, x))


def ipv(st, v):
    b = st.deref(v)
    return b if b[0] == 'adt' and b[1] == IPV else None


@model('InPlaceVecBuilder::source_slice')
def _(eng, st, v, call):
    b = ipv(st, v[0])
    return b and b[3][2]


@model('InPlaceVecBuilder::source_slice_mut')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    return ('ref', v[0][1], v[0][2] + (('f', 2),))


@model('InPlaceVecBuilder::target_slice')
def _(eng, st, v, call):
    b = ipv(st, v[0])
    return b and b[3][1]


@model('InPlaceVecBuilder::push')
def _(eng, st, v, call):
    b = ipv(st, v[0])
    if b is None or v[0][0] != 'ref':
        return None
    st.write(v[0][1:], ('adt', IPV, 0, (b[3][0], cat(b[3][1], unit(v[1])), b[3][2])))
    return UNIT


@model('InPlaceVecBuilder::consume')
def _(eng, st, v, call):
    """consume(n, take): drops or moves n items of the source"""
    b = ipv(st, v[0])
    if b is None or v[0][0] != 'ref':
        return None
    n = v[1]
    r = []
    for s, t in fork_bool(st, v[2]):
        src = b[3][2]
        for s2, bad in fork_bool(s, lt(length(src), n)):
            m = length(src) if bad else n
            o = cat(b[3][1], take(src, m)) if t and not (is_int(m) and m[1] == 1) else \
                cat(b[3][1], unit(index(src, ZERO))) if t else b[3][1]
            s2.write(v[0][1:], ('adt', IPV, 0, (b[3][0], o, drop(src, m))))
            r.append((s2, UNIT))
    return r


@model('InPlaceVecBuilder::skip', 'InPlaceVecBuilder::take')
def _(eng, st, v, call):
    return M['InPlaceVecBuilder::consume'](eng, st, [v[0], v[1], I(call.key.endswith('take'))], call)


@model('InPlaceVecBuilder::pop_front')
def _(eng, st, v, call):
    b = ipv(st, v[0])
    if b is None or v[0][0] != 'ref':
        return None
    src = b[3][2]
    r = []
    for s, e in fork_bool(st, eq0(length(src))):
        if e:
            r.append((s, NONE))
        else:
            s.write(v[0][1:], ('adt', IPV, 0, (b[3][0], b[3][1], drop(src, ONE))))
            r.append((s, some(index(src, ZERO))))
    return r


def drop_ipv(eng, st, addr, v):
    v = st.deref(v)
    if v[0] == 'adt' and v[1] == IPV:
        # dropping the builder keeps what was taken and drops the rest of the source
        ref = v[3][0]
        if ref[0] == 'ref':
            st.write(ref[1:], v[3][1])
        st.event('ipv_done', st.pure(v[3][1]), st.pure(v[3][2]))
    return None


M['drop:InPlaceVecBuilder'] = drop_ipv


SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'char': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8,
         'f64': 8, 'u128': 16, 'i128': 16, '()': 0}


@model('mem::size_of')
def _(eng, st, v, call):
    t = [eng.prog.tys_s(x) for x in (call.info or {}).get('targs') or [] if isinstance(x, int)]
    # the verified target has 64 bits
    if len(t) == 1 and t[0] in SIZES:
        return I(SIZES[t[0]])
    if len(t) == 1 and t[0].startswith(('*', '&')) and not any(x in t[0] for x in ('[', 'str', 'dyn')):
        return I(8)
    return None

for _k in [k for k in M if k.startswith('num::')]:
    for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
        M.setdefault(_t + '::' + _k[5:], M[_k])


@model('Option::as_slice')
def _(eng, st, v, call):
    x = st.pure(v[0])
    return [(s, unit(project(project(x, ('v', 1)), ('f', 0))) if k else EMPTY) for s, k in fork_bool(st, discr(x))]


# ---- more of the standard library ----------------------------------------------------------------------

def seq_like(x):
    """a plain sequence: not a range, and not an adapter whose elements are only computed on demand"""
    return x[0] == 'sym' or x[0] == 't' and x[1] in ('cat', 'take', 'drop', 'kids', 'block', 'nP', 'nC', 'idb', 'dab', 'stored', 'chunk', 'fld', 'idx', 'vbytes', 'rep', 'unit', 'child') or \
        x == EMPTY or x[0] == 'adt' and x[1] == 'array'


def units_of(x):
    """the elements of a sequence of known length"""
    x = as_seq(x)
    if x == EMPTY:
        return []
    if is_t(x, 'unit'):
        return [x[2]]
    if is_t(x, 'cat') and all(is_t(y, 'unit') for y in x[2:]):
        return [y[2] for y in x[2:]]
    return None


@model('bool::then')
def _(eng, st, v, call):
    r = []
    for s, c in fork_bool(st, st.pure(v[0])):
        if c:
            r += outs_of(eng, s, v[1], [], None, some)
        else:
            r.append(Out('return', s, NONE))
    return r


@model('bool::then_some')
def _(eng, st, v, call):
    return [(s, some(v[1]) if c else NONE) for s, c in fork_bool(st, st.pure(v[0]))]


@model('Option::get_or_insert', 'Option::get_or_insert_with')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    ref = ('ref', v[0][1], v[0][2] + (('v', 1), ('f', 0)))
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        if i:
            r.append(Out('return', s, ref))
        elif call.key.endswith('with'):
            for o in eng.apply(s, v[1], [], None):
                if o.kind == 'return':
                    o.st.write(v[0][1:], some(o.val))
                    o = Out('return', o.st, ref)
                r.append(o)
        else:
            s.write(v[0][1:], some(v[1]))
            r.append(Out('return', s, ref))
    return r


@model('Option::flatten')
def _(eng, st, v, call):
    return [(s, x if i else NONE) for s, i, x in fork_enum(eng, st, v[0])]


@model('Option::xor')
def _(eng, st, v, call):
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        for s2, j, y in fork_enum(eng, s, v[1]):
            r.append((s2, some(x if i else y) if i != j else NONE))
    return r


@model('Result::is_ok_and', 'Result::is_err_and')
def _(eng, st, v, call):
    want = 0 if call.key.endswith('ok_and') else 1
    r = []
    for s, i, x in fork_enum(eng, st, v[0]):
        r += outs_of(eng, s, v[1], [x], None) if i == want else [Out('return', s, ZERO)]
    return r


@model('Ordering::then')
def _(eng, st, v, call):
    r = []
    for s, e in fork_bool(st, eq0(st.pure(v[0]))) if v[0][0] != 'adt' else [(st, v[0][2] == 1)]:
        r.append((s, v[1] if e else v[0]))
    return r if v[0][0] == 'adt' else None


@model('slice::split_last')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    r = []
    for s, e in fork_bool(st, eq0(length(s0))):
        n = sub(length(s0), ONE)
        r.append((s, NONE if e else some(tup(index(s0, n), take(s0, n)))))
    return r


@model('slice::split_at_checked')
def _(eng, st, v, call):
    s0 = st.deref(v[0])
    return [(s, NONE if c else some(tup(take(s0, v[1]), drop(s0, v[1])))) for s, c in fork_bool(st, lt(length(s0), v[1]))]


@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def _(eng, st, v, call):
    # outside of the slice it is not defined what happens: as bad as a panic
    f = M['IndexMut::index_mut' if call.key.endswith('mut') else 'Index::index']
    return f(eng, st, v, call)


@model('slice::ends_with')
def _(eng, st, v, call):
    a, b = st.pure(v[0]), st.pure(v[1])
    d = sub(length(a), length(b))
    r = []
    for s, short in fork_bool(st, lt0(d)):
        r += [(s, ZERO)] if short else fork_val(s, eq(drop(a, d), b))
    return r


def fork_val(st, c):
    return [(s, I(x)) for s, x in fork_bool(st, c)]


@model('slice::strip_prefix')
def _(eng, st, v, call):
    a, b = st.pure(v[0]), st.pure(v[1])
    if not (seq_like(a) and seq_like(b)):
        return None
    return [(s, some(drop(a, length(b))) if x else NONE) for s, x in fork_bool(st, eq(cp(a, b), length(b)))]


@model('slice::swap')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = units_of(st.pure(v[0]))
    i, j = v[1], v[2]
    if x is None or not is_int(i) or not is_int(j):
        return None
    if max(i[1], j[1]) >= len(x):
        return panic(st, 'index', call)
    x[i[1]], x[j[1]] = x[j[1]], x[i[1]]
    st.write(v[0][1:], cat(*[unit(y) for y in x]))
    return UNIT


@model('slice::reverse')
def _(eng, st, v, call):
    x = units_of(st.pure(v[0])) if v[0][0] == 'ref' else None
    if x is None:
        return None
    st.write(v[0][1:], cat(*[unit(y) for y in x[::-1]]))
    return UNIT


@model('Vec::insert')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = as_seq(st.deref(v[0]))
    r = []
    for s, bad in fork_bool(st, lt(length(x), v[1])):
        if bad:
            r.append(panic(s, 'insert', call))
        else:
            s.write(v[0][1:], cat(take(x, v[1]), unit(v[2]), drop(x, v[1])))
            r.append((s, UNIT))
    return r


@model('Vec::remove')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = as_seq(st.deref(v[0]))
    r = []
    for s, good in fork_bool(st, lt(v[1], length(x))):
        if not good:
            r.append(panic(s, 'remove', call))
        else:
            s.write(v[0][1:], cat(take(x, v[1]), drop(x, add(v[1], ONE))))
            r.append((s, index(x, v[1])))
    return r


@model('Vec::swap_remove')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = as_seq(st.deref(v[0]))
    last = sub(length(x), ONE)
    r = []
    for s, good in fork_bool(st, lt(v[1], length(x))):
        if not good:
            r.append(panic(s, 'swap_remove', call))
            continue
        for s2, end in fork_bool(s, eq(v[1], last)):
            if end:
                s2.write(v[0][1:], take(x, last))
            else:
                s2.write(v[0][1:], cat(take(x, v[1]), unit(index(x, last)), drop(take(x, last), add(v[1], ONE))))
            r.append((s2, index(x, v[1])))
    return r


@model('Vec::split_off')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = as_seq(st.deref(v[0]))
    r = []
    for s, bad in fork_bool(st, lt(length(x), v[1])):
        if bad:
            r.append(panic(s, 'split_off', call))
        else:
            s.write(v[0][1:], take(x, v[1]))
            r.append((s, drop(x, v[1])))
    return r


@model('Vec::drain')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = as_seq(st.deref(v[0]))
    i = st.deref(v[1])
    rs = slice_index(st, x, i, call) if i[0] == 'adt' else None
    if rs is None:
        return None
    f = i[3]
    k = i[1].split('::')[-1]
    a, b = {'RangeFull': (ZERO, length(x)), 'RangeFrom': (f[0] if f else ZERO, length(x)), 'RangeTo': (ZERO, f[0] if f else ZERO)}.get(k, (f[0], f[1]) if k == 'Range' else (None, None))
    if a is None:
        return None
    r = []
    for o in rs:
        if not isinstance(o, Out):
            o[0].write(v[0][1:], cat(take(x, a), drop(x, b)))
        r.append(o)
    return r


@model('Vec::resize')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = as_seq(st.deref(v[0]))
    r = []
    for s, more in fork_bool(st, lt(length(x), v[1])):
        s.write(v[0][1:], cat(x, ('t', 'rep', v[2], sub(v[1], length(x)))) if more else take(x, v[1]))
        r.append((s, UNIT))
    return r


@model('Iterator::chain')
def _(eng, st, v, call):
    a, b = st.pure(v[0]), st.pure(v[1])
    return cat(as_seq(a), as_seq(b)) if seq_like(a) and seq_like(b) else None


@model('Iterator::skip')
def _(eng, st, v, call):
    x = st.pure(v[0])
    if not seq_like(x):
        return None
    return [(s, EMPTY if short else drop(x, v[1])) for s, short in fork_bool(st, lt(length(x), v[1]))]


@model('Iterator::take')
def _(eng, st, v, call):
    x = st.pure(v[0])
    if not seq_like(x) or v[0][0] == 'ref':
        return None
    return [(s, x if short else take(x, v[1])) for s, short in fork_bool(st, lt(length(x), v[1]))]


@model('Iterator::nth')
def _(eng, st, v, call):
    x = st.pure(v[0])
    if not seq_like(x) or v[0][0] != 'ref':
        return None
    r = []
    for s, there in fork_bool(st, lt(v[1], length(x))):
        s.write(v[0][1:], drop(x, add(v[1], ONE)) if there else EMPTY)
        r.append((s, some(index(x, v[1])) if there else NONE))
    return r


@model('Arc::get_mut')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    return [(s, some(v[0]) if u else NONE) for s, u in fork_bool(st, ('t', 'unique', st.pure(v[0])))]


@model('Arc::unwrap_or_clone')
def _(eng, st, v, call):
    return st.pure(v[0])


@model('Arc::try_unwrap')
def _(eng, st, v, call):
    return [(s, ok(v[0]) if u else err(v[0])) for s, u in fork_bool(st, ('t', 'unique', st.pure(v[0])))]


@model('Arc::into_inner')
def _(eng, st, v, call):
    return [(s, some(v[0]) if u else NONE) for s, u in fork_bool(st, ('t', 'unique', st.pure(v[0])))]


def divisor(f):
    def g(eng, st, v, call):
        r = []
        for s, z in fork_bool(st, eq0(v[1])):
            r.append(panic(s, 'division by zero', call) if z else (s, f(v[0], v[1])))
        return r
    return g


M['num::div_ceil'] = divisor(lambda a, b: ('t', 'div', sub(add(a, b), ONE), b) if not (is_int(a) and is_int(b)) else I(-(-a[1] // b[1])))


@model('num::checked_mul')
def _(eng, st, v, call):
    if not (is_int(v[0]) or is_int(v[1])):
        return None
    x = mul(v[0], v[1])
    return [(s, NONE if o else some(x)) for s, o in fork_bool(st, lt(I(2 ** 64 - 1), x))]


for _k in [k for k in M if k.startswith('num::')]:
    for _t in ('u64', 'usize'):
        M.setdefault(_t + '::' + _k[5:], M[_k])


@model('Add::add', 'Mul::mul')
def _(eng, st, v, call):
    """arithmetic on references to numbers"""
    ts = {str(t if isinstance(t, str) else eng.prog.tys_s(t)).lstrip('&').split()[-1] for t in (call.info.get('targs') or ())} if call and call.info else set()
    if not ts or not ts <= {'u64', 'usize', 'u128'}:
        return None
    a, b = st.pure(v[0]), st.pure(v[1])
    return add(a, b) if call.key.startswith('Add') else mul(a, b)
