"""Abstract values: constructor terms with a normal form.

('int', n)                       a number, bool or char
('str', s)
('adt', id, variant, fields)     struct, enum value, tuple ('tuple'), array ('array'), union (variant = 'u:<field>')
('clo', id, upvars)              closure value
('fn', id, path)                 function item
('ref', root, projs)             a mutable reference to a known place
('sym', name)                    unknown value
('t', op, args...)               a term over other values

Sequences (slices, vectors, arcs of vectors, iterators as their remaining items) have the
normal form cat(parts...) where a part is unit(x) or an opaque sequence; shared references,
Arc, Box and ManuallyDrop are transparent: they are represented by what they refer to.
Integers have a linear normal form lin(const, ((term, coef), ...)).
"""

ZERO = ('int', 0)
ONE = ('int', 1)
UNIT = ('adt', 'tuple', 0, ())
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CFLOW = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
NONE = ('adt', OPTION, 0, ())
EMPTY = ('t', 'cat')
LESS, EQUAL, GREATER = -1, 0, 1


def I(n):
    return ('int', int(n))


def some(x):
    return ('adt', OPTION, 1, (x,))


def ok(x):
    return ('adt', RESULT, 0, (x,))


def err(x):
    return ('adt', RESULT, 1, (x,))


def tup(*xs):
    return ('adt', 'tuple', 0, tuple(xs))


def ordering(n):
    return ('adt', ORDERING, n + 1, ())


def is_int(v):
    return v[0] == 'int'


def is_t(v, op):
    return v[0] == 't' and v[1] == op


# ---- linear integer terms ---------------------------------------------

def lin_parts(v):
    if v[0] == 'int':
        return v[1], {}
    if v[0] == 't' and v[1] == 'lin':
        return v[2], dict(v[3])
    return 0, {v: 1}


def lin_make(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return ('t', 'lin', c, tuple(sorted(d.items(), key=lambda p: key(p[0]))))


_keys = {}


def key(v):
    k = _keys.get(v)
    if k is None:
        k = repr(v)
        _keys[v] = k
    return k


def add(a, b, s=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for k, x in d2.items():
        d1[k] = d1.get(k, 0) + s * x
    return lin_make(c1 + s * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if is_int(b):
        a, b = b, a
    if is_int(a):
        c, d = lin_parts(b)
        return lin_make(c * a[1], {k: x * a[1] for k, x in d.items()})
    for x, y in ((a, b), (b, a)):
        if is_t(x, 'lin') or x[0] == 't' and x[1] == 'div' and x[3] == y:
            # x * y distributes; (p / y) * y = p - p % y
            c, d = lin_parts(x)
            r = mul(I(c), y)
            for k, n in d.items():
                if is_t(k, 'div') and k[3] == y:
                    p = sub(k[2], ('t', 'mod', k[2], y))
                else:
                    p = ('t', 'mul') + tuple(sorted((k, y), key=key)) if not is_t(y, 'lin') else mul(y, k)
                r = add(r, mul(I(n), p))
            return r
    return ('t', 'mul') + tuple(sorted((a, b), key=key))


def neg(a):
    return sub(ZERO, a)


def boolnot(x):
    if is_int(x):
        return I(not x[1])
    if is_t(x, 'not'):
        return x[2]
    return ('t', 'not', x)


def surely_nonneg(d):
    """syntactic: d >= 0 for every valuation (lengths are nonnegative, cp(P, Q) <= len(P), len(Q))"""
    c, parts = lin_parts(d)
    pos = {k: x for k, x in parts.items() if x > 0}
    negs = {k: -x for k, x in parts.items() if x < 0}
    for k, x in negs.items():
        if is_t(k, 'cp'):
            for side in (k[2], k[3]):
                l = length(side)
                if pos.get(l, 0) > 0:
                    m = min(x, pos[l])
                    pos[l] -= m
                    x -= m
        if is_t(k, 'hlen'):
            c -= 127 * x
            x = 0
        if x:
            return False
    return c >= 0 and all(nonneg_atom(k) for k, x in pos.items() if x)


def nonneg_atom(k):
    return k[0] == 'sym' or (k[0] == 't' and k[1] in ('len', 'cp', 'cast', 'and', 'mod', 'div', 'mul', 'fld', 'hdr', 'deref', 'idx', 'be', 'min', 'satsub', 'at', 'ptraddr', 'hlen', 'blen', 'isid'))


def eq0(d):
    if is_int(d):
        return I(d[1] == 0)
    c, parts = lin_parts(d)
    if surely_nonneg(sub(d, ONE)) or surely_nonneg(sub(neg(d), ONE)):
        return ZERO
    # the bytes behind the common prefix differ
    if c == 0 and len(parts) == 2 and sorted(parts.values()) == [-1, 1]:
        x, y = parts
        if is_t(x, 'idx') and is_t(y, 'idx') and x[3] == y[3] and is_t(x[3], 'cp') and {x[2], y[2]} == set(x[3][2:]):
            return ZERO
    # canonical sign: first coefficient positive
    items = sorted(parts.items(), key=lambda p: key(p[0]))
    if items[0][1] < 0:
        d = neg(d)
    return ('t', 'eq0', d)


def lt0(d):
    if is_int(d):
        return I(d[1] < 0)
    if surely_nonneg(d):
        return ZERO
    if surely_nonneg(sub(neg(d), ONE)):
        return ONE
    # d < 0 with d <= 0 known is d != 0
    if surely_nonneg(neg(d)):
        return boolnot(eq0(d))
    if surely_nonneg(add(d, ONE)):
        # d >= -1, d < 0 iff d + 1 == 0
        return eq0(add(d, ONE))
    return ('t', 'lt0', d)


def numeric(v):
    if v[0] == 'int':
        return True
    return v[0] == 't' and v[1] in ('lin', 'len', 'cp', 'mod', 'div', 'mul', 'and', 'or', 'cast', 'signed', 'be', 'min', 'satsub', 'hdr', 'hlen', 'blen')


def eq(a, b):
    if a == b:
        return ONE
    if numeric(a) or numeric(b):
        return eq0(sub(a, b))
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
        if a[2] != b[2]:
            return ZERO
        r = [eq(x, y) for x, y in zip(a[3], b[3])]
        if all(x == ONE for x in r):
            return ONE
        if any(x == ZERO for x in r):
            return ZERO
        if len(r) == 1:
            return r[0]
    if a[0] == 'str' and b[0] == 'str':
        return I(a == b)
    if is_t(a, 'cat') and is_t(b, 'cat') and len(a) == 2 or is_t(a, 'cat') and len(a) == 2:
        return eq0(length(b))
    if is_t(b, 'cat') and len(b) == 2:
        return eq0(length(a))
    return ('t', 'eq') + tuple(sorted((a, b), key=key))


def lt(a, b):
    return lt0(sub(a, b))


# ---- sequences ----------------------------------------------------------

def unit(x):
    return ('t', 'unit', x)


def cat(*parts):
    r = []
    for p in parts:
        if is_t(p, 'cat'):
            r.extend(p[2:])
        elif p[0] == 'adt' and p[1] == 'array':
            r.extend(unit(x) for x in p[3])
        else:
            r.append(p)
    # take(s, n) ++ drop(s, n) = s
    out = []
    for p in r:
        if out and is_t(p, 'drop') and is_t(out[-1], 'take') and out[-1][2] == p[2] and out[-1][3] == p[3]:
            out[-1] = p[2]
        elif out and is_t(p, 'drop') and is_t(out[-1], 'unit') and is_t(out[-1][2], 'idx') and out[-1][2][2] == p[2] \
                and add(out[-1][2][3], ONE) == p[3]:
            out[-1] = drop(p[2], out[-1][2][3])
        else:
            out.append(p)
    if len(out) == 1 and not is_t(out[0], 'unit'):
        return out[0]
    return ('t', 'cat') + tuple(out)


def seq(*xs):
    return cat(*[unit(x) for x in xs])


def as_seq(v):
    if v[0] == 'adt' and v[1] == 'array':
        return cat(v)
    return v


def length(s):
    s = as_seq(s)
    if is_t(s, 'cat'):
        r = ZERO
        for p in s[2:]:
            r = add(r, ONE if is_t(p, 'unit') else length(p))
        return r
    if is_t(s, 'unit'):
        return ONE
    if is_t(s, 'take'):
        return s[3]
    if is_t(s, 'drop'):
        return sub(length(s[2]), s[3])
    if is_t(s, 'rep'):
        return s[3]
    if is_t(s, 'tobe'):
        return I(s[3])
    if is_t(s, 'fbytes') or is_t(s, 'mmap'):
        return s[3]
    if s[0] == 'str':
        return I(len(s[1]))
    if is_t(s, 'sorted'):
        return length(s[2])
    if is_t(s, 'idb'):
        return ('t', 'hlen', s[3])
    if is_t(s, 'chunk'):
        return s[3]
    return ('t', 'len', s)


def drop(s, n):
    s = as_seq(s)
    if n == ZERO:
        return s
    if n == length(s):
        return EMPTY
    if is_t(s, 'cat') and is_int(n):
        parts = list(s[2:])
        k = n[1]
        while k and parts and is_t(parts[0], 'unit'):
            parts.pop(0)
            k -= 1
        if k == 0:
            return cat(*parts)
        if len(parts) == 1:
            return drop(parts[0], I(k))
        return ('t', 'drop', cat(*parts), I(k))
    if is_t(s, 'cat') and len(s) > 2:
        l = ONE if is_t(s[2], 'unit') else length(s[2])
        if l == n:
            return cat(*s[3:])
        d = sub(n, l)
        if surely_nonneg(d) and not is_int(l):
            return drop(cat(*s[3:]), d)
    if is_t(s, 'drop'):
        return drop(s[2], add(s[3], n))
    if is_t(s, 'take'):
        # drop(take(x, m), n) = take(drop(x, n), m - n)
        return take(drop(s[2], n), sub(s[3], n))
    return ('t', 'drop', s, n)


def take(s, n):
    s = as_seq(s)
    if n == ZERO:
        return EMPTY
    if n == length(s):
        return s
    if is_t(s, 'cat') and is_int(n):
        parts, r, k = list(s[2:]), [], n[1]
        while k and parts and is_t(parts[0], 'unit'):
            r.append(parts.pop(0))
            k -= 1
        if k == 0:
            return cat(*r)
    if is_t(s, 'cat') and len(s) > 2 and not is_int(n):
        l = ONE if is_t(s[2], 'unit') else length(s[2])
        if l == n:
            return cat(s[2])
        d = sub(n, l)
        if surely_nonneg(d) and not is_int(l):
            return cat(s[2], take(cat(*s[3:]), d))
    if is_t(s, 'take'):
        if surely_nonneg(sub(s[3], n)):
            return take(s[2], n)
    # take(P, cp(P, Q)) = take(Q, cp(P, Q))
    if is_t(n, 'cp') and s in (n[2], n[3]):
        return ('t', 'take', n[2], n)
    return ('t', 'take', s, n)


def index(s, i):
    s = as_seq(s)
    if is_t(s, 'cat') and len(s) > 2:
        if is_int(i):
            parts, k = list(s[2:]), i[1]
            while parts and k and is_t(parts[0], 'unit'):
                parts.pop(0)
                k -= 1
            if parts and k == 0 and is_t(parts[0], 'unit'):
                return parts[0][2]
            if len(parts) == 1:
                return index(parts[0], I(k))
        l = length(s)
        if is_t(s[-1], 'unit') and sub(l, ONE) == i:
            return s[-1][2]
        if not is_t(s[2], 'unit'):
            d = sub(i, length(s[2]))
            if surely_nonneg(d):
                return index(cat(*s[3:]), d)
    if is_t(s, 'drop'):
        return index(s[2], add(s[3], i))
    if is_t(s, 'take'):
        return index(s[2], i)
    if is_t(s, 'rep'):
        return s[2]
    return ('t', 'idx', s, i)


def cp(p, q):
    if p == EMPTY or q == EMPTY:
        return ZERO
    if p == q:
        return length(p)
    a, b = sorted((p, q), key=key)
    return ('t', 'cp', a, b)


# ---- structural projection ------------------------------------------------

def project(v, p):
    k = p[0]
    if k == '*':
        return v
    if v[0] == 't' and v[1] == 'upd':
        for q, x in v[3]:
            if q == p:
                return x
        return project(v[2], p)
    if k == 'f':
        i = p[1]
        if v[0] == 'adt':
            if isinstance(v[2], str) and v[2].startswith('u:'):
                return v[3][0] if v[2] == 'u:%d' % i else ('t', 'reinterpret', v, i)
            if i < len(v[3]):
                return v[3][i]
            return ('t', 'undef')
        if v[0] == 'clo':
            return v[2][i]
        return ('t', 'fld', v, i)
    if k == 'v':
        if v[0] == 'adt':
            return v
        return ('t', 'as', v, p[1])
    if k == 'i':
        if v[0] == 'adt' and v[1] == 'array' and is_int(p[1]) and p[1][1] < len(v[3]):
            return v[3][p[1][1]]
        return index(v, p[1])
    if k == 'last':
        return index(v, sub(length(v), ONE))
    if k == 'k':
        # the child nodes a children slot holds
        while is_t(v, 'ccl'):
            v = v[2]
        return v[2] if is_t(v, 'car') else ('t', 'kids', v)
    if k == 'n':
        if is_t(v, 'node'):
            return v[2 + 'PVC'.index(p[1])]
        return ('t', 'n' + p[1], v)
    return ('t', 'proj', v, p)


def node(p, v, c):
    return ('t', 'node', p, v, c)


def nP(x):
    return project(x, ('n', 'P'))


def nV(x):
    return project(x, ('n', 'V'))


def nC(x):
    return project(x, ('n', 'C'))


def store(v, projs, val):
    if not projs:
        return val
    p, rest = projs[0], projs[1:]
    if p[0] == '*':
        return store(v, rest, val)
    if p[0] == 'v':
        if v[0] == 'adt':
            return store(v, rest, val)
    if p[0] in ('i', 'last'):
        s = as_seq(v)
        if v[0] == 'adt' and v[1] == 'array' and is_int(p[1]) and p[1][1] < len(v[3]):
            i = p[1][1]
            f = list(v[3])
            f[i] = store(f[i], rest, val)
            return ('adt', v[1], v[2], tuple(f))
        i = sub(length(s), ONE) if p[0] == 'last' else p[1]
        if is_t(s, 'cat'):
            # find the unit at that position
            parts = list(s[2:])
            pos = ZERO
            for j, q in enumerate(parts):
                if pos == i and is_t(q, 'unit'):
                    parts[j] = unit(store(q[2], rest, val))
                    return ('t', 'cat') + tuple(parts)
                pos = add(pos, ONE if is_t(q, 'unit') else length(q))
        old = index(s, i)
        new = store(old, rest, val)
        if new == old:
            return v
        return cat(take(s, i), unit(new), drop(s, add(i, ONE)))
    if p[0] == 'k':
        old = project(v, p)
        new = store(old, rest, val)
        return v if new == old else ('t', 'car', new, v[3] if is_t(v, 'car') or is_t(v, 'ccl') else v)
    if p[0] == 'n':
        new = store(project(v, p), rest, val)
        f = {'P': nP(v), 'V': nV(v), 'C': nC(v)}
        f[p[1]] = new
        if f['P'] == ('t', 'nP', v) and f['V'] == ('t', 'nV', v) and f['C'] == ('t', 'nC', v):
            return v
        return node(f['P'], f['V'], f['C'])
    if v[0] == 'adt' and p[0] == 'f':
        i = p[1]
        if isinstance(v[2], str) and v[2].startswith('u:'):
            return ('adt', v[1], 'u:%d' % i, (store(project(v, p), rest, val),))
        f = list(v[3])
        if i < len(f):
            f[i] = store(f[i], rest, val)
            return ('adt', v[1], v[2], tuple(f))
    if v[0] == 'clo' and p[0] == 'f':
        f = list(v[2])
        f[p[1]] = store(f[p[1]], rest, val)
        return ('clo', v[1], tuple(f))
    new = store(project(v, p), rest, val)
    base, d = (v[2], dict(v[3])) if is_t(v, 'upd') else (v, {})
    if project(base, p) == new:
        d.pop(p, None)
    else:
        d[p] = new
    if not d:
        return base
    return ('t', 'upd', base, tuple(sorted(d.items(), key=repr)))


def substitute(v, f):
    """rebuilds v bottom up, f maps a rebuilt node to its replacement (or None)"""
    memo = {}

    def go(v):
        r = memo.get(v)
        if r is None:
            r = memo[v] = step(v)
        return r

    def step(v):
        r = v
        if v[0] == 't':
            op = v[1]
            if op == 'lin':
                r = I(v[2])
                for k, x in v[3]:
                    r = add(r, mul(I(x), go(k)))
            elif op == 'upd':
                r = ('t', 'upd', go(v[2]), tuple((p, go(x)) for p, x in v[3]))
            else:
                r = rebuild(op, [go(a) if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in TAGS else a for a in v[2:]])
        elif v[0] == 'adt':
            r = ('adt', v[1], v[2], tuple(go(x) for x in v[3]))
        elif v[0] == 'clo':
            r = ('clo', v[1], tuple(go(x) for x in v[2]))
        q = f(r)
        return r if q is None else q

    return go(v)


TAGS = {'int', 'str', 'adt', 'clo', 'fn', 'ref', 'sym', 't'}
BUILDERS = {}


def rebuild(op, a):
    if op == 'cat':
        return cat(*a)
    if op == 'take':
        return take(*a)
    if op == 'drop':
        return drop(*a)
    if op == 'len':
        return length(*a)
    if op == 'idx':
        return index(*a)
    if op == 'cp':
        return cp(*a)
    if op == 'eq0':
        return eq0(*a)
    if op == 'lt0':
        return lt0(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'not':
        return boolnot(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'fld':
        return project(a[0], ('f', a[1]))
    if op == 'as':
        return project(a[0], ('v', a[1]))
    if op in ('nP', 'nV', 'nC'):
        return project(a[0], ('n', op[1]))
    if op in BUILDERS:
        return BUILDERS[op](*a)
    return ('t', op) + tuple(a)


def contains(v, pred):
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and x[0] in TAGS and pred(x):
            return True
        work.extend(y for y in x if isinstance(y, tuple))
    return False


def evalint(v, env):
    """value of an integer term with the atoms given in env, None when it has other atoms"""
    if v in env:
        return env[v]
    if v[0] == 'int':
        return v[1]
    if v[0] != 't':
        return None
    op = v[1]
    if op == 'lin':
        r = v[2]
        for k, x in v[3]:
            y = evalint(k, env)
            if y is None:
                return None
            r += x * y
        return r
    if op == 'discr' and v[2][0] == 't' and v[2][1] == 'cmp':
        a = [evalint(x, env) for x in v[2][2:4]]
        return None if None in a else (a[0] > a[1]) - (a[0] < a[1])
    a = [evalint(x, env) for x in v[2:] if isinstance(x, tuple)]
    if any(x is None for x in a):
        return None
    if op == 'eq0':
        return int(a[0] == 0)
    if op == 'lt0':
        return int(a[0] < 0)
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'not':
        return int(not a[0])
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'shl':
        return a[0] << a[1]
    if op == 'shr':
        return a[0] >> a[1]
    if op == 'mod':
        return a[0] % a[1] if a[1] else None
    if op == 'div':
        return a[0] // a[1] if a[1] else None
    if op == 'mul':
        return a[0] * a[1]
    if op == 'min':
        return min(a)
    if op == 'cast':
        return a[0] & ((1 << v[3]) - 1)
    if op == 'signed':
        x = a[0] & ((1 << v[3]) - 1)
        return x - (1 << v[3]) if x >> (v[3] - 1) else x
    return None


_short = {}


def show(v, depth=0):
    """readable rendering"""
    k = v[0]
    if depth > 14:
        return '..'
    s = lambda x: show(x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS else str(x)
    if k == 'int':
        return str(v[1])
    if k == 'str':
        return repr(v[1])
    if k == 'sym':
        return v[1]
    if k == 'ref':
        return '&%s%s' % (v[1], list(v[2]))
    if k == 'fn':
        return 'fn:' + v[2]
    if k == 'clo':
        return '|%s|(%s)' % (v[1].split('::')[-2] if '::' in v[1] else v[1], ', '.join(s(x) for x in v[2]))
    if k == 'adt':
        if v[1] == OPTION:
            return 'None' if v[2] == 0 else 'Some(%s)' % s(v[3][0])
        if v[1] == RESULT:
            return '%s(%s)' % ('Ok' if v[2] == 0 else 'Err', s(v[3][0]))
        if v[1] == ORDERING:
            return ('Less', 'Equal', 'Greater')[v[2]]
        if v[1] == 'tuple':
            return '(%s)' % ', '.join(s(x) for x in v[3])
        if v[1] == 'array':
            return '[%s]' % ', '.join(s(x) for x in v[3])
        return '%s#%s{%s}' % (v[1].split('::')[-1], v[2], ', '.join(s(x) for x in v[3]))
    op = v[1]
    if op == 'lin':
        r = []
        for t, c in v[3]:
            r.append(('%s' if c == 1 else '-%s' if c == -1 else '%d*%%s' % c) % s(t))
        if v[2]:
            r.append(str(v[2]))
        return '(' + ' + '.join(r).replace('+ -', '- ') + ')'
    if op == 'cat':
        return '[' + ' ++ '.join(s(x) for x in v[2:]) + ']'
    if op == 'unit':
        return s(v[2])
    if op == 'eq0':
        return '%s==0' % s(v[2])
    if op == 'lt0':
        return '%s<0' % s(v[2])
    if op == 'not':
        return '!' + s(v[2])
    if op == 'upd':
        return '%s{%s}' % (s(v[2]), ', '.join('%s:=%s' % (p, s(x)) for p, x in v[3]))
    return '%s(%s)' % (op, ', '.join(s(x) for x in v[2:]))
