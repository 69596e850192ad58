"""The layer below the node contracts: headers, tagged slots and stored bytes.

A header byte is known by two numbers, isid (its high bit) and hlen (its low seven bits). A slot (prefix, value or
children) holds one of
  u0                  nothing (the EMPTY constants)
  cob(bytes, r)       bytes that were copied into it
  cid(bytes, r)       the id of a block of children
  car(nodes, r)       child nodes in memory
  ccl(slot, r)        another owner of what slot holds
  fld(X, i)           what field i of an unknown node X holds, described by the header next to it
r names the allocation. Every use of a slot with a header that does not describe it is an event ('tag', ...).
The models below are checked against the bodies of the methods of Header, CompactOwnedBlob and ChildrenRef by
rules/layer0.py.
"""
import nodemodels as nm
from absint import Engine, State, Out, Call, discr
from stdmodels import M as STD, fork_bool, fork_enum, panic, slice_index
from terms import *

R = dict(STD)
PTR = 8
NODE_SLOTS = {'prefix': 'prefix_hdr', 'value': 'value_hdr', 'children': 'children_hdr'}
PART = {'prefix': 'P', 'value': 'V', 'children': 'C'}


def model(*names):
    def deco(f):
        for n in names:
            R[n] = f
        return f
    return deco


# ---- headers ----------------------------------------------------------------------

def hb(k, n):
    if is_int(n):
        return I(n[1] & 127 | k << 7 if k else min(n[1], 127))
    return ('t', 'hb', I(k), n)


def byte_of(st, v):
    return project(st.deref(v), ('f', 0))


def isid(b):
    if is_int(b):
        return I(b[1] >> 7 & 1)
    if is_t(b, 'hb'):
        return b[2]
    return ('t', 'isid', b)


def hlen(st, b):
    """the low bits, without a fork"""
    if is_int(b):
        return I(b[1] & 127)
    if is_t(b, 'hb'):
        n = b[3]
        if b[2] == ONE:
            return n
        d = st.decide(lt(n, I(128)))
        return n if d == 1 else I(127) if d == 0 else ('t', 'hlen', b)
    return ('t', 'hlen', b)


def fork_hlen(st, b):
    if is_t(b, 'hb') and b[2] == ZERO:
        return [(s, b[3] if c else I(127)) for s, c in fork_bool(st, lt(b[3], I(128)))]
    return [(st, hlen(st, b))]


def hdr(eng, b):
    return ('adt', eng.header_id, 0, (b,))


@model('Header::id')
def _(eng, st, v, call):
    n = st.deref(v[0])
    r = []
    for s, c in fork_bool(st, lt(n, I(128))):
        if not c:
            r.append(panic(s, 'assert', call))
        elif is_t(n, 'hlen') and s.decide(isid(n[2])) == 1:
            r.append((s, hdr(eng, n[2])))
        else:
            r.append((s, hdr(eng, hb(1, n))))
    return r


@model('Header::data')
def _(eng, st, v, call):
    return hdr(eng, hb(0, st.deref(v[0])))


@model('Header::from', 'Header::into')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] == 'adt' and x[1] == eng.header_id:
        return x[3][0]
    return hdr(eng, x)


@model('Into::into', 'From::from')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if call is not None and call.ty is not None:
        t = eng.prog.tys_s(call.ty)
        if t.endswith('Header') and not (x[0] == 'adt' and x[1] == eng.header_id):
            return hdr(eng, x)
        if t == 'u8' and (x[0] == 'adt' and x[1] == eng.header_id):
            return x[3][0]
        ts = (call.info.get('res') or call.info).get('targs') or call.info.get('targs') or []
        if t == 'u8' and any(eng.prog.tys_s(a).endswith('Header') for a in ts):
            return project(x, ('f', 0))
    return STD['Into::into'](eng, st, v, call)


def rev(eng, st, v, call):
    x = st.pure(v[0])
    return x[2] if is_t(x, 'rev') else ('t', 'rev', x)


R['Iterator::rev'] = rev


def skip(eng, st, v, call):
    x, n = as_seq(st.pure(v[0])), v[1]
    return [(s, EMPTY if c else drop(x, n)) for s, c in fork_bool(st, lt(length(x), n))]


R['Iterator::skip'] = skip
R['usize::max_value'] = lambda eng, st, v, call: I(2 ** 64 - 1)


@model('Header::is_id')
def _(eng, st, v, call):
    return isid(byte_of(st, v[0]))


@model('Header::is_data')
def _(eng, st, v, call):
    return boolnot(isid(byte_of(st, v[0])))


@model('Header::is_none')
def _(eng, st, v, call):
    return is_none(st, byte_of(st, v[0]))


def is_none(st, b):
    r = []
    for s, k in fork_bool(st, isid(b)):
        if not k:
            r.append((s, ZERO))
        else:
            r += [(s2, I(e)) for s2, e in fork_bool(s, eq0(hlen(s, b)))]
    return r


@model('Header::is_inline')
def _(eng, st, v, call):
    return [(s, boolnot(lt(I(PTR), n))) for s, n in fork_hlen(st, byte_of(st, v[0]))]


@model('Header::is_arc')
def _(eng, st, v, call):
    return [(s, lt(I(PTR), n)) for s, n in fork_hlen(st, byte_of(st, v[0]))]


@model('Header::len', 'Header::len_u8')
def _(eng, st, v, call):
    return fork_hlen(st, byte_of(st, v[0]))


def hdr_eq(st, a, b):
    if a == b:
        return [(st, 1)]
    for x, y in ((a, b), (b, a)):
        if is_int(x):
            r = []
            for s, k in fork_bool(st, isid(y)):
                if k != x[1] >> 7:
                    r.append((s, 0))
                    continue
                for s2, n in fork_hlen(s, y):
                    r += fork_bool(s2, eq(n, I(x[1] & 127)))
            return r
    return fork_bool(st, eq(a, b))


def header_cmp(neg_, fallback):
    def g(eng, st, v, call):
        x, y = st.deref(v[0]), st.deref(v[1])
        hs = [z for z in (x, y) if z[0] == 'adt' and z[1] == eng.header_id]
        if not hs:
            return STD[fallback](eng, st, v, call) if fallback else None
        a, b = project(x, ('f', 0)), project(y, ('f', 0))
        return [(s, I(e ^ neg_)) for s, e in hdr_eq(st, a, b)]
    return g


R['Header::eq'] = header_cmp(0, None)
R['Header::ne'] = header_cmp(1, None)
R['PartialEq::eq'] = header_cmp(0, 'PartialEq::eq')
R['PartialEq::ne'] = header_cmp(1, 'PartialEq::ne')


# ---- slots --------------------------------------------------------------------------

U0 = ('t', 'u0')
DEAD = ('t', 'dead')
R['const:CompactOwnedBlob::EMPTY'] = U0
R['const:ChildrenRef::EMPTY'] = U0


def base(u):
    while is_t(u, 'ccl'):
        u = u[2]
    return u


def rid(u):
    """the allocation of a slot"""
    if u[0] == 't' and u[1] in ('cob', 'cid', 'car', 'ccl'):
        return u[3]
    return u


def own_header(eng, u):
    """header byte next to slot u of an unknown node"""
    if is_t(u, 'fld'):
        x, i = u[2], u[3]
        m = eng.slots_of(x)
        if m and i in m:
            return project(project(x, ('f', m[i][0])), ('f', 0))
    return None


def chunk_of(b, ptr):
    """the bytes behind a stored header"""
    return drop(('t', 'chunk', ptr, add(('t', 'hlen', b), ONE)), ONE)


def describes(eng, st, u, b, children=False):
    """does header byte b describe what slot u holds: 'ok', 'bad' or 'unknown'"""
    u = base(u)
    k, n = st.decide(isid(b)), hlen(st, b)
    if u == DEAD:
        return 'bad'
    if u == U0:
        if st.decide(eq0(n)) == 1:
            return 'ok' if not children or k == 1 else 'bad' if k == 0 else 'unknown'
        return 'bad'
    if u[0] == 't' and u[1] in ('cob', 'cid'):
        l = length(u[2])
        if u[1] == 'cid' and k != 1:
            return 'bad'
        if is_t(b, 'hb'):
            return 'ok' if st.decide(eq(b[3], l)) == 1 else 'bad'
        if is_int(b):
            if k == 1 or b[1] < 127:
                return 'ok' if st.decide(eq(n, l)) == 1 else 'bad'
            return 'ok' if st.decide(lt(l, I(127))) == 0 else 'bad'
        # a header taken over together with its bytes
        if is_t(u[2], 'dab') and u[2][3] == b or is_t(u[2], 'idb') and u[2][3] == b:
            return 'ok'
        if st.decide(eq(n, l)) == 1:
            return 'ok'
        return 'bad'
    if is_t(u, 'car'):
        if own_header(eng, u[3]) == b:
            return 'ok'         # child nodes that were changed in place
        if k == 0 and st.decide(lt(I(PTR), n)) == 1:
            return 'ok'
        return 'bad'
    own = own_header(eng, u)
    if own is None:
        return 'unknown'
    if own == b:
        return 'ok'
    k2, n2 = st.decide(isid(own)), hlen(st, own)
    if k is not None and k == k2 and st.decide(eq(n, n2)) == 1:
        return 'ok'
    return 'bad'


def check_tag(eng, st, u, b, what, children=False):
    st.event('tag', describes(eng, st, u, b, children), what, u, b)


def slot_bytes(st, u, b):
    """[(state, bytes)] shown by a slot that b describes"""
    u = base(u)
    if u == U0:
        return [(st, EMPTY)]
    if u[0] == 't' and u[1] in ('cob', 'cid'):
        return [(st, u[2])]
    if is_t(u, 'fld'):
        return [(s, ('t', 'idb' if k else 'dab', u, b)) for s, k in fork_bool(st, isid(b))]
    return [(st, ('t', 'opaque', ('str', 'slot'), u))]


def copied(op):
    def g(eng, st, v, call):
        x = as_seq(st.pure(v[0]))
        r = ('t', op, x, ('sym', eng.new('alloc')))
        st.event('new', r)
        return r
    return g


R['CompactOwnedBlob::copy_from_slice'] = copied('cob')
R['ChildrenRef::id_from_slice'] = copied('cid')
R['ChildrenRef::data_from_arc'] = copied('car')


@model('CompactOwnedBlob::slice')
def _(eng, st, v, call):
    u, b = st.deref(v[0]), byte_of(st, v[1])
    check_tag(eng, st, u, b, 'read')
    return slot_bytes(st, u, b)


@model('CompactOwnedBlob::ref_count', 'ChildrenRef::ref_count')
def _(eng, st, v, call):
    u, b = st.deref(v[0]), byte_of(st, v[1])
    check_tag(eng, st, u, b, 'read', 'Children' in call.key)
    return ('t', 'opaque', ('str', 'refcount'), u)


@model('CompactOwnedBlob::manual_clone', 'ChildrenRef::manual_clone')
def _(eng, st, v, call):
    u, b = st.deref(v[0]), byte_of(st, v[1])
    check_tag(eng, st, u, b, 'cloned', 'Children' in call.key)
    if u == U0:
        return u
    r = ('t', 'ccl', base(u), ('sym', eng.new('alloc')))
    st.event('new', r)
    return r


@model('CompactOwnedBlob::manual_drop', 'ChildrenRef::manual_drop')
def _(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    u, b = st.deref(v[0]), byte_of(st, v[1])
    check_tag(eng, st, u, b, 'released', 'Children' in call.key)
    st.event('release', rid(u), u)
    st.write(v[0][1:], DEAD)
    return UNIT


@model('ChildrenRef::deref', 'ChildrenRef::deref_mut')
def _(eng, st, v, call):
    u, b = st.deref(v[0]), byte_of(st, v[1])
    check_tag(eng, st, u, b, 'read', True)
    r = []
    for s, k in fork_bool(st, isid(b)):
        if k:
            r += [(s2, err(x)) for s2, x in slot_bytes(s, u, b)]
        elif call.key.endswith('mut') and v[0][0] == 'ref':
            r.append((s, ok(('ref', v[0][1], v[0][2] + (('k',),)))))
        else:
            r.append((s, ok(project(u, ('k',)))))
    return r


@model('slice::from_raw_parts')
def _(eng, st, v, call):
    p, n = st.pure(v[0]), v[1]
    if is_t(p, 'idx'):
        st.event('bytes', p[2], p[3], n, st.decide(lt(length(p[2]), add(p[3], n))))
        return take(drop(p[2], p[3]), n)
    if is_t(p, 'fld'):
        return ('t', 'chunk', p, n)
    return None


# ---- the store ------------------------------------------------------------------------

def stored(x):
    return x[2] if is_t(x, 'wid') else ('t', 'stored', x)


BUILDERS['stored'] = stored
R['BlobStore::read'] = lambda eng, st, v, call: nm.fallible(eng, st, call, 'read', [as_seq(st.pure(v[1]))], stored(as_seq(st.pure(v[1]))))


@model('BlobStore::write')
def _(eng, st, v, call):
    x = as_seq(st.pure(v[1]))
    return nm.fallible(eng, st, call, 'write', [x], ('t', 'wid', x))


# ---- blocks of child nodes ----------------------------------------------------------------

def block(x):
    return EMPTY if x == EMPTY else ('t', 'block', x)


def bn(x):
    """the stored node at the start of x"""
    return ('t', 'bn', x)


def blen(x):
    return ('t', 'blen', x)


BUILDERS['block'] = block


@model('TreeNodeIter::load')
def _(eng, st, v, call):
    x = as_seq(st.pure(v[0]))
    r = []
    for s, e in fork_bool(st, eq0(length(x))):
        if e:
            r.append((s, ok(NONE)))
            continue
        for s2, val in nm.fallible(eng, s, call, 'load', [x], some(block(stored(drop(x, ONE))))):
            if val[2] == 0:
                s2.assume(eq0(length(val[3][0][3][0])), 0)
            r.append((s2, val))
    return r


for n in list(nm.M):
    if n.startswith('TreeNodeIter::') and n not in R or n.split('::')[0] == 'Blob' or n in ('callback', 'indirect', 'common_prefix'):
        R[n] = nm.M[n]


# ---- nodes inside blocks and arrays are known by the contracts -------------------------------

def wrapped(name):
    m = nm.M[name]

    def g(eng, st, v, call):
        x = st.pure(v[0])
        if not opaque_node(x):
            return None
        return m(eng, st, v, call)
    return g


def opaque_node(x):
    return x[0] == 't' and x[1] in ('idx', 'bn') or x[0] == 'sym'


def det(x):
    return ('t', 'det', x)


def child_detached(eng, st, v, call):
    x = st.pure(v[0])
    if not opaque_node(x):
        return None
    return nm.fallible(eng, st, call, 'detach', [x, v[1]], det(x))


for n in ('TreeNodeRef::load_prefix', 'TreeNodeRef::load_children', 'TreeNodeRef::load_children_owned', 'TreeNodeRef::value_opt', 'TreeNodeRef::to_owned',
          'TreeNodeRef::clone_shortened', 'TreeNodeRef::clone'):
    R[n] = wrapped(n)
R['TreeNodeRef::detached'] = child_detached
R['BorrowedTreeNode::detached'] = child_detached
R['BorrowedTreeNode::to_owned'] = lambda eng, st, v, call: st.pure(v[0]) if opaque_node(st.pure(v[0])) and st.pure(v[0])[0] == 't' else None


def iter_detached(eng, st, v, call):
    s0 = as_seq(st.pure(v[0]))
    r = []
    for s, val in nm.fallible(eng, st, call, 'detach_all', [s0, v[1]], UNIT):
        if val[2] == 1:
            r.append((s, val))
        else:
            r += [(s2, ok(NONE if e else some(('t', 'detall', s0)))) for s2, e in nm.fork_empty(s, s0)]
    return r


R['TreeNodeIter::detached'] = iter_detached


def undet(v):
    def f(x):
        if is_t(x, 'det') or is_t(x, 'detall'):
            return x[2]
        return None
    return substitute(v, f)


def pop(eng, st, v, call):
    a = v[0][1:]
    last = sub(length(as_seq(st.pure(v[0]))), ONE)
    r = STD['Vec::pop'](eng, st, v, call)
    if r and last != ZERO and not is_int(last):
        # the last of one is the first
        r2 = []
        for s, val in r:
            if s.decide(eq0(last)) == 1:
                f = lambda x: ZERO if x == last else None
                s.write(a, substitute(s.read(a), f))
                val = substitute(val, f)
            r2.append((s, val))
        r = r2
    for s, val in r or []:
        if val[0] == 'adt' and val[2] == 1 and is_t(val[3][0], 'idx'):
            s.event('moved', val[3][0])
    return r


R['Vec::pop'] = pop


def remove(name):
    def f(eng, st, v, call):
        if v[0][0] != 'ref':
            return None
        one = eq0(sub(length(as_seq(st.pure(v[0]))), ONE))
        r = STD[name](eng, st, v, call)
        for s, val in r or []:
            if is_t(val, 'idx'):
                s.event('moved', val)
                if s.decide(one) == 1:
                    s.write(v[0][1:], EMPTY)
        return r
    R[name] = f


remove('Vec::remove')
remove('Vec::swap_remove')


# ---- the engine ----------------------------------------------------------------------------------

class Raw(Engine):
    def __init__(self, ctx, models=None, **k):
        super().__init__(ctx.prog, models or R, max_steps=ctx.big, **k)
        self.ctx = ctx
        self.header_id = ctx.adt('Header')['id']
        f = ctx.fields('TreeNode')
        self.node_id = ctx.adt('TreeNode')['id']
        self.node_slots = {f.index(s): (f.index(h), PART[s]) for s, h in NODE_SLOTS.items()}
        f = ctx.fields('BorrowedTreeNode')
        self.borrowed_id = ctx.adt('BorrowedTreeNode')['id']
        self.borrowed_slots = {f.index(s): (f.index(h), PART[s]) for s, h in NODE_SLOTS.items()}
        f = ctx.fields('Value')
        self.value_id = ctx.adt('Value')['id']
        self.value_slots = {f.index('data'): (f.index('hdr'), 'V')}
        f = ctx.fields('OwnedBlobRef')
        self.oref_id = ctx.adt('OwnedBlobRef')['id']
        self.oref_slots = {f.index('data'): (f.index('hdr'), 'V')}
        f = ctx.fields('BorrowedBlobRef')
        self.bref_id = ctx.adt('BorrowedBlobRef')['id']
        self.bref_slots = {f.index('data'): (f.index('hdr'), 'V')}
        self.kinds = {}
        self.on_recursion = recursion
        self.sink = ctx.loop_seen

    def kind(self, x):
        """'T' node, 'B' stored node, 'V' value, 'O' slot reference, 'S' stored reference"""
        k = self.kinds.get(x)
        if k:
            return k
        if is_t(x, 'bn') or is_t(x, 'idx') and is_t(x[2], 'block'):
            return 'B'
        if is_t(x, 'idx'):
            y = x[2]
            while y[0] == 't' and y[1] in ('take', 'drop'):
                y = y[2]
            return 'T' if is_t(y, 'kids') else 'B' if is_t(y, 'block') else self.kinds.get(y)
        return None

    def slots_of(self, x):
        return {'T': self.node_slots, 'V': self.value_slots, 'O': self.oref_slots}.get(self.kind(x))

    def ptrs_of(self, x):
        return {'B': self.borrowed_slots, 'S': self.bref_slots}.get(self.kind(x))

    def adt_slots(self, v):
        """slots of a value whose type shows"""
        if v[0] == 'adt':
            return {self.node_id: self.node_slots, self.value_id: self.value_slots}.get(v[1])
        x = v[2] if is_t(v, 'upd') else v
        if self.kind(x) in ('T', 'V'):
            return self.slots_of(x)
        return None

    def input(self, name, kind):
        """an unknown value with its fields spelled out"""
        x = ('sym', name)
        self.kinds[x] = kind
        adt, n = {'T': (self.node_id, 'TreeNode'), 'B': (self.borrowed_id, 'BorrowedTreeNode'), 'V': (self.value_id, 'Value'),
                  'O': (self.oref_id, 'OwnedBlobRef'), 'S': (self.bref_id, 'BorrowedBlobRef')}[kind]
        return ('adt', adt, 0, tuple(project(x, ('f', i)) for i in range(len(self.ctx.fields(n)))))

    # ---- dropped locals ----
    def drop(self, st, fr, term):
        a = self.addr(st, fr, term[1])
        ty = self.prog.ty(self.place_ty(fr, term[1]))
        m = self.models.get('drop:' + ty['id'].split('::')[-1]) if ty['k'] == 'adt' else None
        if m:
            return m(self, st, a, st.read(a))
        self.release(st, st.read(a), ty['s'])
        return None

    def release(self, st, v, ty=''):
        if v[0] == 'ref':
            return
        m = self.adt_slots(v)
        name = ty.split('<')[0].split('::')[-1]
        if m is None and name in ('TreeNode', 'Value') and v[0] in ('t', 'sym') and v not in (DEAD, ('t', 'undef')) and v[0] != 'adt':
            st.event('maybe', v)
            return
        if m is not None:
            for i, (h, part) in sorted(m.items()):
                u, b = project(v, ('f', i)), project(project(v, ('f', h)), ('f', 0))
                check_tag(self, st, u, b, 'released', part == 'C')
                st.event('release', rid(u), u)
            return
        if name == 'Arc':
            st.event('maybe', v)
            return
        if v[0] == 'adt':
            for x in v[3]:
                self.release(st, x)
        elif is_t(v, 'cat'):
            for x in v[2:]:
                if is_t(x, 'unit'):
                    self.release(st, x[2])


def recursion(eng, st, body, vals, call):
    k = eng.body_key(body)
    if k == 'TreeNode::serialize' and len(vals) == 3 and vals[1][0] == 'ref':
        x = st.pure(vals[0])
        r = nm.fallible(eng, st, call, 'serialize', [x], UNIT)
        s = r[0][0]
        a = vals[1][1:]
        s.write(a, cat(s.read(a), ('t', 'ser', x)))
        return r
    if k == 'TreeNode::detached':
        x = st.pure(vals[0])
        return nm.fallible(eng, st, call, 'detach', [x, vals[1]], det(x))
    return nm.on_recursion(eng, st, body, vals, call)


# ---- what a state stands for -----------------------------------------------------------------------

class Alpha:
    """asks: what the state would have to decide to tell"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.asks = []

    def ask(self, fact, same, otherwise):
        if same is not None:
            return same
        self.asks.append(fact)
        return otherwise

    def header(self, v, h):
        return project(project(v, ('f', h)), ('f', 0))

    def stored_bytes(self, b, ptr):
        """the bytes behind a stored header: in a known buffer, or of an unknown node"""
        n = hlen(self.st, b)
        if is_t(ptr, 'idx'):
            return take(drop(ptr[2], add(ptr[3], ONE)), n)
        return chunk_of(b, ptr)

    def from_bytes(self, K, b, bytes_, kids=None, same=None):
        """the part with header b: bytes_ are the data or the id"""
        st = self.st
        k = st.decide(isid(b))
        if k is None:
            return self.ask(isid(b), same, ('t', 'opaque', ('str', 'header'), b))
        if k == 0:
            return {'P': bytes_, 'V': some(bytes_), 'C': kids if kids is not None else ('t', 'opaque', ('str', 'children data'))}[K]
        if K == 'P':
            return stored(drop(bytes_, ONE))
        e = st.decide(eq0(hlen(st, b)))
        if e is None:
            e = st.decide(eq0(length(bytes_)))
        if e is None:
            return self.ask(eq0(length(bytes_)), same, ('t', 'opaque', ('str', 'none or id'), b))
        if e:
            return NONE if K == 'V' else EMPTY
        return some(stored(bytes_)) if K == 'V' else block(stored(drop(bytes_, ONE)))

    def slot(self, K, b, u):
        u = base(u)
        eng, st = self.eng, self.st
        if is_t(u, 'fld'):
            own = own_header(eng, u)
            if own is None:
                return ('t', 'opaque', ('str', 'slot'), u)
            part = eng.slots_of(u[2])[u[3]][1]
            same = self.symbol(part, u[2]) if part == K else None
            k = st.decide(isid(own))
            bytes_ = ('t', 'idb' if k else 'dab', u, own)
            return self.from_bytes(K, own, bytes_, project(u, ('k',)), same)
        if is_t(u, 'car'):
            return u[2] if K == 'C' else ('t', 'opaque', ('str', 'slot'), u)
        bytes_ = EMPTY if u == U0 else u[2] if u[0] == 't' and u[1] in ('cob', 'cid') else ('t', 'opaque', ('str', 'slot'), u)
        # bytes copied from a stored node, or from another slot, with their header
        same = None
        for x in (bytes_,):
            if is_t(x, 'drop') and is_t(x[2], 'chunk') and x[3] == ONE and is_t(x[2][2], 'fld'):
                f = x[2][2]
                m = eng.ptrs_of(f[2])
                if m and f[3] in m and m[f[3]][1] == K and self.header(f[2], m[f[3]][0]) == b:
                    same = self.symbol(K, f[2])
        return self.from_bytes(K, b, bytes_, None, same)

    def symbol(self, K, x):
        if self.eng.kind(x) in ('T', 'B'):
            return project(x, ('n', K))
        return x

    def part(self, K, x):
        """part K of the unknown node x, as far as the path has looked at it"""
        eng = self.eng
        m = eng.slots_of(x)
        if m:
            i, (h, _) = next((i, p) for i, p in m.items() if p[1] == K)
            return self.slot(K, self.header(x, h), project(x, ('f', i)))
        m = eng.ptrs_of(x)
        if m:
            i, (h, _) = next((i, p) for i, p in m.items() if p[1] == K)
            b = self.header(x, h)
            return self.from_bytes(K, b, chunk_of(b, project(x, ('f', i))), None, self.symbol(K, x))
        return project(x, ('n', K))

    def open(self, x):
        return node(self.part('P', x), self.part('V', x), self.part('C', x))

    def value(self, v):
        """what a returned or stored value stands for"""
        eng = self.eng
        v = self.st.deref(v)
        if v[0] == 'adt':
            if v[1] == eng.node_id:
                return self.node(v, eng.node_slots)
            if v[1] == eng.borrowed_id:
                return self.borrowed(v)
            if v[1] in (eng.value_id, eng.oref_id):
                m = eng.value_slots if v[1] == eng.value_id else eng.oref_slots
                (i, (h, _)), = m.items()
                return self.slot('V', self.header(v, h), project(v, ('f', i)))
            if v[1] == eng.bref_id:
                (i, (h, _)), = eng.bref_slots.items()
                b, p = self.header(v, h), project(v, ('f', i))
                x = p[2] if is_t(p, 'fld') else None
                same = None
                if x is not None and eng.ptrs_of(x) and self.header(x, eng.ptrs_of(x)[p[3]][0]) == b:
                    same = self.symbol(eng.ptrs_of(x)[p[3]][1], x)
                return self.from_bytes('V', b, self.stored_bytes(b, p), None, same)
            n = v[1].split('::')[-1]
            if n in ('ValueRef', 'OwnedValueRef', 'TreeNodeRef'):
                x = v[3][0]
                if x[0] == 'adt' and x[1] == RESULT:
                    x = x[3][0]
                return self.value(x)
            return ('adt', v[1], v[2], tuple(self.value(x) for x in v[3]))
        if is_t(v, 'upd'):
            x = v[2]
            if eng.kind(x) == 'T':
                return self.node(v, eng.node_slots)
            if eng.kind(x) == 'V':
                (i, (h, _)), = eng.value_slots.items()
                return self.slot('V', self.header(v, h), project(v, ('f', i)))
        if eng.kind(v) in ('T', 'B') and v[0] == 'sym':
            return self.open(v)
        if eng.kind(v) == 'V':
            return self.part('V', v)
        if is_t(v, 'cat'):
            return cat(*[unit(self.value(x[2])) if is_t(x, 'unit') else self.value(x) for x in v[2:]])
        return v

    def node(self, v, slots):
        d = {}
        for i, (h, K) in slots.items():
            d[K] = self.value_of_children(self.slot(K, self.header(v, h), project(v, ('f', i)))) if K == 'C' else \
                self.slot(K, self.header(v, h), project(v, ('f', i)))
        return node(d['P'], d['V'], d['C'])

    def value_of_children(self, c):
        return self.value(c) if is_t(c, 'cat') else c

    def borrowed(self, v):
        d = {}
        for i, (h, K) in self.eng.borrowed_slots.items():
            b, p = self.header(v, h), project(v, ('f', i))
            same = None
            if is_t(p, 'fld') and self.eng.ptrs_of(p[2]) and self.header(p[2], self.eng.ptrs_of(p[2])[p[3]][0]) == b:
                same = self.symbol(K, p[2])
            d[K] = self.from_bytes(K, b, self.stored_bytes(b, p), None, same)
        return node(d['P'], d['V'], d['C'])

    def expand(self, v):
        """nP(x), nV(x), nC(x) of nodes the path has looked into"""
        def f(t):
            if t[0] == 't' and t[1] in ('nP', 'nV', 'nC') and len(t) == 3 and self.eng.kind(t[2]) in ('T', 'B'):
                r = self.part(t[1][1], t[2])
                return None if r == t else r
            return None
        return substitute(v, f)
