"""Contracts of the node layer: what the algorithms above it may rely on.

A node is node(P, V, C): the bytes of its path, its value (an Option) and the sequence of its
children. Whether a part is in memory or still in the store is not visible here, except that
getting it can fail. The contracts are checked against the bodies of the functions by
rules/layer1.py.
"""
import stdmodels
from stdmodels import M as STD, fork_bool, fork_enum, panic
from terms import *
from absint import discr, Out

M = dict(STD)


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def infallible(eng, call):
    t = eng.prog.tys_s(call.ty) if call is not None and call.ty is not None else ''
    return 'NoError' in t or 'Detached as ' in t


def fallible(eng, st, call, what, args, okval):
    """[(state, Ok(okval)), (state, Err(..))] for an operation that can fail"""
    args = tuple(st.pure(a) for a in args)
    if infallible(eng, call):
        st.event('op', what, args)
        return [(st, ok(okval))]
    s2 = st.copy()
    e = ('t', 'errof', ('str', what), I(len(st.events))) + args
    s2.event('err', what, args, e)
    st.event('op', what, args)
    return [(st, ok(okval)), (s2, err(e))]


def node_of(st, v):
    return st.pure(v)


def fork_empty(st, s):
    """[(state, True/False)] on the sequence being empty"""
    return fork_bool(st, eq0(length(s)))


# ---- reading parts of a node ----------------------------------------------------

@model('TreeNode::load_prefix', 'TreeNodeRef::load_prefix', 'BorrowedTreeNode::load_prefix')
def load_prefix(eng, st, v, call):
    x = node_of(st, v[0])
    return fallible(eng, st, call, 'load_prefix', [x, v[1]], nP(x))


@model('TreeNode::load_children', 'TreeNodeRef::load_children', 'BorrowedTreeNode::load_children',
       'TreeNode::load_children_owned', 'TreeNodeRef::load_children_owned')
def load_children(eng, st, v, call):
    x = node_of(st, v[0])
    r = []
    for s, val in fallible(eng, st, call, 'load_children', [x, v[1]], nC(x)):
        if val[2] == 1:
            r.append((s, val))
            continue
        c = val[3][0]
        for s2, e in fork_empty(s, c):
            r.append((s2, ok(NONE if e else some(c))))
    return r


@model('TreeNode::load_children_mut')
def load_children_mut(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = node_of(st, v[0])
    return fallible(eng, st, call, 'load_children', [x, v[1]], ('ref', v[0][1], v[0][2] + (('n', 'C'),)))


@model('TreeNode::load_value')
def load_value(eng, st, v, call):
    x = node_of(st, v[0])
    return fallible(eng, st, call, 'load_value', [x, v[1]], nV(x))


@model('TreeNodeRef::value_opt', 'BorrowedTreeNode::value_ref_opt')
def value_opt(eng, st, v, call):
    x = node_of(st, v[0])
    return [(s, some(nV(x)) if i else NONE) for s, i, _ in fork_enum(eng, st, nV(x))]


@model('TreeNode::value_opt')
def owned_value_opt(eng, st, v, call):
    x = node_of(st, v[0])
    return [(s, some(('adt', 'OwnedValueRef', 0, (nV(x), UNIT))) if i else NONE) for s, i, _ in fork_enum(eng, st, nV(x))]


@model('TreeNode::value_ref', 'BorrowedTreeNode::value_ref')
def value_ref(eng, st, v, call):
    return nV(node_of(st, v[0]))


@model('TreeNode::has_value')
def has_value(eng, st, v, call):
    x = node_of(st, v[0])
    while is_t(x, 'canon'):
        x = x[2]
    return [(s, I(i)) for s, i, _ in fork_enum(eng, st, nV(x))]


@model('TreeNode::is_leaf')
def is_leaf(eng, st, v, call):
    x = node_of(st, v[0])
    return [(s, I(e)) for s, e in fork_empty(st, nC(x))]


@model('TreeNode::is_empty')
def is_empty(eng, st, v, call):
    x = node_of(st, v[0])
    while is_t(x, 'canon'):
        x = x[2]
    r = []
    for s, i, _ in fork_enum(eng, st, nV(x)):
        if i:
            r.append((s, ZERO))
        else:
            r += [(s2, I(e)) for s2, e in fork_empty(s, nC(x))]
    return r


@model('TreeNode::child_count')
def child_count(eng, st, v, call):
    return length(nC(node_of(st, v[0])))


@model('TreeNode::first_prefix_byte', 'BorrowedTreeNode::first_prefix_byte')
def first_prefix_byte(eng, st, v, call):
    return fpb(nP(node_of(st, v[0])))


def fpb(p):
    return ('t', 'fpb', p)


BUILDERS['fpb'] = fpb


@model('TreeNode::get_children')
def get_children(eng, st, v, call):
    x = node_of(st, v[0])
    if is_t(x, 'node'):
        return ok(x[4])
    t = ('t', 'loaded', x)
    return [(s, ok(nC(x)) if l else err(('t', 'rawid', x))) for s, l in fork_bool(st, t)]


# ---- the raw parts of a node: data or an id -----------------------------------------------------------

@model('TreeNodeRef::dispatch')
def dispatch(eng, st, v, call):
    x = node_of(st, v[0])
    if is_t(x, 'node'):
        return ok(x)
    return [(s, ok(x) if o else err(x)) for s, o in fork_bool(st, ('t', 'ownednode', x))]


@model('TreeNode::prefix_ref', 'BorrowedTreeNode::prefix_ref')
def prefix_ref(eng, st, v, call):
    return ('t', 'rawpart', ('str', 'P'), node_of(st, v[0]))


@model('BorrowedTreeNode::children_ref')
def children_ref(eng, st, v, call):
    return ('t', 'rawpart', ('str', 'C'), node_of(st, v[0]))


def raw_of(st, v):
    """(part, node) of a raw part"""
    x = unwrap_ovr(st.pure(v))
    if is_t(x, 'rawpart'):
        return x[2][1], x[3]
    if is_t(x, 'nV'):
        return 'V', x[2]
    return None


def in_mem(eng, st, K, x):
    """[(state, 0/1)]: is the part K of x data"""
    if is_t(x, 'node') and K != 'C':
        return [(st, True)]
    r = []
    for s, o in fork_bool(st, ('t', 'inmem', ('str', K), x)):
        if o or K == 'P' or s.decide(discr(nV(x)) if K == 'V' else eq0(length(nC(x)))) != (0 if K == 'V' else 1):
            r.append((s, o))
    return r


@model('OwnedBlobRef::slice', 'BorrowedBlobRef::slice', 'OwnedBlobRef::as_ref', 'BorrowedBlobRef::as_ref')
def raw_slice(eng, st, v, call):
    k = raw_of(st, v[0])
    if k is None:
        return None
    K, x = k
    if K == 'C':
        return ('t', 'rawid', x)
    return [(s, (nP(x) if K == 'P' else ('t', 'vbytes', nV(x))) if o else ('t', 'rawid', ('t', 'rawpart', ('str', K), x))) for s, o in in_mem(eng, st, K, x)]


@model('OwnedBlobRef::is_id', 'BorrowedBlobRef::is_id')
def raw_is_id(eng, st, v, call):
    k = raw_of(st, v[0])
    if k is None or k[0] == 'C':
        return None
    return [(s, I(0 if o else 1)) for s, o in in_mem(eng, st, *k)]


# ---- whole nodes -------------------------------------------------------------------

def same(eng, st, v, call):
    return node_of(st, v[0])


for n in ('TreeNode::as_ref', 'TreeNode::clone', 'TreeNode::downcast', 'TreeNodeRef::owned', 'TreeNodeRef::borrowed', 'TreeNodeRef::to_owned',
          'TreeNodeRef::downcast', 'BorrowedTreeNode::to_owned', 'BorrowedTreeNode::clone', 'TreeNodeRef::clone'):
    M[n] = same


@model('agg:TreeNodeRef', 'agg:ValueRef')
def agg_ref(eng, st, v):
    x = v[3][0]
    if x[0] == 'adt' and x[1] == RESULT:
        return st.pure(x[3][0])
    return None


@model('agg:OwnedValueRef')
def agg_ovr(eng, st, v):
    return ('adt', 'OwnedValueRef', 0, v[3])


@model('TreeNode::detached', 'TreeNodeRef::detached', 'BorrowedTreeNode::detached')
def detached(eng, st, v, call):
    x = node_of(st, v[0])
    return fallible(eng, st, call, 'detach', [x, v[1]], x)


def shortened(x, n):
    return node(drop(nP(x), n), nV(x), nC(x))


@model('TreeNode::clone_shortened', 'TreeNodeRef::clone_shortened')
def clone_shortened(eng, st, v, call):
    x = node_of(st, v[0])
    return fallible(eng, st, call, 'shorten', [x, v[1], v[2]], shortened(x, v[2]))


@model('TreeNode::split')
def split(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = node_of(st, v[0])
    n = v[2]
    r = fallible(eng, st, call, 'split', [x, v[1], n], UNIT)
    r[0][0].write(v[0][1:], node(take(nP(x), n), NONE, seq(shortened(x, n))))
    return r


@model('TreeNode::canonicalize')
def canonicalize(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = node_of(st, v[0])
    r = fallible(eng, st, call, 'canonicalize', [x] + v[1:], UNIT)
    r[0][0].write(v[0][1:], ('t', 'canon', x))
    if len(v) == 1:
        return [(s, UNIT) for s, x in r[:1]]
    return r


@model('TreeNode::empty_with_children')
def ewc(eng, st, v, call):
    return node(EMPTY, NONE, as_seq(st.pure(v[0])))


@model('TreeNode::single')
def single(eng, st, v, call):
    return node(st.pure(v[0]), some(st.pure(v[1])), EMPTY)


@model('TreeNode::leaf')
def leaf(eng, st, v, call):
    return node(EMPTY, some(st.pure(v[0])), EMPTY)


M['const:TreeNode::EMPTY'] = node(EMPTY, NONE, EMPTY)
M['const:BorrowedTreeNode::EMPTY'] = node(EMPTY, NONE, EMPTY)
M['const:Value::EMPTY'] = NONE


# ---- changing a node -------------------------------------------------------------------

def setter(part):
    def deco(f):
        def g(eng, st, v, call):
            if v[0][0] != 'ref':
                return None
            r = []
            for s, x in f(eng, st, v, call):
                s.write((v[0][1], v[0][2] + (('n', part),)), x)
                r.append((s, UNIT))
            return r
        return g
    return deco


M['TreeNode::set_prefix_slice'] = setter('P')(lambda eng, st, v, call: [(st, as_seq(st.pure(v[1])))])
M['TreeNode::set_value_owned'] = setter('V')(lambda eng, st, v, call: [(st, unwrap_ovr(st.pure(v[1])))])
M['TreeNode::set_value_borrowed'] = M['TreeNode::set_value_owned']
M['TreeNode::set_value_slice'] = setter('V')(lambda eng, st, v, call: [(st, st.pure(v[1]))])
M['TreeNode::set_children_arc'] = setter('C')(lambda eng, st, v, call: [(st, as_seq(st.pure(v[1])))])


def unwrap_ovr(x):
    while x[0] == 'adt' and x[1] == 'OwnedValueRef':
        x = x[3][0]
    return x


@setter('V')
def set_value(eng, st, v, call):
    ty = eng.prog.tys_s(call.argtys[1])
    r = []
    for s, i, x in fork_enum(eng, st, v[1]):
        r.append((s, NONE if i == 0 else s.pure(x) if 'Value' in ty else some(s.pure(x))))
    return r


@setter('C')
def set_children_arc_opt(eng, st, v, call):
    return [(s, as_seq(s.pure(x)) if i else EMPTY) for s, i, x in fork_enum(eng, st, v[1])]


@setter('C')
def set_children_id(eng, st, v, call):
    x = st.pure(v[1])
    return [(st, EMPTY if length(x) == ZERO else ('t', 'opaque', ('str', 'children id'), x))]


M['TreeNode::set_value'] = set_value
M['TreeNode::set_children_arc_opt'] = set_children_arc_opt
M['TreeNode::set_children_id'] = set_children_id


@model('TreeNode::take_value_opt')
def take_value_opt(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = node_of(st, v[0])
    r = []
    for s, i, _ in fork_enum(eng, st, nV(x)):
        if i:
            s.write((v[0][1], v[0][2] + (('n', 'V'),)), NONE)
        r.append((s, some(nV(x)) if i else NONE))
    return r


@model('TreeNode::take_value')
def take_value(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    x = node_of(st, v[0])
    st.write((v[0][1], v[0][2] + (('n', 'V'),)), NONE)
    return nV(x)


# ---- values: represented as the Option they stand for --------------------------------------

for n in ('ValueRef::to_owned', 'ValueRef::downcast', 'Value::downcast', 'OwnedValueRef::downcast', 'Value::clone', 'OwnedBlobRef::clone'):
    M[n] = lambda eng, st, v, call: unwrap_ovr(st.pure(v[0]))
M['OwnedValueRef::to_owned'] = M['ValueRef::to_owned']
M['OwnedValueRef::new'] = lambda eng, st, v, call: ('adt', 'OwnedValueRef', 0, (st.pure(v[0]), UNIT))
M['Value::as_value_ref'] = lambda eng, st, v, call: ('adt', 'OwnedValueRef', 0, (st.pure(v[0]), UNIT))


@model('ValueRef::detached')
def value_detached(eng, st, v, call):
    x = st.pure(v[0])
    return fallible(eng, st, call, 'detach_value', [x, v[1]], x)


@model('Value::set')
def value_set(eng, st, v, call):
    if v[0][0] != 'ref':
        return None
    r = []
    for s, i, x in fork_enum(eng, st, v[1]):
        s.write(v[0][1:], unwrap_ovr(s.pure(x)) if i else NONE)
        r.append((s, UNIT))
    return r


@model('ValueRef::is_none', 'OwnedBlobRef::is_none', 'BorrowedBlobRef::is_none')
def vr_is_none(eng, st, v, call):
    x = unwrap_ovr(st.pure(v[0]))
    if is_t(x, 'rawpart'):
        if x[2][1] == 'V':
            return [(s, I(i == 0)) for s, i, _ in fork_enum(eng, st, nV(x[3]))]
        return I(0) if x[2][1] == 'P' else [(s, I(1 if e else 0)) for s, e in fork_empty(st, nC(x[3]))]
    if x[0] == 'adt' or is_t(x, 'nV') or x[0] == 'sym':
        return [(s, I(i == 0)) for s, i, _ in fork_enum(eng, st, x)]
    return None


@model('Value::as_ref', 'Value::deref', 'OwnedValueRef::as_ref', 'OwnedValueRef::deref')
def value_bytes(eng, st, v, call):
    x = unwrap_ovr(st.pure(v[0]))
    if x[0] == 'adt' and x[1] == OPTION and x[2] == 1:
        return x[3][0]
    return ('t', 'vbytes', x)


@model('Value::load')
def value_load(eng, st, v, call):
    x = st.pure(v[0])
    return fallible(eng, st, call, 'load_value', [x, v[1]], ('t', 'vbytes', x))


# ---- blobs: represented by their bytes -----------------------------------------------------------

for n in ('Blob::as_ref', 'Blob::deref', 'Blob::borrow', 'Blob::new', 'Blob::clone', 'Blob::to_owned', 'Blob::copy_from_slice', 'Blob::from_arc_vec', 'Blob::from'):
    M[n] = lambda eng, st, v, call: as_seq(st.pure(v[0]))
M['Blob::empty'] = lambda eng, st, v, call: EMPTY


# ---- converters --------------------------------------------------------------------------------

for p in ('NodeConverter', 'DetachConverter', 'DowncastConverter', 'IdentityConverter'):
    M[p + '::convert_node'] = lambda eng, st, v, call: fallible(eng, st, call, 'convert', [v[1], v[2]], node_of(st, v[1]))
    M[p + '::convert_value'] = lambda eng, st, v, call: fallible(eng, st, call, 'convert_value', [v[1], v[2]], unwrap_ovr(st.pure(v[1])))
    M[p + '::convert_node_shortened'] = lambda eng, st, v, call: fallible(eng, st, call, 'shorten', [v[1], v[2], v[3]], shortened(node_of(st, v[1]), v[3]))


# ---- iterators over children: represented as the sequence of what is left --------------------------

@model('TreeNodeIter::next')
def iter_next(eng, st, v, call):
    return STD['Iterator::next'](eng, st, v, call)


@model('TreeNodeIter::last')
def iter_last(eng, st, v, call):
    s0 = st.deref(v[0])
    return [(s, NONE if e else some(index(s0, sub(length(s0), ONE)))) for s, e in fork_empty(st, s0)]


@model('TreeNodeIter::find')
def iter_find(eng, st, v, call):
    s0 = st.pure(v[0])
    t = ('t', 'find', s0, st.pure(v[1]))
    return [(s, some(('t', 'child', s0, st.pure(v[1]))) if i else NONE) for s, i, _ in fork_enum(eng, st, t)]


@model('TreeNodeIter::first_prefix_byte_opt')
def iter_fpb(eng, st, v, call):
    s0 = st.deref(v[0])
    return [(s, NONE if e else some(fpb(nP(index(s0, ZERO))))) for s, e in fork_empty(st, s0)]


@model('TreeNodeIter::from_slice')
def iter_from_slice(eng, st, v, call):
    s0 = as_seq(st.pure(v[0]))
    return [(s, NONE if e else some(s0)) for s, e in fork_empty(st, s0)]


M['TreeNodeIter::from_arc'] = lambda eng, st, v, call: as_seq(st.pure(v[0]))


@model('TreeNodeIter::detached')
def iter_detached(eng, st, v, call):
    s0 = as_seq(st.pure(v[0]))
    r = []
    for s, val in fallible(eng, st, call, 'detach_all', [s0, v[1]], UNIT):
        if val[2] == 1:
            r.append((s, val))
            continue
        r += [(s2, ok(NONE if e else some(s0))) for s2, e in fork_empty(s, s0)]
    return r


@model('TreeNodeIter::into_owned')
def iter_into_owned(eng, st, v, call):
    s0 = as_seq(st.pure(v[0]))
    return [(s, NONE if e else some(s0)) for s, e in fork_empty(st, s0)]


@model('common_prefix')
def common_prefix(eng, st, v, call):
    return cp(as_seq(st.pure(v[0])), as_seq(st.pure(v[1])))


# ---- callbacks and recursion ------------------------------------------------------------------------

def callback(eng, st, v, call):
    f, args = v[0], list(v[1:])
    if len(args) == 1 and args[0][0] == 'adt' and args[0][1] == 'tuple':
        args = list(args[0][3])
    pargs = tuple(unwrap_ovr(st.pure(a)) for a in args)
    ty = eng.prog.tys_s(call.ty) if call is not None and call.ty is not None else ''
    val = ('t', 'cb', f) + pargs
    st.event('call', f, pargs)
    muts = [i for i, a in enumerate(args) if a[0] == 'ref']
    if ty.startswith('std::result::Result'):
        if ty.startswith('std::result::Result<()'):
            val = UNIT
        s2 = st.copy()
        e = ('t', 'errof', ('str', 'callback'), I(len(st.events))) + pargs
        s2.event('err', 'callback', pargs, e)
        res = [(st, ok(val))] + ([] if infallible(eng, call) else [(s2, err(e))])
    else:
        res = [(st, UNIT if ty == '()' else val)]
    for s, _ in res:
        for i in muts:
            s.write(args[i][1:], ('t', 'cbm', f, I(i)) + pargs)
    return res


M['callback'] = callback
M['indirect'] = callback


def on_recursion(eng, st, body, vals, call):
    args = tuple(st.pure(v) for v in vals)
    ty = eng.prog.tys_s(call.ty) if call is not None and call.ty is not None else ''
    muts = [i for i, v in enumerate(vals) if v[0] == 'ref']
    val = ('t', 'rec', ('str', body.id)) + args
    st.event('rec', body.id, args)
    if ty.startswith('std::result::Result'):
        if infallible(eng, call):
            res = [(st, ok(UNIT if 'Result<()' in ty else val))]
        else:
            s2 = st.copy()
            e = ('t', 'errof', ('str', 'rec'), I(len(st.events))) + args
            s2.event('err', 'rec', args, e)
            res = [(st, ok(UNIT if 'Result<()' in ty else val)), (s2, err(e))]
    else:
        res = [(st, val)]
    for s, _ in res:
        for i in muts:
            s.write(vals[i][1:], ('t', 'recm', ('str', body.id), I(i)) + args)
    return res
