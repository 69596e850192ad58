"""The child iterators do what the contracts of TreeNodeIter say: over nodes in memory, over a stored block, and the
enum of both. A stored block is validated when it is loaded, so behind every node of it there is the end or another node."""
from layer1 import *
import errors
from linear import concrete

S = ('sym', 's')
DATA = ('sym', 'data')
OFS = ('sym', 'ofs')
PB = ('sym', 'pb')


# ---- models ---------------------------------------------------------------------------------

ITER = dict(rm.R)


def first(eng, st, v, call):
    x = st.pure(v[0])
    if not rm.opaque_node(x):
        return None
    return ('t', 'fpb', nP(x))


ITER['TreeNode::first_prefix_byte'] = ITER['BorrowedTreeNode::first_prefix_byte'] = ITER['TreeNodeRef::first_prefix_byte'] = first
ITER['TreeNode::detached'] = rm.child_detached


def typeid(eng, st, v, call):
    t = (call.info.get('res') or call.info).get('targs') or []
    return ('t', 'typeid', ('str', eng.prog.tys_s(t[0]))) if t else None


ITER['TypeId::of'] = typeid


def no_store(eng, st, v, call):
    t = (call.info.get('res') or call.info).get('targs') or []
    return eq(('t', 'typeid', ('str', eng.prog.tys_s(t[0]))), ('t', 'typeid', ('str', detached_name(eng)))) if t else None


def detached_name(eng):
    return eng.ctx.adt('Detached')['path'].split('radixdb::')[-1]


ITER['is_no_store'] = no_store


def binary_search(eng, st, v, call):
    """by the first byte of the path, in children that are sorted by it"""
    x, want, f = as_seq(st.pure(v[0])), st.pure(v[1]), v[2]
    probe = ('sym', 'probe')
    s2 = st.copy()
    eng.kinds[probe] = eng.kind(index(x, ZERO)) or 'T'
    keys = [s2.pure(o.val) for o in eng.apply(s2, f, [probe]) if o.kind == 'return']
    if keys != [('t', 'fpb', nP(probe))] or not (want[0] == 'adt' and want[1] == OPTION and want[2] == 1):
        return None
    r = []
    for s, i, _ in nm.fork_enum(eng, st, ('t', 'find', x, want[3][0])):
        k = ('t', 'childpos', x, want[3][0])
        if i:
            s.assume(lt(k, length(x)), 1)
        r.append((s, ok(k) if i else err(('t', 'opaque', ('str', 'insert position'), x))))
    return r


def searched_byte(eng, st, x, f, wanted):
    """the byte that a closure compares the first byte of the path of an element with"""
    probe = ('sym', 'probe')
    s2 = st.copy()
    eng.kinds[probe] = eng.kind(index(x, ZERO)) or 'T'
    vals = [s2.pure(o.val) for o in eng.apply(s2, f, [probe]) if o.kind == 'return']
    if len(vals) != 1:
        return None
    t, b = vals[0], ('t', 'fpb', nP(probe))
    if t[0] == 't' and t[1] in wanted and b in t[2:]:
        o = t[3] if t[2] == b else t[2] if wanted != ('cmp',) else None
        if o is not None and o[0] == 'adt' and o[1] == OPTION and o[2] == 1:
            return o[3][0]
    return None


def binary_search_by(eng, st, v, call):
    x = as_seq(st.pure(v[0]))
    k = searched_byte(eng, st, x, v[1], ('cmp',))
    if k is None:
        return None
    r = []
    for s, i, _ in nm.fork_enum(eng, st, ('t', 'find', x, k)):
        p = ('t', 'childpos', x, k)
        if i:
            s.assume(lt(p, length(x)), 1)
        r.append((s, ok(p) if i else err(('t', 'opaque', ('str', 'insert position'), x))))
    return r


ITER['slice::binary_search_by'] = binary_search_by


def find_first(eng, st, v, call):
    """the child that starts with a byte: there is at most one"""
    x = as_seq(st.pure(v[0]))
    k = searched_byte(eng, st, x, v[1], ('eq',)) if seq_like(x) else None
    if k is None:
        return M_FIND(eng, st, v, call)
    r = []
    for s, i, _ in nm.fork_enum(eng, st, ('t', 'find', x, k)):
        p = ('t', 'childpos', x, k)
        if i:
            s.assume(lt(p, length(x)), 1)
        r.append((s, some(index(x, p)) if i else NONE))
    return r


from stdmodels import seq_like, M as STD_M
M_FIND = STD_M['Iterator::find']
ITER['Iterator::find'] = find_first

STDM = dict(rm.R)
ITER['slice::binary_search_by_key'] = binary_search


def read_one(eng, st, v, call):
    """in a valid block: nothing at the end, a node everywhere else"""
    x = as_seq(st.pure(v[0]))
    pair = call.key.endswith('read_one')
    r = []
    for s, e in fork_bool(st, eq0(length(x))):
        if e:
            r.append((s, NONE))
        else:
            n = rm.bn(x)
            r.append((s, some(tup(n, drop(x, rm.blen(n))) if pair else n)))
    return r


from stdmodels import fork_bool

ITER['BorrowedTreeNode::read'] = ITER['BorrowedTreeNode::read_one'] = read_one


def bytes_len(eng, st, v, call):
    x = st.pure(v[0])
    return rm.blen(x) if is_t(x, 'bn') else None


ITER['BorrowedTreeNode::bytes_len'] = bytes_len

for n in ('nP', 'fpb', 'typeid', 'childpos'):
    RAW_OK.add(n)

SEQ = dict(ITER)        # with a stored block as a sequence of nodes


def seq_next(eng, st, v, call):
    return STDM['Iterator::next'](eng, st, v, call)


SEQ['BorrowedTreeNodeIter::next'] = seq_next
SEQ['BorrowedTreeNodeIter::is_empty'] = lambda eng, st, v, call: eq0(length(as_seq(st.pure(v[0])))) if st.deref(v[0])[0] != 'adt' else None

ENUM = dict(SEQ)
for o in ('OwnedTreeNodeIter', 'BorrowedTreeNodeIter'):
    for n in ('next', 'last', 'find', 'first_prefix_byte_opt', 'into_owned', 'to_owned', 'detached'):
        m = nm.M.get('TreeNodeIter::' + ('into_owned' if n == 'to_owned' else n))

        def g(eng, st, v, call, m=m):
            if st.deref(v[0])[0] == 'adt':
                return None
            return m(eng, st, v, call)
        ENUM['%s::%s' % (o, n)] = g
ENUM['OwnedTreeNodeIter::detached'] = ENUM['BorrowedTreeNodeIter::detached'] = lambda eng, st, v, call: rm.iter_detached(eng, st, v, call)
ENUM['BorrowedTreeNodeIter::load'] = rm.R['TreeNodeIter::load']
ENUM['OwnedTreeNodeIter::new'] = lambda eng, st, v, call: as_seq(st.pure(v[0]))
ENUM['OwnedTreeNodeIter::new_owned'] = ENUM['OwnedTreeNodeIter::new']
for n in list(ENUM):
    if n.startswith('TreeNodeIter::'):
        del ENUM[n]


# ---- inputs -----------------------------------------------------------------------------------

def owned_iter(ctx, owner):
    def f(eng):
        eng.kinds[S] = 'T'
        return ('adt', ctx.adt('OwnedTreeNodeIter')['id'], 0, (owner, S))
    return f


def block_iter(ctx):
    v = {'data': DATA, 'offset': OFS, 'record_size': ('sym', 'rs'), 'p': UNIT}
    return lambda eng: ('adt', ctx.adt('BorrowedTreeNodeIter')['id'], 0, tuple(v[x] for x in ctx.fields('BorrowedTreeNodeIter')))


def get(ctx, rep, rule, owner, name, inputs, models, tag='', facts=None):
    k = ('iter', owner, name, tag)
    if k not in ctx.cache:
        bs = ctx.method(owner, name, None, True)
        try:
            ctx.cache[k] = Fn(ctx, bs[0], inputs, models, facts) if len(bs) == 1 else None
        except TooComplex as e:
            ctx.cache[k] = str(e)
    fn = ctx.cache[k]
    if fn is None or isinstance(fn, str):
        rep.undecided(rule, '%s::%s' % (owner, name), fn or 'not found')
        return None
    rep.analysed |= fn.eng.analysed
    return fn


def returns(fn):
    return [o for o in fn.outs if o.kind == 'return' and not any(e[0] == 'err' for e in o.st.events)]


def result_of(st, v):
    """the payload of Ok"""
    if v[0] == 'adt' and v[1] == RESULT and v[2] == 0:
        return v[3][0]
    return v


ITER_SYMS = {S, DATA, OFS, PB, STORE}


def is_clean(v):
    def bad(x):
        if x[0] == 'sym':
            return x not in ITER_SYMS
        if x[0] == 'ref':
            return True
        return x[0] == 't' and x[1] not in RAW_OK
    return not contains(v, bad)


def judge(rep, rule, fn, st, good, got, want, what):
    w = where(fn.body)
    if good:
        rep.ok(rule, w, what)
    elif precise(st) and is_clean(got):
        rep.bad(rule, w, '%s:%s' % (fn.body.name, what), '%s is wrong\nfound    %s\nexpected %s\npath     %s' % (what, show(got), want, fact_str(st.pc)))
    else:
        rep.undecided(rule, w, '%s: %s, expected %s' % (what, show(got), want))


def panics(rep, rule, fn, allowed, leaves=None):
    w = where(fn.body)
    for o in fn.outs:
        if o.kind != 'panic':
            continue
        if allowed(o.st):
            rep.ok(rule, w, 'panic path can not happen')
        elif leaves and concrete(o.st.pc, leaves):
            rep.bad(rule, w, fn.body.name + ': panics', 'panics with %s' % fact_str(o.st.pc))
        else:
            rep.undecided(rule, w, 'panic with %s' % fact_str(o.st.pc))


# ---- nodes in memory -------------------------------------------------------------------------------

def all_256(st, s):
    n = length(s)
    return st.decide(eq(n, I(256))) == 1 or st.decide(lt(n, I(256))) == 0 or st.decide(lt(I(255), n)) == 1


def memory_iter(ctx, rep):
    rule = 'iterator over child nodes in memory'
    lay = [f[1] if len(f) > 1 else None for f in ctx.adt('OwnedTreeNodeIter')['variants'][0][1]]
    if len(lay) != 2:
        rep.undecided(rule, 'OwnedTreeNodeIter', 'other fields')
        return
    e0 = lambda st: st.decide(eq0(length(S)))
    for owner, on in ((NONE, 'borrowed'), (some(S), 'owned')):
        x = owned_iter(ctx, owner)
        fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'is_empty', [x], ITER, on)
        for o in returns(fn) if fn else []:
            v = o.st.pure(o.val)
            d = o.st.decide(eq0(length(S)))
            judge(rep, rule, fn, o.st, v == eq0(length(S)) or (is_int(v) and d == v[1]), v, 'is the rest empty', 'is_empty')
        fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'next', [('mut', x)], ITER, on)
        for o in returns(fn) if fn else []:
            st, v, left = o.st, o.st.pure(o.val), st_after(fn, o)
            e = e0(st)
            if e is None:
                rep.undecided(rule, where(fn.body), 'does not look at the rest')
                continue
            judge(rep, rule, fn, st, v == (NONE if e else some(index(S, ZERO))), v, 'the first node', 'result')
            n = left[3][1] if left[0] == 'adt' else left
            judge(rep, rule, fn, st, n == (S if e else drop(S, ONE)) or e and st.decide(eq0(length(n))) == 1, n, 'the rest', 'rest')
            judge(rep, rule, fn, st, left[0] == 'adt' and left[3][0] == owner, left, 'the owner stays', 'owner')
        fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'last', [('mut', x)], ITER, on)
        for o in returns(fn) if fn else []:
            st, v = o.st, o.st.pure(o.val)
            e = e0(st)
            if e is None:
                rep.undecided(rule, where(fn.body), 'does not look at the rest')
                continue
            judge(rep, rule, fn, st, v == (NONE if e else some(index(S, sub(length(S), ONE)))), v, 'the last node', 'result')
        fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'first_prefix_byte_opt', [('mut', x)], ITER, on)
        for o in returns(fn) if fn else []:
            st, v = o.st, o.st.pure(o.val)
            e = e0(st)
            if e is None:
                rep.undecided(rule, where(fn.body), 'does not look at the rest')
                continue
            judge(rep, rule, fn, st, v == (NONE if e else some(('t', 'fpb', nP(index(S, ZERO))))), v, 'the first byte of the first node', 'result')
        fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'find', [x, '=pb'], ITER, on, facts=lambda fn: [(lt(PB, I(256)), 1)])
        for o in returns(fn) if fn else []:
            st, v = o.st, o.st.pure(o.val)
            e = e0(st)
            f = st.decide(discr(('t', 'find', S, PB)))
            if v == some(index(S, PB)):
                good = all_256(st, S)
            elif v == some(index(S, ('t', 'childpos', S, PB))):
                good = f == 1
            elif v == NONE:
                good = f == 0 or e == 1
            else:
                good = False
            judge(rep, rule, fn, st, good, v, 'the node whose path starts with the byte', 'result')
        if fn:
            panics(rep, rule, fn, lambda st: all_256(st, S))
        for name, fallible in (('into_owned', False), ('detached', True)):
            fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', name, [x] + (['=store'] if fallible else []), ITER, on)
            for o in returns(fn) if fn else []:
                st, v = o.st, result_of(o.st, map_loops(fn, o.st, o.st.pure(o.val)))
                e = e0(st)
                if v == NONE:
                    judge(rep, rule, fn, st, e == 1, v, 'the nodes', 'result')
                    continue
                want = [some(S)] if not fallible else [some(('t', 'detall', S))]
                if fallible and st.decide(eq(('t', 'typeid', ('str', 'S')), ('t', 'typeid', ('str', detached_name(fn.eng))))) == 1:
                    want.append(some(S))
                judge(rep, rule, fn, st, v in want or e == 1 and st.decide(eq0(length(v[3][0] if v[0] == 'adt' and v[3] else v))) == 1, v, 'all nodes' + (
                    ' without store references' if fallible else ''), 'result')
            if fn and fallible:
                errors.check(rep, rule, fn.body, fn.eng, fn.outs)
    fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'new', ['=s'], ITER)
    for o in returns(fn) if fn else []:
        v = o.st.pure(o.val)
        judge(rep, rule, fn, o.st, v[0] == 'adt' and v[3] == (NONE, S), v, 'the nodes, no owner', 'result')
    fn = get(ctx, rep, rule, 'OwnedTreeNodeIter', 'new_owned', ['=s'], ITER)
    for o in returns(fn) if fn else []:
        v = o.st.pure(o.val)
        judge(rep, rule, fn, o.st, v[0] == 'adt' and v[3] == (some(S), S), v, 'the nodes and their owner', 'result')
    for b in ctx.prog.by_name('is_no_store'):
        eng = Raw(ctx, ITER)
        eng.models = {k: v for k, v in ITER.items() if k != 'is_no_store'}
        for o in eng.exec_body(State(), b, []):
            want = eq(('t', 'typeid', ('str', 'S')), ('t', 'typeid', ('str', detached_name(eng))))
            v = o.st.pure(o.val) if o.kind == 'return' else UNIT
            if v == want or is_int(v) and o.st.decide(want) == v[1]:
                rep.ok(rule, where(b), 'the store type is compared with Detached')
            elif precise(o.st) and (is_int(v) or is_t(v, 'eq') or is_t(v, 'not')):
                rep.bad(rule, where(b), 'is_no_store', 'does not tell whether the store type is Detached\nfound %s' % show(v))
            else:
                rep.undecided(rule, where(b), show(v))


def st_after(fn, o):
    (r, _), = fn.muts
    return o.st.mem[r]


# ---- a stored block ----------------------------------------------------------------------------------

def position_loops(fn):
    """{offset variable: start} of loops that step from node to node"""
    r = {}
    for l in fn.eng.loops.values():
        for s, init in l['init'].items():
            if not l['iters']:
                continue
            step = add(s, rm.blen(rm.bn(drop(DATA, s))))
            if all(it['final'].get(s) == step for it in l['iters']):
                r[s] = init
            x = drop(s, rm.blen(rm.bn(s)))
            if all(it['final'].get(s) == x for it in l['iters']):
                r[s] = init
    return r


def by_position(fn):
    """loops that step through what is left of the block are loops over the position where that starts"""
    m = {}
    for l in fn.eng.loops.values():
        for s, init in list(l['init'].items()):
            if l['iters'] and all(it['final'].get(s) == drop(s, rm.blen(rm.bn(s))) for it in l['iters']) and \
                    (init == DATA or is_t(init, 'drop') and init[2] == DATA):
                m[s] = ('sym', s[1] + '.pos')
    if not m:
        return

    def sub(v):
        return substitute(v, lambda x: drop(DATA, m[x]) if x in m else None)

    def state(st):
        r = st.copy()
        r.facts, r.vals, r.pc = {}, {}, ()
        for t, v in st.pc:
            t = sub(t)
            if r.decide(t) not in (None, v):
                return None
            r.assume(t, v)
        return r
    for l in fn.eng.loops.values():
        l['init'] = {m.get(s, s): (init[3] if init != DATA else ZERO) if s in m else sub(init) for s, init in l['init'].items()}
        its = []
        for it in l['iters']:
            st = state(it['st'])
            if st is None:
                continue
            fin = {m.get(s, s): add(m[s], rm.blen(rm.bn(drop(DATA, m[s])))) if s in m else sub(f) for s, f in it['final'].items()}
            its.append(dict(it, st=st, final=fin, pc=tuple((sub(t), v) for t, v in it['pc'])))
        l['iters'] = its
    outs = []
    for o in fn.outs:
        st = state(o.st)
        if st is not None:
            outs.append(Out(o.kind, st, sub(o.st.pure(o.val)) if o.kind == 'return' else o.val))
    fn.outs = outs


def behind(pos, st):
    """a position is never behind the end of the block"""
    for p in list(pos) + [OFS]:
        if st.decide(lt(length(DATA), p)) == 1:
            return True
    return False


def stored_iter(ctx, rep):
    rule = 'iterator over a stored block'
    x = block_iter(ctx)
    rest = drop(DATA, OFS)
    fi = ctx.fields('BorrowedTreeNodeIter')
    at_end = lambda st, p=OFS: st.decide(eq0(length(drop(DATA, p)))) if st.decide(eq0(length(drop(DATA, p)))) is not None else st.decide(eq(p, length(DATA)))
    facts = lambda fn: [(lt(length(DATA), OFS), 0)]
    fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', 'is_empty', [x], ITER, facts=facts)
    for o in returns(fn) if fn else []:
        v = o.st.pure(o.val)
        for s, e in ((assuming(o.st, OFS, True), 1), (assuming(o.st, OFS, False), 0)):
            if s is not None:
                judge(rep, rule, fn, s, s.decide(v) == e, v if s.decide(v) == 1 - e else S_ANY, 'is the position at the end', 'is_empty')
    fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', 'next', [('mut', x)], ITER, facts=facts)
    for o in returns(fn) if fn else []:
        st, v, left = o.st, o.st.pure(o.val), st_after(fn, o)
        e = at_end(st)
        if e is None or left[0] != 'adt':
            rep.undecided(rule, where(fn.body), 'does not look at the rest')
            continue
        n = rm.bn(rest)
        judge(rep, rule, fn, st, v == (NONE if e else some(n)), v, 'the node at the position', 'result')
        f = dict(zip(fi, left[3]))
        p = OFS if e else add(OFS, rm.blen(n))
        judge(rep, rule, fn, st, f['offset'] == p, f['offset'], 'the position behind the node', 'position')
        judge(rep, rule, fn, st, f['data'] == DATA, f['data'], 'the same block', 'block')
    fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', 'first_prefix_byte_opt', [('mut', x)], ITER, facts=facts)
    for o in returns(fn) if fn else []:
        st, v = o.st, o.st.pure(o.val)
        e = at_end(st)
        if e is None:
            rep.undecided(rule, where(fn.body), 'does not look at the rest')
            continue
        judge(rep, rule, fn, st, v == (NONE if e else some(('t', 'fpb', nP(rm.bn(rest))))), v, 'the first byte of the node at the position', 'result')
        judge(rep, rule, fn, st, dict(zip(fi, st_after(fn, o)[3])).get('offset') == OFS, st_after(fn, o), 'the position stays', 'position')
    fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', 'find', [x, '=pb'], ITER, facts=facts)
    if fn:
        find_stored(rep, rule, fn)
    fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', 'last', [('mut', x)], ITER, facts=facts)
    if fn:
        last_stored(rep, rule, fn)
    for name, fallible in (('to_owned', False), ('detached', True)):
        fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', name, [lambda eng: kinded(eng, S, 'B')] + (['=store'] if fallible else []), SEQ)
        for o in returns(fn) if fn else []:
            st, v = o.st, result_of(o.st, map_loops(fn, o.st, o.st.pure(o.val)))
            e = st.decide(eq0(length(S)))
            if v == NONE:
                judge(rep, rule, fn, st, e == 1, v, 'the nodes', 'result')
                continue
            judge(rep, rule, fn, st, v == some(('t', 'detall', S) if fallible else S), v, 'all nodes' + (' without store references' if fallible else ''), 'result')
        if fn and fallible:
            errors.check(rep, rule, fn.body, fn.eng, fn.outs)


def kinded(eng, x, k):
    eng.kinds[x] = k
    return x


def order_of(st, n):
    """-1, 0, 1: first byte of node n against the byte looked for"""
    a, b = ('t', 'fpb', nP(n)), some(PB)
    for x, y, sign in ((a, b, 1), (b, a, -1)):
        d = st.decide(discr(('t', 'cmp', x, y)))
        if d is not None:
            return d * sign
    d = st.decide(eq(a, b))
    return 0 if d == 1 else None


def starts_at(pos, p):
    return p == OFS or pos.get(p) == OFS


S_ANY = ('t', 'opaque', ('str', 'undecided'))


def assuming(st, p, end):
    """the path with position p at the end of the block, or at a node; None when it contradicts that. A node has three header bytes"""
    s = State()
    n = length(drop(DATA, p))
    s.assume(lt(length(DATA), p), 0)
    s.assume(eq0(n), int(end))
    if not end:
        s.assume(lt(n, I(3)), 0)
    for t, v in st.pc:
        if t in s.facts and s.facts[t] == v:
            continue
        d = s.decide(t)
        if d is not None and d != v:
            return None
        s.assume(t, v)
    s.imprecise, s.mem, s.events = st.imprecise, st.mem, st.events
    return s


def find_stored(rep, rule, fn):
    w = where(fn.body)
    by_position(fn)
    pos = position_loops(fn)
    steps(rep, rule, fn, pos)
    for l in fn.eng.loops.values():
        for it in l['iters']:
            st = it['st']
            for s in l['init']:
                if s in pos:
                    n = rm.bn(drop(DATA, s))
                    k = order_of(st, n)
                    ne = st.decide(eq(('t', 'fpb', nP(n)), some(PB))) == 0
                    if k in (-1, 1) or ne:
                        rep.ok(rule, w, 'goes on behind another node')
                    elif precise(st) and k == 0:
                        rep.bad(rule, w, 'find:passes', 'goes on behind the node it looks for\npath %s' % fact_str(st.pc))
                    else:
                        rep.undecided(rule, w, 'goes on with %s' % fact_str(st.pc))
    for o in returns(fn):
        st, v = o.st, o.st.pure(o.val)
        ps = [p for p in list(pos) + [OFS] if starts_at(pos, p)]
        if v == NONE:
            good = any(st.decide(eq0(length(drop(DATA, p)))) == 1 or order_of(st, rm.bn(drop(DATA, p))) == 1 for p in ps)
            strange = any(contains(t, lambda x: x[0] == 'sym' and x not in ITER_SYMS and x not in pos and x != ('sym', 'rs')) for t, _ in st.pc)
            judge(rep, rule, fn, st, good, S_ANY if strange else v, 'the node whose path starts with the byte', 'nothing found')
        else:
            good = any(v == some(rm.bn(drop(DATA, p))) and order_of(st, rm.bn(drop(DATA, p))) == 0 for p in ps)
            v2 = substitute(v, lambda x: OFS if x in pos else None)
            judge(rep, rule, fn, st, good, v2, 'the node whose path starts with the byte', 'found')
    panics(rep, rule, fn, lambda st: behind(pos, st), {OFS: (0, 1), length(DATA): (1, 2, 9), ('sym', 'rs'): (0, 1, 9)})


def steps(rep, rule, fn, pos):
    """a position moves from node to node"""
    w = where(fn.body)
    for l in fn.eng.loops.values():
        for s, init in l['init'].items():
            if s in pos:
                if init == OFS:
                    rep.ok(rule, w, 'starts at the position of the iterator')
                elif is_clean(init) and not contains(init, lambda x: is_t(x, 'opaque')):
                    rep.bad(rule, w, 'start', 'does not start at the position of the iterator but at %s' % show(init))
                else:
                    rep.undecided(rule, w, 'starts at ' + show(init))
                continue
            for it in l['iters']:
                f = it['final'].get(s)
                if f is not None and numeric_pos(l, s):
                    st = it['st']
                    if precise(st) and is_clean(substitute(f, lambda x: OFS if x == s else None)):
                        rep.bad(rule, w, 'step', 'does not step to the next node\nfrom %s to %s\npath %s' % (show(s), show(f), fact_str(st.pc)))
                    else:
                        rep.undecided(rule, w, 'steps to ' + show(f))


def numeric_pos(l, s):
    return l['init'].get(s) == OFS


def last_stored(rep, rule, fn):
    w = where(fn.body)
    by_position(fn)
    pos = position_loops(fn)
    steps(rep, rule, fn, pos)
    # a variable that holds the node before the position
    held = {}
    for l in fn.eng.loops.values():
        ps = [s for s in l['init'] if s in pos]
        for s, init in l['init'].items():
            if s in pos or not l['iters']:
                continue
            for p in ps:
                n = rm.bn(drop(DATA, p))
                if all(it['final'].get(s) in (some(n), n, s) for it in l['iters']) and any(it['final'].get(s) != s for it in l['iters']):
                    held[s] = (p, init, l)
    for o in returns(fn):
        st, v = o.st, o.st.pure(o.val)
        h = held.get(v)
        if h is None and v[0] == 'adt' and v[2] == 1:
            h = held.get(v[3][0])
        if h:
            s = v if v in held else v[3][0]
            p, init, l = h
            judge(rep, rule, fn, st, assuming(st, p, False) is None, UNIT, 'the node before the end', 'end')
            judge(rep, rule, fn, st, init == NONE and pos[p] == OFS, init, 'nothing before the first node', 'start')
            for it in l['iters']:
                if it['final'][s] == s:
                    nxt = it['final'][p]
                    judge(rep, rule, fn, it['st'], assuming(it['st'], nxt, True) is None, UNIT, 'the node that is passed', 'passed')
        elif v == NONE:
            e = st.decide(eq0(length(drop(DATA, OFS))))
            judge(rep, rule, fn, st, e == 1, v, 'the last node', 'result')
        else:
            v2 = substitute(v, lambda x: OFS if x in pos else S_ANY if x[0] == 'sym' and x not in ITER_SYMS else None)
            judge(rep, rule, fn, st, False, v2, 'the last node', 'result')
    panics(rep, rule, fn, lambda st: behind(pos, st), {OFS: (0, 1), length(DATA): (1, 2, 9), ('sym', 'rs'): (0, 1, 9)})


# ---- both ------------------------------------------------------------------------------------------------

def either_iter(ctx, rep):
    rule = 'child iterator refines its contract'
    adt = ctx.adt('TreeNodeIter')
    payload = []
    for i, (name, fs, *_) in enumerate(adt['variants']):
        payload.append((i, name, 'T' if 'Owned' in ctx.prog.tys_s(fs[0][1]) else 'B'))
    for i, vn, kind in payload:
        def x(eng, i=i, kind=kind):
            eng.kinds[S] = kind
            return ('adt', adt['id'], i, (S,))
        for name, inputs in (('next', [('mut', x)]), ('last', [('mut', x)]), ('first_prefix_byte_opt', [('mut', x)]), ('find', [x, '=pb']), ('into_owned', [x]),
                             ('detached', [x, '=store'])):
            fn = get(ctx, rep, rule, 'TreeNodeIter', name, inputs, ENUM, vn)
            if not fn:
                continue
            for o in returns(fn):
                st = o.st
                al = Alpha(fn.eng, st)
                got = norm(norm_ref(fn, st.pure(o.val)))
                cst = State()
                cst.facts, cst.vals, cst.pc = dict(st.facts), dict(st.vals), st.pc
                a = S
                if fn.muts:
                    cst.mem[SELF] = S
                    a = ('ref', SELF, ())
                args = [a] + [y for y in fn.args[1:]]
                r = nm.M['TreeNodeIter::' + name](fn.ctx.engine(), cst, args, Call(ty=None, key='TreeNodeIter::' + name, argtys=[], body=fn.body))
                for s, want in r if isinstance(r, list) else [(cst, r)]:
                    if any(e[0] == 'err' for e in s.events):
                        continue
                    want = norm(s.pure(want))
                    judge(rep, rule, fn, st, same(st, s, got, want), got, show(want), 'result of ' + vn)
                    if fn.muts:
                        left = st_after(fn, o)
                        good = left[0] == 'adt' and left[2] == i and (left[3][0] == s.mem[SELF] or st.decide(eq0(length(left[3][0]))) == 1 == s.decide(eq0(length(s.mem[SELF]))))
                        judge(rep, rule, fn, st, good, left, 'the rest', 'rest of ' + vn)
            if name == 'detached':
                errors.check(rep, rule, fn.body, fn.eng, fn.outs)
    tag = {k: i for i, n, k in payload}
    for name in ('from_arc', 'from_slice'):
        fn = get(ctx, rep, rule, 'TreeNodeIter', name, ['=s'], ENUM)
        for o in returns(fn) if fn else []:
            st, v = o.st, o.st.pure(o.val)
            want = ('adt', adt['id'], tag.get('T'), (S,))
            if name == 'from_slice':
                e = st.decide(eq0(length(S)))
                want = NONE if e else some(want)
            judge(rep, rule, fn, st, v == want, v, show(want), 'result')
    fn = get(ctx, rep, rule, 'TreeNodeIter', 'load', ['=bytes', '=store'], ENUM)
    for o in returns(fn) if fn else []:
        st, v = o.st, result_of(o.st, o.st.pure(o.val))
        e = st.decide(eq0(length(BYTES)))
        want = NONE if e else some(('adt', adt['id'], tag.get('B'), (rm.block(rm.stored(drop(BYTES, ONE))),)))
        judge(rep, rule, fn, st, v == want, v if v == NONE else substitute(v, lambda x: S if x == BYTES else None), show(want), 'result')
    if fn:
        errors.check(rep, rule, fn.body, fn.eng, fn.outs)


def norm_ref(fn, v):
    """references to nodes are the nodes"""
    name = fn.ctx.adt('TreeNodeRef')['id']

    def f(x):
        if x[0] == 'adt' and x[1] == name:
            y = x[3][0]
            if y[0] == 'adt' and y[1] == RESULT:
                y = y[3][0]
            return y
        return None
    return substitute(v, f)
