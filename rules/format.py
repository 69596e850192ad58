"""The stored form of nodes: reading (C12, C21) and writing (C11).

A node in bytes x is well formed when its three parts lie inside x, the third is an id, and the first is not an id of length 0;
wf(x) below. Its parts begin at 0, o1 and o2, and the next node begins at end."""
from common import *
from iters import get, returns, result_of
from layer1 import Fn, run, where, STORE, BYTES
import errors
import linear
import rawmodels as rm
import stdmodels as sm
from rawmodels import isid, hlen, bn, blen, stored, drop, project

B0 = index(BYTES, ZERO)


class Shape:
    """the parts of the node at the start of x"""

    def __init__(self, st, x):
        self.x = x
        self.b0 = index(x, ZERO)
        self.o1 = add(hlen(st, self.b0), ONE)
        self.b1 = index(x, self.o1)
        self.o2 = add(add(self.o1, hlen(st, self.b1)), ONE)
        self.b2 = index(x, self.o2)
        self.end = add(add(self.o2, hlen(st, self.b2)), ONE)
        self.inside = sub(length(x), self.end)


def facts_known(st, x):
    """only facts about the headers and the length of x were decided"""
    def bad(t):
        return t[0] == 'sym' and t != x and not t[1].startswith('alloc') or t[0] == 't' and t[1] not in ('lin', 'len', 'idx', 'drop', 'take', 'hlen', 'isid', 'eq0', 'lt0', 'eq', 'unit', 'cat')
    return precise(st) and not any(contains(t, bad) for t, _ in st.pc)


def verdict(rep, rule, fn, st, good, key, msg, x=BYTES):
    w = where(fn.body)
    if good:
        rep.ok(rule, w, key)
    elif facts_known(st, x):
        rep.bad(rule, w, key, msg + '\npath    %s' % fact_str(st.pc, 30))
    else:
        rep.undecided(rule, w, msg)


def wf_false(st, s):
    """the path says that there is no well formed node"""
    if st.decide(isid(s.b2)) == 0 or st.decide(isid(s.b0)) == 1 and st.decide(eq0(hlen(st, s.b0))) == 1:
        return True
    return linear.Domain(st, extra=[(s.inside, '>=')]).contradictory()


def node_fields(eng, v):
    """(header byte, slot) of prefix, value and children of a stored node"""
    r = {}
    f = eng.ctx.fields('BorrowedTreeNode') if hasattr(eng, 'ctx') else None
    for s, h in rm.NODE_SLOTS.items():
        if s not in f or h not in f:
            return None
        hv = project(v[3][f.index(h)], ('f', 0))
        r[rm.PART[s]] = (hv, v[3][f.index(s)])
    return r


def equal_pos(st, a, b):
    """two places in the bytes"""
    if a == b:
        return True
    return is_t(a, 'idx') and is_t(b, 'idx') and a[2] == b[2] and linear.Domain(st).equal(a[3], b[3])


def same_rest(st, a, x, end):
    if a == drop(x, end):
        return True
    if st.decide(eq0(length(a))) == 1 or a == EMPTY or linear.Domain(st).zero(length(a)):
        return linear.Domain(st).zero(sub(length(x), end))
    return is_t(a, 'drop') and a[2] == x and linear.Domain(st).equal(a[3], end)


def decode(ctx, rep):
    rule = 'decoding a stored node'
    for name, pair in (('read_one', True), ('read', False)):
        fn = run(ctx, 'BorrowedTreeNode', name, ['=bytes'])
        if fn is None or isinstance(fn, str):
            rep.undecided(rule, 'BorrowedTreeNode::' + name, fn or 'not found')
            continue
        rep.analysed |= fn.eng.analysed
        fn.eng.ctx = ctx
        for o in fn.outs:
            st = o.st
            s = Shape(st, BYTES)
            if o.kind == 'panic':
                if linear.Domain(st).contradictory():
                    continue
                verdict(rep, rule, fn, st, False, name + ':panic', 'reading a node panics for some bytes')
                continue
            if o.kind != 'return':
                rep.undecided(rule, where(fn.body), o.kind)
                continue
            if linear.Domain(st).contradictory():
                continue
            v = o.st.pure(o.val)
            if v == NONE:
                verdict(rep, rule, fn, st, wf_false(st, s), name + ':rejects', 'a well formed node is not read')
                continue
            if not (v[0] == 'adt' and v[1] == OPTION and v[2] == 1):
                rep.undecided(rule, where(fn.body), show(v)[:300])
                continue
            v = v[3][0]
            rest = None
            if pair:
                v, rest = project(v, ('f', 0)), project(v, ('f', 1))
            d = linear.Domain(st)
            verdict(rep, rule, fn, st, d.ge0(s.inside), name + ':truncated', 'a node that is longer than the bytes is accepted')
            verdict(rep, rule, fn, st, st.decide(isid(s.b2)) == 1, name + ':children', 'a node whose children are not an id is accepted')
            verdict(rep, rule, fn, st, st.decide(isid(s.b0)) == 0 or st.decide(eq0(hlen(st, s.b0))) == 0, name + ':prefix', 'a node whose prefix is none is accepted')
            if v[0] != 'adt':
                rep.undecided(rule, where(fn.body), show(v)[:300])
                continue
            f = node_fields(fn.eng, v)
            if f is None:
                rep.undecided(rule, where(fn.body), 'fields of a stored node')
                continue
            for k, what, b in (('P', 'prefix', s.b0), ('V', 'value', s.b1), ('C', 'children', s.b2)):
                good = equal_pos(st, f[k][0], b) and equal_pos(st, f[k][1], b)
                verdict(rep, rule, fn, st, good, '%s:%s of the node' % (name, what), 'the %s of the node is not where it is stored\nfound    %s with header %s\nexpected %s' % (
                    what, show(f[k][1]), show(f[k][0]), show(b)))
            if pair:
                verdict(rep, rule, fn, st, same_rest(st, rest, BYTES, s.end), name + ':rest', 'the rest does not begin behind the node\nfound    %s\nexpected %s' % (
                    show(rest), show(drop(BYTES, s.end))))
    fn = run(ctx, 'BorrowedTreeNode', 'bytes_len', ['B'])
    if fn is None or isinstance(fn, str):
        return rep.undecided(rule, 'BorrowedTreeNode::bytes_len', fn or 'not found')
    rep.analysed |= fn.eng.analysed
    n = I(3)
    st = State()
    f = ctx.fields('BorrowedTreeNode')
    for h in (f.index(x) for x in rm.NODE_SLOTS.values() if x in f):
        n = add(n, hlen(st, project(project(fn.abs[0], ('f', h)), ('f', 0))))
    for o in fn.outs:
        v = o.st.pure(o.val) if o.kind == 'return' else None
        if v is not None and linear.Domain(o.st).equal(v, n):
            rep.ok(rule, where(fn.body), 'length of a stored node')
        elif v is not None and precise(o.st) and not contains(v, lambda t: t[0] == 't' and t[1] not in ('lin', 'hlen', 'fld')):
            rep.bad(rule, where(fn.body), 'bytes_len', 'length of a stored node\nfound    %s\nexpected %s' % (show(v), show(n)))
        else:
            rep.undecided(rule, where(fn.body), 'length %s' % (show(v) if v else o.kind))


# ---- what is built on it -------------------------------------------------------------------------

def wf(x):
    return ('t', 'wf', x)


def read_wf(eng, st, v, call):
    x = as_seq(st.pure(v[0]))
    pair = call.key.endswith('read_one')
    r = []
    for s, e in sm.fork_bool(st, eq0(length(x))):
        if e:
            r.append((s, NONE))
            continue
        for s2, k in sm.fork_bool(s, wf(x)):
            n = bn(x)
            r.append((s2, some(tup(n, drop(x, blen(n))) if pair else n) if k else NONE))
    return r


WF = dict(rm.R)
WF['BorrowedTreeNode::read'] = WF['BorrowedTreeNode::read_one'] = read_wf
WF['BorrowedTreeNode::bytes_len'] = lambda eng, st, v, call: blen(st.pure(v[0])) if is_t(st.pure(v[0]), 'bn') else None


def paths(rep, rule, fn, kinds=('return',)):
    for o in fn.outs:
        if o.kind == 'panic':
            if sure(fn.eng, o.st):
                rep.bad(rule, where(fn.body), fn.body.name + ':panic', 'panics\npath    %s' % fact_str(o.st.pc))
            else:
                rep.undecided(rule, where(fn.body), 'possible panic')
        elif o.kind == 'return' and not any(e[0] == 'err' for e in o.st.events):
            yield o


def is_ok(v):
    return v[0] == 'adt' and v[1] == RESULT and v[2] == 0


def is_err(v):
    return v[0] == 'adt' and v[1] == RESULT and v[2] == 1


def root(ctx, rep):
    """a root block is one node and nothing behind it"""
    rule = 'decoding a root block'
    fn = get(ctx, rep, rule, 'TreeNode', 'deserialize', ['=bytes'], WF, 'wf')
    if fn:
        w = where(fn.body)
        for o in paths(rep, rule, fn):
            st, v = o.st, o.st.pure(o.val)
            e, k = st.decide(eq0(length(BYTES))), st.decide(wf(BYTES))
            r = st.decide(eq0(length(drop(BYTES, blen(bn(BYTES))))))
            good = e == 0 and k == 1 and r == 1
            failed = e == 1 or k == 0 or r == 0
            if is_err(v):
                if failed:
                    rep.ok(rule, w, 'an undecodable block is an error')
                elif precise(st) and good:
                    rep.bad(rule, w, 'deserialize:rejects', 'a root block with one node is rejected\npath    %s' % fact_str(st.pc))
                else:
                    rep.undecided(rule, w, 'error without a reason: ' + fact_str(st.pc))
            elif is_ok(v):
                n = v[3][0]
                same = n == bn(BYTES) or is_t(n, 'bn') and n[2] == BYTES or unwrapped(fn, st, n) == bn(BYTES)
                if good and same:
                    rep.ok(rule, w, 'the node of the block')
                elif not same:
                    rep.undecided(rule, w, 'result ' + show(n)[:300])
                elif precise(st):
                    rep.bad(rule, w, 'deserialize:accepts', 'a block that is not exactly one node is accepted\npath    %s' % fact_str(st.pc))
                else:
                    rep.undecided(rule, w, 'result without a reason')
            else:
                rep.undecided(rule, w, 'result ' + show(v)[:300])


def unwrapped(fn, st, v):
    return rm.undet(v) if hasattr(rm, 'undet') else v


def children(ctx, rep):
    """a block of children is a record size, and nodes up to the end of the data"""
    rule = 'decoding a block of children'
    fn = get(ctx, rep, rule, 'BorrowedTreeNodeIter', 'load', ['=bytes', '=store'], WF, 'wf')
    if not fn:
        return
    w = where(fn.body)
    data = stored(drop(BYTES, ONE))
    # the loop that looks at all nodes
    pos = {}
    for l in fn.eng.loops.values():
        for s, i in l['init'].items():
            if i == data and l['iters'] and all(it['final'].get(s) == drop(s, blen(bn(s))) and it['st'].decide(wf(s)) == 1 for it in l['iters']):
                pos[s] = l
    f = ctx.fields('BorrowedTreeNodeIter')
    for o in paths(rep, rule, fn):
        st, v = o.st, o.st.pure(o.val)
        e = st.decide(eq0(length(BYTES)))
        if is_ok(v) and v[3][0] == NONE:
            if e == 1:
                rep.ok(rule, w, 'no id, no children')
            elif precise(st):
                reads = any(x[0] == 'op' and x[1] == 'read' for x in st.events)
                if reads and st.decide(eq0(length(data))) != 1 and e == 0 or e == 0 and not reads:
                    rep.bad(rule, w, 'load:none', 'the children of a block are dropped\npath    %s' % fact_str(st.pc))
                else:
                    rep.bad(rule, w, 'load:none', 'a block without nodes is accepted\npath    %s' % fact_str(st.pc))
            else:
                rep.undecided(rule, w, 'no children')
            continue
        reached = [s for s in pos if any(contains(t, lambda y: y == s) for t, _ in st.pc)]
        # the last node of the path ends at the end of the data, all before it were well formed
        last = [s for s in reached if st.decide(wf(s)) == 1 and st.decide(eq0(length(drop(s, blen(bn(s)))))) == 1]
        # nothing left is no reason once a node was read: it is the end of the block
        late = [s for s in reached if st.decide(wf(s)) != 0 and st.decide(eq0(length(s))) == 1
                and any(it['st'].decide(eq0(length(it['final'][s]))) != 0 for it in pos[s]['iters']) and when(pos[s], st) != 'first']
        badnode = [s for s in reached if st.decide(wf(s)) == 0 or st.decide(eq0(length(s))) == 1 and s not in late]
        first_bad = st.decide(wf(data)) == 0 or st.decide(eq0(length(data))) == 1
        # a loop that looks before it reads ends at the end of the data
        ended = [s for s in reached if st.decide(eq0(length(s))) == 1]
        nonempty = st.decide(eq0(length(data))) == 0
        if is_err(v):
            if badnode or first_bad:
                rep.ok(rule, w, 'an undecodable block is an error')
            elif precise(st) and (last or late):
                rep.bad(rule, w, 'load:rejects', 'a well formed block is rejected\npath    %s' % fact_str(st.pc))
            else:
                rep.undecided(rule, w, 'error without a reason: ' + fact_str(st.pc))
            continue
        if not (is_ok(v) and v[3][0][0] == 'adt' and v[3][0][1] == OPTION and v[3][0][2] == 1 and v[3][0][3][0][0] == 'adt'):
            rep.undecided(rule, w, 'result ' + show(v)[:300])
            continue
        x = v[3][0][3][0][3]
        got = {k: x[f.index(k)] for k in ('data', 'offset', 'record_size') if k in f}
        for k, want in (('data', data), ('offset', ZERO), ('record_size', B0)):
            if k not in got or got[k] == want:
                rep.ok(rule, w, k + ' of the block')
            elif precise(st) and not contains(got[k], lambda y: y[0] == 'sym' and y != BYTES):
                rep.bad(rule, w, 'load:' + k, '%s of the block\nfound    %s\nexpected %s' % (k, show(got[k]), show(want)))
            else:
                rep.undecided(rule, w, '%s: %s' % (k, show(got[k])))
        if e != 0:
            rep.undecided(rule, w, 'whether there is an id')
        elif last or ended and (nonempty or any(when(pos[s], st) == 'later' for s in ended)):
            rep.ok(rule, w, 'every node of an accepted block is well formed up to the end of the data')
        elif precise(st) and not [s for s in st_syms(st) if s not in pos and s not in (BYTES, STORE)]:
            rep.bad(rule, w, 'load:unchecked', 'a block is accepted without all its nodes being well formed up to the end of the data\npath    %s' % fact_str(st.pc))
        else:
            rep.undecided(rule, w, 'accepted block: ' + fact_str(st.pc))
    errors.check(rep, rule, fn.body, fn.eng, fn.outs)


def st_syms(st):
    r = set()

    def see(t):
        if t[0] == 'sym':
            r.add(t)
        return False
    for t, _ in st.pc:
        contains(t, see)
    return r


def deser(eng, st, v, call):
    x = as_seq(st.pure(v[0]))
    return [(s, ok(bn(x)) if k else err(('t', 'newerr'))) for s, k in sm.fork_bool(st, wf(x))]


def load(ctx, rep):
    """loading a tree: the root block is read and decoded"""
    rule = 'loading a tree'
    m = dict(rm.R)
    m['TreeNode::deserialize'] = deser
    bs = ctx.method('RadixTree', 'try_load', None, True)
    if len(bs) != 1:
        return rep.undecided(rule, 'RadixTree::try_load', 'not found')
    fn = get(ctx, rep, rule, 'RadixTree', 'try_load', ['=store', '=opt'], m, 'wf')
    if not fn:
        return
    w = where(fn.body)
    opt = ('sym', 'opt')
    id_ = project(project(opt, ('v', 1)), ('f', 0))
    for o in paths(rep, rule, fn):
        st, v = o.st, o.st.pure(o.val)
        d = st.decide(discr(opt))
        reads = [e for e in st.events if e[0] == 'op' and e[1] == 'read']
        if d == 0:
            good = is_ok(v) and not reads and empty_tree(ctx, fn, st, v[3][0])
            if good:
                rep.ok(rule, w, 'no id is the empty tree')
            elif precise(st) and (is_err(v) or reads):
                rep.bad(rule, w, 'try_load:none', 'loading without an id\nfound    %s' % show(v))
            else:
                rep.undecided(rule, w, 'no id: ' + show(v)[:300])
            continue
        if d != 1 or len(reads) != 1:
            rep.undecided(rule, w, 'reads %d' % len(reads))
            continue
        got = reads[0][2][0]
        data = stored(got)
        if got not in (id_, ('t', 'bytesof', id_)):
            rep.undecided(rule, w, 'reads ' + show(got))
            continue
        k = st.decide(wf(data))
        if is_err(v) and k == 0 or is_ok(v) and k == 1 and ctx.tree_node(v[3][0]) in (bn(data),):
            s = project(v[3][0], ('f', ctx.fields('RadixTree').index('store'))) if is_ok(v) else STORE
            if s == STORE:
                rep.ok(rule, w, 'the decoded root with its store, or an error')
            else:
                rep.undecided(rule, w, 'store ' + show(s))
        elif precise(st) and (is_ok(v) and k == 0 or is_err(v) and k == 1):
            rep.bad(rule, w, 'try_load', 'an undecodable root is accepted or a decodable one rejected\nfound    %s\npath    %s' % (show(v), fact_str(st.pc)))
        else:
            rep.undecided(rule, w, 'result ' + show(v)[:300])
    errors.check(rep, rule, fn.body, fn.eng, fn.outs)


def empty_tree(ctx, fn, st, v):
    n = ctx.tree_node(v)
    al = rm.Alpha(fn.eng, st)
    n = st.pure(al.value(n))
    return nP(n) == EMPTY and nV(n) == NONE and nC(n) == EMPTY


# ---- writing ---------------------------------------------------------------------------------------

T0 = ('sym', 't0')
WRITE_OPS = {'cat', 'unit', 'take', 'drop', 'len', 'hb', 'wid', 'idb', 'dab', 'serall', 'recsize', 'kids', 'fld', 'lin', 'idx', 'isid', 'hlen', 'ser', 'eq0', 'lt0', 'eq', 'cast', 'mod', 'min', 'and', 'rev'}


def written_slot(st, b, data, ident, n, ask):
    """what is written for one slot: header and id, header and data, or the id of a block with the data"""
    k = st.decide(isid(b))
    if k is None:
        ask.append(isid(b))
        return None
    if k:
        return cat(unit(b), ident)
    c = st.decide(lt(length(data), I(128)))
    if c is None:
        ask.append(lt(length(data), I(128)))
        return None
    if c:
        return cat(unit(b), data)
    w = ('t', 'wid', data)
    return cat(unit(rm.hb(1, add(I(n), length(w)))), take(data, I(n)), w)


def clean_written(v):
    return not contains(v, lambda x: x[0] == 'ref' or x[0] == 'sym' and x not in (T0, ('sym', 'self'), STORE) or x[0] == 't' and x[1] not in WRITE_OPS)


def id_limit(st):
    """the path is only taken for ids that are too long for a header"""
    d = linear.Domain(st)
    for t, v in st.pc:
        if is_t(t, 'lt0') and v == 0 and contains(t, lambda x: is_t(x, 'wid')):
            for x in wids(t):
                if d.ge0(sub(length(x), I(126))):
                    return True
    return False


def wids(t):
    r = []
    contains(t, lambda x: r.append(x) and False if is_t(x, 'wid') else False)
    return r


def same_bytes(st, a, b):
    if a == b:
        return True
    x, y = parts(a), parts(b)
    x = [p for p in x if not (p[0] != 't' or p[1] != 'unit') or st.decide(eq0(length(p))) != 1]
    y = [p for p in y if not (p[0] != 't' or p[1] != 'unit') or st.decide(eq0(length(p))) != 1]
    return len(x) == len(y) and all(same_part(st, p, q) for p, q in zip(x, y))


def same_part(st, p, q):
    if p == q:
        return True
    d = linear.Domain(st)
    if is_t(p, 'unit') and is_t(q, 'unit'):
        a, b = p[2], q[2]
        if is_t(a, 'hb') and is_t(b, 'hb') and a[2] == b[2]:
            return d.equal(a[3], b[3])
        for h, c in ((a, b), (b, a)):
            # a header made again from the length of the data
            if is_t(h, 'hb') and h[2] == ZERO and st.decide(isid(c)) == 0:
                return h[3] == hlen(st, c) or is_t(h[3], 'len') and is_t(h[3][2], 'dab') and h[3][2][3] == c
        return d.equal(a, b)
    # the first byte, or the first bytes of what is long enough
    for u, v in ((p, q), (q, p)):
        if is_t(u, 'take') and u[3] == ONE and is_t(v, 'unit') and v[2] == index(u[2], ZERO):
            return True
    return False


def parts(v):
    if v == EMPTY:
        return []
    return list(v[2:]) if is_t(v, 'cat') else [v]


def cat_all(xs):
    r = EMPTY
    for x in xs:
        r = cat(r, x)
    return r


def slots_raw(fn, x, st):
    """{part: (header byte, data, id bytes, raw slot)}"""
    from layer1 import fact_bytes
    r = {}
    for i, (h, k) in fn.eng.slots_of(x).items():
        b = project(project(x, ('f', h)), ('f', 0))
        u = project(x, ('f', i))
        r[k] = (b, u)
    return r


def blob(ctx, rep):
    rule = 'writing one part of a node'
    for n in (0, 1):
        ctx.cache.pop(('l1', 'OwnedBlobRef', 'serialize', ('O', '&mut =t0', str(I(n)), '=store'), None), None)
        fn = run(ctx, 'OwnedBlobRef', 'serialize', ['O', '&mut =t0', I(n), '=store'])
        if fn is None or isinstance(fn, str):
            rep.undecided(rule, 'OwnedBlobRef::serialize', fn or 'not found')
            return
        rep.analysed |= fn.eng.analysed
        for o in fn.outs:
            written(rep, rule, fn, o, o.st, [('P' if n else 'V', n)], 'blob', 0)
        errors.check(rep, rule, fn.body, fn.eng, fn.outs)


def node_loops(rep, rule, fn):
    """{symbol: what it is when the loop over all children has ended}"""
    r, iters_ = {}, {}
    for l in fn.eng.loops.values():
        its = [s for s in l['init'] if l['iters'] and all(it['final'].get(s) == drop(s, ONE) for it in l['iters'])]
        for it in its:
            kids = l['init'][it]
            head = index(it, ZERO)
            ser = ('t', 'ser', head)
            for s, i in l['init'].items():
                if i == EMPTY and all(x['final'].get(s) == cat(s, ser) for x in l['iters']):
                    r[s] = ('t', 'serall', kids)
                    iters_[s] = it
                elif i == ZERO:
                    good = True
                    for x in l['iters']:
                        good = good and record_step(rep, rule, fn, x['st'], s, x['final'].get(s), length(ser))
                    if good:
                        r[s] = ('t', 'recsize', kids)
                        iters_[s] = it
    return r, iters_


def record_step(rep, rule, fn, st, s, f, n):
    """one round: no length yet, the same length, or another length: then it is one that is not written"""
    w = where(fn.body)
    z, same = st.decide(eq0(s)), st.decide(eq(s, n))
    if same is None:
        same = st.decide(eq0(sub(s, n)))
    big = is_int(f) and f[1] >= 256
    if f is None or z is None:
        rep.undecided(rule, w, 'record size')
        return False
    if z == 1:
        good = f == n
    elif same == 1:
        good = f in (s, n)
    elif same == 0:
        good = big
    else:
        good = big and None
    if good:
        rep.ok(rule, w, 'record size in one round')
        return True
    # what is wrong with it, if anything, is found by record_sizes
    rep.undecided(rule, w, 'record size becomes ' + show(f))
    return False


LENGTHS = [[4], [5], [254], [255], [256], [300], [4, 4], [4, 5], [5, 4], [4, 5, 5], [4, 5, 4], [4, 4, 5], [256, 256], [256, 4], [4, 256],
           [255, 255], [4, 260, 4], [4, 4, 4]]


def record_sizes(rep, rule, fn):
    """the rounds of the loop over the children, taken for given lengths of the children, and the byte that is written then"""
    w = where(fn.body)
    for l in fn.eng.loops.values():
        its = [s for s in l['init'] if l['iters'] and all(it['final'].get(s) == drop(s, ONE) for it in l['iters'])]
        for it in its:
            ser = ('t', 'ser', index(it, ZERO))
            n = length(ser)
            acc = [s for s, i in l['init'].items() if i == EMPTY and all(x['final'].get(s) == cat(s, ser) for x in l['iters'])]
            free = lambda v: not contains(v, lambda y: y[0] == 'sym')
            init = {s: i for s, i in l['init'].items() if s not in its and s not in acc and free(i)}
            for lens in LENGTHS:
                states = [init]
                for k in lens:
                    nxt = []
                    for cur in states:
                        m = lambda y: cur.get(y) if y in cur else I(k) if y == n else None
                        for x in l['iters']:
                            if decided(x['st'].pc, m, list(cur) + [n]) == 0:
                                continue
                            new = {s: substitute(x['final'].get(s, s), m) for s in cur}
                            nxt.append({s: v for s, v in new.items() if free(v)})
                    states = nxt
                    if len(states) != 1:
                        break
                if len(states) != 1:
                    continue
                cur = states[0]
                m = lambda y: cur.get(y)
                want = lens[0] if len(set(lens)) == 1 and lens[0] < 256 else 0
                for o in fn.outs:
                    if o.kind == 'panic' and precise(o.st) and not id_limit(o.st) and decided(o.st.pc, m, list(cur)) == 1 \
                            and any(contains(t, lambda y: y in cur) for t, _ in o.st.pc):
                        rep.bad(rule, w, 'serialize:record size', 'writing children of the lengths %s panics\npath     %s' % (lens, fact_str(o.st.pc)))
                    if o.kind != 'return' or any(e[0] == 'err' for e in o.st.events) or not precise(o.st):
                        continue
                    ps = parts(o.st.pure(o.st.mem[fn.muts[0][0]]))
                    at = [j for j, p in enumerate(ps) if is_t(p, 'wid') and j and any(contains(p, lambda y: y == a) for a in acc)]
                    if len(at) != 1 or not is_t(ps[at[0] - 1], 'unit') or decided(o.st.pc, m, list(cur)) != 1:
                        continue
                    b = substitute(ps[at[0] - 1][2], m)
                    if not is_int(b):
                        continue
                    if b[1] == want:
                        rep.ok(rule, w, 'children of the lengths %s' % lens)
                    else:
                        rep.bad(rule, w, 'serialize:record size', 'for children of the lengths %s the record size %d is written\nexpected %d\npath     %s' % (
                            lens, b[1], want, fact_str(o.st.pc)))


def decided(pc, m, syms):
    """1: what a path demands of the symbols holds under m, 0: it does not, None: unknown"""
    r = 1
    for t, v in pc:
        if contains(t, lambda y: y in syms):
            t = substitute(t, m)
            if is_int(t) and t[1] != v:
                return 0
            if not is_int(t):
                r = None
    return r


def node_written(ctx, rep):
    rule = 'writing a node'
    fn = run(ctx, 'TreeNode', 'serialize', ['T', '&mut =t0', '=store'])
    if fn is None or isinstance(fn, str):
        return rep.undecided(rule, 'TreeNode::serialize', fn or 'not found')
    rep.analysed |= fn.eng.analysed
    fn.loopmap, fn.loopits = node_loops(rep, 'the record size is the common length of the children', fn)
    record_sizes(rep, 'the record size is the common length of the children', fn)
    for o in fn.outs:
        written(rep, rule, fn, o, o.st, [('P', 1), ('V', 0), ('C', 1)], 'node', 0)
    errors.check(rep, rule, fn.body, fn.eng, fn.outs)


def written(rep, rule, fn, o, st, want, key, depth):
    w = where(fn.body)
    if any(e[0] == 'err' for e in st.events):
        return
    if o.kind == 'panic':
        if id_limit(st):
            rep.ok(rule, w, 'ids of more than 126 bytes are outside the format')
        elif sure(fn.eng, st):
            rep.bad(rule, w, key + ':panic', 'writing panics\npath    %s' % fact_str(st.pc))
        else:
            rep.undecided(rule, w, 'possible panic: ' + fact_str(st.pc))
        return
    if o.kind != 'return':
        return rep.undecided(rule, w, o.kind)
    x = fn.abs[0]
    ask, exp = [], [T0]
    names = slots_raw(fn, x, st)
    one = next(iter(names.values())) if len(names) == 1 else None
    for k, n in want:
        b, u = names.get(k) or one or (None, None)
        if b is None:
            return rep.undecided(rule, w, 'slots of ' + show(x))
        if k == 'C':
            e = written_children(fn, st, b, u, ask)
        else:
            e = written_slot(st, b, project_bytes(u, b, 0), project_bytes(u, b, 1), n, ask)
        if ask:
            if depth > 8:
                return rep.undecided(rule, w, 'too many cases')
            from layer1 import split
            for s in split(st, ask[0]):
                written(rep, rule, fn, o, s, want, key, depth + 1)
            return
        if e is None:
            lm = getattr(fn, 'loopmap', {})
            got = substitute(st.pure(st.mem[fn.muts[0][0]]), lambda y: lm.get(y) if y[0] == 'sym' else None)
            data = wids(got)
            kids = project(u, ('k',)) if u is not None else None
            if k == 'C' and data and all(clean_written(x) and x[2] != ('t', 'serall', kids) for x in data) and sure(fn.eng, st, lm):
                rep.bad(rule, w, key + ':children', 'the block written for the children is not that of the children\nfound    %s\nexpected %s\npath     %s' % (
                    ', '.join(show(x[2]) for x in data), show(('t', 'serall', kids)), fact_str(st.pc)))
                return
            return rep.undecided(rule, w, 'children')
        exp.append(e)
    exp = st.pure(cat_all(exp))
    got = st.pure(st.mem[fn.muts[0][0]])
    lm = getattr(fn, 'loopmap', {})
    got = substitute(got, lambda y: lm.get(y) if y[0] == 'sym' else None)
    unfinished = [it for s, it in getattr(fn, 'loopits', {}).items() if contains(st.mem[fn.muts[0][0]], lambda y: y == s) and st.decide(eq0(length(it))) != 1]
    s2 = st.copy()
    for t, v in st.pc:
        t2 = substitute(t, lambda y: lm.get(y) if y[0] == 'sym' else None)
        if t2 != t:
            s2.assume(t2, v)
    if unfinished:
        return rep.undecided(rule, w, 'a loop over the children ends early')
    if same_bytes(s2, got, exp):
        rep.ok(rule, w, 'bytes of a ' + key)
    elif sure(fn.eng, st, lm) and clean_written(got):
        rep.bad(rule, w, key + ':bytes', 'what is written for a %s\nfound    %s\nexpected %s\npath     %s' % (key, show(got), show(exp), fact_str(st.pc)))
    else:
        rep.undecided(rule, w, 'bytes %s / %s' % (show(got), show(exp)))


def project_bytes(u, b, k):
    return ('t', 'idb' if k else 'dab', u, b)


def written_children(fn, st, b, u, ask):
    k = st.decide(isid(b))
    if k is None:
        ask.append(isid(b))
        return None
    if k:
        return cat(unit(b), project_bytes(u, b, 1))
    kids = project(u, ('k',))
    e = st.decide(eq0(length(kids)))
    if e is None:
        ask.append(eq0(length(kids)))
        return None
    if e:
        return unit(I(128))
    rs = ('t', 'recsize', kids)
    small = None
    for s, v in getattr(fn, 'loopmap', {}).items():
        if is_t(v, 'recsize'):
            d = st.decide(lt(s, I(256)))
            small = d if d is not None else small
    if small is None:
        ask += [lt(s, I(256)) for s, v in getattr(fn, 'loopmap', {}).items() if is_t(v, 'recsize') and contains(st.mem[fn.muts[0][0]], lambda y: y == s)][:1]
        return None
    all_ = ('t', 'serall', kids)
    i = ('t', 'wid', all_)
    return cat(unit(rm.hb(1, add(length(i), ONE))), cat(unit(rs if small else ZERO), i))
