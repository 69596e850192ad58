"""Persisting a tree (C14): the nodes in memory are replaced only after everything was written; the id is that of the root.

ser(x) are the bytes of node x and wid(d) the id under which the store keeps d; decoding ser(x) gives att(x), the same entries
with everything below the root in the store. That ser(x) is the stored form is what rules/format.py decides."""
from common import *
import errors

SELF, STORE, SYMS = ('sym', 'a'), ('sym', 's'), (('sym', 'a'), ('sym', 's'))


def ser(x):
    return ('t', 'ser', x)


def att(x):
    return ('t', 'att', x)


def buffer(v):
    return as_seq(v)


def serialize(eng, st, v, call):
    """appends the bytes of the node; when it fails the buffer holds some prefix of them"""
    if v[1][0] != 'ref':
        return None
    x = st.pure(v[0])
    old = buffer(st.read(v[1][1:]))
    r = nm.fallible(eng, st, call, 'serialize', [x, v[2]], UNIT)
    for s, res in r:
        new = ser(x) if res[2] == 0 else ('sym', 'partial')
        s.write(v[1][1:], cat(old, new))
    return r


def write(eng, st, v, call):
    x = buffer(st.pure(v[1]))
    return nm.fallible(eng, st, call, 'write', [v[0], x], ('t', 'wid', x))


def deserialize(eng, st, v, call):
    x = buffer(st.pure(v[0]))
    if is_t(x, 'ser'):
        return ok(att(x[2]))
    return [(s, ok(('t', 'decoded', x)) if k else err(('t', 'newerr'))) for s, k in sm.fork_bool(st, ('t', 'wf', x))]


def models():
    m = dict(nm.M)
    m['TreeNode::serialize'] = serialize
    m['BlobStore::write'] = write
    m['TreeNode::deserialize'] = deserialize
    return m


def writes(st):
    return [e for e in st.events if e[0] == 'op' and e[1] == 'write']


def reads_only(o):
    return precise(o.st)


def failed(st):
    return any(e[0] == 'err' for e in st.events)


def reattach(ctx, rep):
    rule = 'reattaching replaces the nodes last and returns the id of the root'
    body = ctx.method('RadixTree', 'try_reattach')
    w = where(body)
    eng = ctx.engine(models())
    st = State()
    r = ('L', 'arg', 0)
    st.mem[r] = ctx.tree(SELF, STORE)
    outs = eng.exec_body(st, body, [('ref', r, ())])
    rep.analysed |= eng.analysed
    rep.count('paths_analysed', len(outs))
    for o in outs:
        st = o.st
        now = st.pure(st.read((r, ())))
        node = ctx.tree_node(now)
        store = project(now, ('f', ctx.fields('RadixTree').index('store')))
        v = st.pure(o.val) if o.kind == 'return' else None
        if o.kind != 'return':
            if failed(st) and sure(eng, st):
                rep.bad(rule, w, 'reattach:panic', 'reattaching panics when a step fails\npath    %s' % fact_str(st.pc))
            else:
                rep.undecided(rule, w, 'path ends with ' + o.kind)
            continue
        if store != STORE:
            rep.undecided(rule, w, 'store ' + show(store))
            continue
        if is_err(v):
            if node == SELF:
                rep.ok(rule, w, 'unchanged when %s fails' % ', '.join(e[1] for e in st.events if e[0] == 'err'))
            elif precise(st):
                rep.bad(rule, w, 'reattach:changed', 'the tree is replaced although %s failed\nnode    %s' % (
                    ', '.join(e[1] for e in st.events if e[0] == 'err') or 'the operation', show(node)))
            else:
                rep.undecided(rule, w, 'node after an error ' + show(node))
            continue
        if not is_ok(v) or failed(st):
            if not failed(st):
                rep.undecided(rule, w, 'result ' + show(v)[:300])
            continue
        ws = writes(st)
        i = v[3][0]
        if is_t(i, 'wid') and ws and i[2] == ser(SELF) and ws[-1][2] == (STORE, ser(SELF)):
            rep.ok(rule, w, 'the id is that of the root block, which is written last')
        elif not ws and precise(st) or clean_id(i) and precise(st):
            rep.bad(rule, w, 'reattach:id', 'the returned id is not that of the root block written last\nid      %s\nwrites  %s' % (
                show(i), ' ; '.join(show(e[2][1]) for e in ws)))
        else:
            rep.undecided(rule, w, 'id ' + show(i)[:300])
        if node == att(SELF):
            rep.ok(rule, w, 'the nodes are those of the written root')
        elif node == SELF or node != SELF and not clean_id(node):
            rep.undecided(rule, w, 'node ' + show(node)[:300])
        elif precise(st):
            rep.bad(rule, w, 'reattach:node', 'the tree is replaced by something else than the written root\nfound   %s' % show(node))
    errors.check(rep, rule, body, eng, outs)


def clean_id(v):
    return not contains(v, lambda x: x[0] == 'sym' and x not in SYMS or x[0] == 't' and x[1] not in (
        'ser', 'att', 'wid', 'cat', 'unit', 'take', 'drop', 'len', 'node', 'nP', 'nV', 'nC', 'lin', 'idx', 'decoded', 'empty'))


def is_ok(v):
    return v[0] == 'adt' and v[1] == RESULT and v[2] == 0


def is_err(v):
    return v[0] == 'adt' and v[1] == RESULT and v[2] == 1


def attached(ctx, rep):
    rule = 'attaching gives the written tree with its store'
    body = ctx.method('RadixTree', 'try_attached')
    w = where(body)
    eng = ctx.engine(models())
    st = State()
    det_ = ctx.tree(SELF, ('adt', ctx.adt('Detached')['id'], 0, ()))
    outs = eng.exec_body(st, body, [det_, STORE])
    rep.analysed |= eng.analysed
    rep.count('paths_analysed', len(outs))
    for o in outs:
        st = o.st
        if o.kind != 'return':
            if failed(st) and sure(eng, st):
                rep.bad(rule, w, 'attached:panic', 'attaching panics when a step fails\npath    %s' % fact_str(st.pc))
            else:
                rep.undecided(rule, w, 'path ends with ' + o.kind)
            continue
        v = st.pure(o.val)
        if is_err(v):
            if failed(st):
                rep.ok(rule, w, 'an error when %s fails' % ', '.join(e[1] for e in st.events if e[0] == 'err'))
            elif precise(st):
                rep.bad(rule, w, 'attached:rejects', 'attaching fails although every step succeeded\npath    %s' % fact_str(st.pc))
            else:
                rep.undecided(rule, w, 'error')
            continue
        if not is_ok(v):
            rep.undecided(rule, w, 'result ' + show(v)[:300])
            continue
        t = v[3][0]
        node, store = ctx.tree_node(t), project(t, ('f', ctx.fields('RadixTree').index('store')))
        if node == att(SELF) and store == STORE:
            rep.ok(rule, w, 'the written nodes with the store they were written to')
        elif failed(st):
            pass
        elif precise(st) and clean_id(node) and store == STORE:
            rep.bad(rule, w, 'attached:node', 'the attached tree is not the written one\nfound   %s' % show(node))
        else:
            rep.undecided(rule, w, 'result ' + show(v)[:300])
    for o in outs:
        for e in o.st.events:
            if e[0] == 'op' and e[1] in ('serialize', 'write'):
                s = e[2][1] if e[1] == 'serialize' else e[2][0]
                if s != STORE:
                    rep.undecided(rule, w, 'writes to ' + show(s))
    errors.check(rep, rule, body, eng, outs)
