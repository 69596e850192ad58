"""No public operation runs into code that is not implemented (C31).

Every abstract path that ends in a panic has to be impossible: its facts contradict what holds for every node (a stored prefix has an
id with its first byte in front, the children of a stored node are an id), the precondition of an internal function, or the format.
The store is only asked for what a header says is an id, so that the store of an in-memory tree, which has no ids, is never asked."""
from common import *
import detach
import format
import layer1
import linear
import rawmodels as rm
import re

ITERATORS = ('BorrowedTreeNodeIter', 'OwnedTreeNodeIter', 'TreeNodeIter')


class Only:
    """a report that keeps only what is said about panics"""

    def __init__(self, rep):
        self.panics_to = rep
        self.analysed = rep.analysed
        self.rules = {}

    def bad(self, rule, where, key, msg):
        if 'panic' in key:
            self.panics_to.bad(rule, where, key, msg)

    def undecided(self, rule, where, why):
        if 'panic' in why:
            self.panics_to.undecided(rule, where, why)

    def ok(self, *a, **k):
        pass

    count = rule = ok


def header_facts(fn, st):
    """[(node, slot, header byte)] of the headers that the path asks about"""
    f = {'T': fn.ctx.fields('TreeNode'), 'B': fn.ctx.fields('BorrowedTreeNode')}
    r = []

    def see(t):
        if is_t(t, 'isid') or is_t(t, 'hlen'):
            h = t[2]
            if is_t(h, 'fld') and is_t(h[2], 'fld'):
                x = h[2][2]
                k = fn.eng.kind(x)
                if k in f and h[2][3] < len(f[k]):
                    r.append((x, k, f[k][h[2][3]], h))
        return False
    for t, _ in st.pc:
        contains(t, see)
    return r


def impossible(fn, st):
    """why the path cannot happen"""
    for x, k, slot, h in header_facts(fn, st):
        if slot == 'prefix_hdr' and st.decide(isid(h)) == 1 and st.decide(eq0(rm.hlen(st, h))) == 1:
            return 'a stored prefix has an id'
        if k == 'B' and slot == 'children_hdr' and st.decide(isid(h)) == 0:
            return 'the children of a stored node are an id'
    for t, v in st.pc:
        if is_t(t, 'lt0') and v == 1 and contains(t, lambda x: x == ('sym', 'n')) and contains(t, lambda x: is_t(x, 'len') or is_t(x, 'hlen')):
            return 'the prefix is at least as long as the part that is taken off'
    if format.id_limit(st):
        return 'the format has no ids of more than 126 bytes'
    if in_memory_only(fn) and any(st.decide(t) == 1 for t, _ in st.pc if is_t(t, 'isid')):
        return 'nothing of a tree in memory is an id'
    if linear.Domain(st).contradictory():
        return 'the facts contradict each other'
    return None


def in_memory_only(fn):
    """a method of a type that has no store"""
    i = fn.body.impl
    return bool(i and 'self' in i and detach.stores_of(fn.ctx, i['self']) == {detach.detached(fn.ctx)})


isid = rm.isid


def functions(groups):
    def everywhere(ctx, rep):
        only = Only(rep)
        for g in dict.fromkeys(groups):
            try:
                g(ctx, only)
            except Missing as e:
                rep.undecided('panics', str(e), 'not found')
            except Exception as e:
                rep.undecided('panics', getattr(g, '__name__', 'rules'), 'the analysis stopped: %r' % (e,))
        node_layer(ctx, rep)
    return everywhere


def node_layer(ctx, rep):
    rule = 'no function of the node layer panics'
    for k, fn in sorted(((k, f) for k, f in ctx.cache.items() if isinstance(f, layer1.Fn)), key=lambda x: str(x[0])):
        w = where(fn.body)
        asked(rep, fn, k)
        if k[1] in ITERATORS:
            continue        # the rules of the iterators decide it with the invariant of the iterator
        for o in fn.outs:
            if o.kind != 'panic':
                continue
            why = impossible(fn, o.st)
            ev = [e for e in o.st.events if e[0] == 'panic']
            if why:
                rep.ok(rule, w, why)
            elif precise(o.st) and known(o.st):
                rep.bad(rule, w, '%s:panic' % fn.body.name, 'panics: %s\npath %s' % (ev[-1:] and ev[-1][1:], fact_str(o.st.pc)))
            else:
                rep.undecided(rule, w, 'possible panic %s after %s' % (ev[-1:], fact_str(o.st.pc)))
        rep.ok(rule, w, '%d paths' % len(fn.outs))


def known(st):
    """every fact is about the inputs"""
    return not any(contains(t, lambda x: x[0] == 'sym' and ('loop' in x[1] or 'alloc' in x[1])) for t, _ in st.pc)


def asked(rep, fn, k):
    rule = 'the store is only asked for ids'
    w = where(fn.body)
    for o in fn.outs:
        st = o.st
        for e in st.events:
            if e[0] not in ('op', 'err') or e[1] != 'read':
                continue
            x = e[2][0]
            hs = ids_in(x)
            if hs and all(st.decide(isid(h)) == 1 for h in hs):
                if any(st.decide(eq0(rm.hlen(st, h))) == 1 for h in hs):
                    rep.bad(rule, w, fn.body.name + ':none read', 'the store is asked for nothing\nid      %s' % show(x))
                elif all(st.decide(eq0(rm.hlen(st, h))) == 0 for h in hs):
                    rep.ok(rule, w, 'the header says that it is an id')
                elif k[1] == 'Value':
                    rep.ok(rule, w, 'a value that the caller did not remove')
                elif precise(st) and known(st):
                    rep.bad(rule, w, fn.body.name + ':none read', 'the store can be asked for nothing\nid      %s\npath    %s' % (show(x), fact_str(st.pc)))
                else:
                    rep.undecided(rule, w, 'reads ' + show(x)[:200])
            elif hs and precise(st) and any(st.decide(isid(h)) == 0 for h in hs):
                rep.bad(rule, w, fn.body.name + ':data read', 'the store is asked for data of a node as if it were an id\nid      %s' % show(x))
            elif x[0] == 'sym' or not hs:
                pass        # an id that the caller gives
            else:
                rep.undecided(rule, w, 'reads ' + show(x)[:200])


def ids_in(x):
    """headers of the slots whose bytes are in x"""
    r = []

    def see(t):
        if is_t(t, 'idb') or is_t(t, 'dab'):
            r.append(t[3])
        elif is_t(t, 'chunk') and contains(t, lambda y: is_t(y, 'hlen')):
            contains(t, lambda y: is_t(y, 'hlen') and r.append(y[2]) and False)
        return False
    contains(x, see)
    return r


STUB = re.compile(r'::(unimplemented|todo)_')
UNIMPLEMENTED = re.compile(r'not (yet )?implemented')


def unimplemented(ctx, rep):
    """calls of the panic functions with the message of todo! and unimplemented!"""
    rule = 'no reachable function is unimplemented'
    live = reachable(ctx)
    for i in sorted(live):
        b = ctx.prog.bodies[i]
        w = where(b)
        hit = None
        for blk, t in b.calls():
            f = t[1][1].get('fn') if t[1][0] == 'k' else None
            if f and 'panic' in f['path'] and (STUB.search(f['path']) or any(UNIMPLEMENTED.search(s) for s in texts(b, t))):
                hit = t
        if hit:
            rep.bad(rule, w, b.name + ':unimplemented', '%s is not implemented (%s) and can be reached from the public interface' % (w, hit[6]))
        elif not returns(b) and not never(ctx, b):
            rep.bad(rule, w, b.name + ':never returns', '%s always panics and can be reached from the public interface' % w)
        else:
            rep.ok(rule, w, 'implemented')


def returns(b):
    return any(b.blocks[i][2][0] == 'ret' for i in b.reachable())


def never(ctx, b):
    """functions that nobody can or should call: of the store of trees in memory, or with an argument that has no values"""
    none = detach.detached(ctx)
    i = b.impl
    if i and 'self' in i and ctx.prog.ty(i['self']).get('path') == none:
        return True
    if ctx.prog.tys_s(b.locals[0][0]) == '!':
        return True
    return any(empty(ctx, b.locals[k][0]) for k in range(b.argc + 1))


def empty(ctx, i):
    t = ctx.prog.ty(i)
    while t['k'] == 'ref':
        t = ctx.prog.ty(t['to'])
    a = ctx.prog.adts.get(t.get('id')) if t['k'] == 'adt' else None
    if a is not None and not a['variants'] or t['s'] == '!':
        return True
    e = ctx.adt('NoError')['path']
    return t['k'] == 'adt' and t['path'] == e


def texts(b, t):
    out = []

    def see(v):
        if isinstance(v, str):
            out.append(v)
        elif isinstance(v, dict):
            for x in v.values():
                see(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                see(x)
    for a in t[2]:
        see(a)
    for _, stm, tm in b.blocks:
        for s in stm:
            if s[0] == '=':
                see([x for x in s[2] if isinstance(x, (list, tuple, dict))])
        if tm[0] == 'call':
            see(tm[2])
    for p in b.promoted:
        for _, stm, tm in p.blocks:
            see([list(s) for s in stm if s[0] == '='])
    return out


def reachable(ctx):
    """functions that public ones can call, through any implementation of a trait"""
    if 'live' in ctx.cache:
        return ctx.cache['live']
    byname = {}
    for b in ctx.prog.bodies.values():
        byname.setdefault(b.name, []).append(b.id)
    work = [b.id for b in ctx.prog.bodies.values() if b.reach or b.pub or (b.impl or {}).get('trait')]
    live = set()
    while work:
        i = work.pop()
        if i in live or i not in ctx.prog.bodies:
            continue
        live.add(i)
        b = ctx.prog.bodies[i]
        for q in ctx.prog.bodies.values():
            if q.parent == i or q.id.startswith(i + '::{closure'):
                work.append(q.id)
        for blk, t in b.calls():
            f = t[1][1].get('fn') if t[1][0] == 'k' else None
            if not f:
                continue
            ids = {f['id'], (f.get('res') or {}).get('id')}
            for j in ids:
                if j in ctx.prog.bodies:
                    work.append(j)
            if not (f.get('res') or {}).get('id'):
                work += byname.get(f['path'].split('::')[-1], [])
    ctx.cache['live'] = live
    return live
