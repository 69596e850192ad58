"""A detached tree holds nothing of a store (C15).

The nodes of a tree carry the type of their store. A value of type TreeNode<Detached> can only be made by typed code from other
values of that type and from bytes, except where the store type changes: by a transmute, or through the untyped carriers (raw slots
and references to them) that are put into a typed node again. Both are enumerated here. What the functions that change the type do is
decided by the refinement rules of the node layer (their contract is det(x): everything is loaded)."""
from common import *
import errors

JOINS = {'FindResult', 'OuterJoin'}


def local(ctx, t):
    return t['k'] == 'adt' and t['id'] in ctx.prog.adts


def stores_of(ctx, i, depth=0):
    """the store types that occur in a type"""
    t = ctx.prog.ty(i)
    k = t['k']
    r = set()
    if depth > 12:
        return r
    if k in ('ref', 'ptr'):
        return stores_of(ctx, t['to'], depth + 1)
    if k in ('slice', 'array'):
        return stores_of(ctx, t['of'], depth + 1)
    if k == 'adt' and local(ctx, t):
        name = t['path'].split('::')[-1]
        if name in JOINS:
            for a in t['args']:
                r |= stores_of(ctx, a, depth + 1)
        elif t['args']:
            r.add(ctx.prog.tys_s(t['args'][0]))
        return r
    if k in ('adt', 'tuple'):
        for a in t.get('args', []):
            r |= stores_of(ctx, a, depth + 1)
    return r


def detached(ctx):
    return ctx.adt('Detached')['path']


def carriers(ctx):
    """types without a store parameter in which the content of a slot travels"""
    if 'carriers' not in ctx.cache:
        r = set()
        for a in ctx.prog.adts.values():
            if not generic(a) and a['path'].startswith('node::'):
                for v in a['variants']:
                    for f in v[1]:
                        s = ctx.prog.tys_s(f[1])
                        if 'CompactOwnedBlob' in s or 'Header' in s and a['path'].split('::')[-1] != 'Header':
                            r.add(a['id'])
                if any('ManuallyDrop' in ctx.prog.tys_s(f[1]) for v in a['variants'] for f in v[1]):
                    r.add(a['id'])
        ctx.cache['carriers'] = r
    return ctx.cache['carriers']


def generic(a):
    return any(f[0] == 'p' or 'PhantomData' in f for v in a['variants'] for f in v[1])


def carries(ctx, i, depth=0):
    t = ctx.prog.ty(i)
    if depth > 12:
        return False
    if t['k'] in ('ref', 'ptr'):
        return carries(ctx, t['to'], depth + 1)
    if t['k'] == 'adt' and local(ctx, t):
        return t['id'] in carriers(ctx)
    if t['k'] in ('adt', 'tuple'):
        return any(carries(ctx, a, depth + 1) for a in t.get('args', []))
    return False


def ops_of(rv):
    k = rv[0]
    if k in ('use',):
        return [rv[1]]
    if k == 'cast':
        return [rv[2]]
    if k == 'agg':
        return rv[3]
    if k == 'ref':
        return [('c', rv[2])]
    if k == 'rawptr':
        return [('c', rv[2])]
    return []


def place(o):
    return o[1] if o[0] in ('c', 'm') else None


class Flow:
    """where the carriers of a function come from, by local variable"""

    def __init__(self, ctx, body):
        self.ctx, self.body = ctx, body
        self.ty = [l[0] for l in body.locals]
        self.st = [frozenset(stores_of(ctx, t)) for t in self.ty]
        self.ca = [carries(ctx, t) and not s for t, s in zip(self.ty, self.st)]
        self.orig = {i: set() for i, c in enumerate(self.ca) if c}
        for i in range(1, body.argc + 1):
            if self.ca[i]:
                self.orig[i] = {'the caller'}
        for _ in range(30):
            if not self.step():
                break

    def source(self, o):
        p = place(o)
        if p is None:
            return set()
        if self.st[p[0]]:
            return set(self.st[p[0]])
        return set(self.orig.get(p[0], ()))

    def step(self):
        ch = False
        for c, stm, t in self.body.blocks:
            for s in stm:
                if s[0] == '=' and self.ca[s[1][0]]:
                    new = set().union(*[self.source(o) for o in ops_of(s[2])], set())
                    ch |= self.add(s[1][0], new)
            if t[0] == 'call' and self.ca[t[3][0]]:
                new = set().union(*[self.source(o) for o in t[2] if self.relevant(o)], set())
                ch |= self.add(t[3][0], new)
        return ch

    def relevant(self, o):
        p = place(o)
        return p is not None and (self.ca[p[0]] or bool(self.st[p[0]]))

    def add(self, i, new):
        if new <= self.orig[i]:
            return False
        self.orig[i] |= new
        return True


def store_types(ctx, rep):
    """the store type of a node only changes where everything is loaded, or from the type that has no store"""
    rule = 'content of one store is not put into a node of another'
    none = detached(ctx)
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.path):
        if not b.path.startswith('node::') and not b.path.startswith('<node::') and 'RadixTree' not in b.path:
            continue
        f = Flow(ctx, b)
        rep.analysed.add(b.id)
        for c, stm, t in b.blocks:
            if c:
                continue
            for s in stm:
                if s[0] != '=':
                    continue
                rv = s[2]
                if rv[0] == 'cast' and place(rv[2]) is not None:
                    x, y = stores_of(ctx, rv[4]), stores_of(ctx, rv[3])
                    if x and y and x != y:
                        change(ctx, rep, b, x, y, none)
                elif rv[0] == 'agg':
                    y = stores_of(ctx, f.ty[s[1][0]]) if not s[1][1] else set()
                    if y:
                        for o in rv[3]:
                            if place(o) and f.ca[place(o)[0]]:
                                into(rep, rule, b, f.source(o), y, none)
                elif f.st[s[1][0]] and s[1][1]:
                    for o in ops_of(rv):
                        if place(o) and f.ca[place(o)[0]]:
                            into(rep, rule, b, f.source(o), f.st[s[1][0]], none)
            if t[0] == 'call':
                typed = set()
                for o in t[2]:
                    if place(o):
                        typed |= set(f.st[place(o)[0]])
                dest = set(f.st[t[3][0]])
                for o in t[2]:
                    if place(o) and f.ca[place(o)[0]] and (typed or dest):
                        into(rep, rule, b, f.source(o), typed or dest, none, called(t))


def called(t):
    fn = t[1][1].get('fn') if t[1][0] == 'k' else None
    return fn['path'].split('::')[-1] if fn else 'a function'


def into(rep, rule, b, src, dst, none, what='a node'):
    w = where(b)
    if not src - {none, 'the caller'} - set(dst):
        rep.ok(rule, w, 'what is passed to %s comes from nodes of the same store, from memory or from the caller' % what)
    elif len(src) == 1 and len(dst) == 1:
        rep.bad(rule, w, '%s:%s' % (b.name, what), 'raw content of a node of store %s is passed to %s of a node of store %s' % (sorted(src), what, sorted(dst)))
    else:
        rep.undecided(rule, w, '%s from %s in %s' % (what, sorted(src), sorted(dst)))


# what a function that changes the store type has to be, and the rules that decide it
LOADS = {'detached'}


def change(ctx, rep, b, x, y, none):
    rule = 'the store type of a node is only changed for data in memory'
    w = where(b)
    if x == {none}:
        rep.ok(rule, w, 'from a tree in memory')
        return
    loaded = [r for r in rep.rules.values() if any(w == c for c in r['constructs'])]
    n = sum(r['discharged'] for r in loaded)
    if b.name in LOADS and loaded:
        rep.ok(rule, w, 'the function is compared with its contract: everything is loaded')
    elif b.name in LOADS or loaded:
        rep.undecided(rule, w, 'changes %s to %s' % (sorted(x), sorted(y)))
    else:
        rep.undecided(rule, w, 'changes %s to %s in a function without contract' % (sorted(x), sorted(y)))


def det(x):
    return ('t', 'det', x)


def whole(ctx, rep):
    rule = 'detaching a tree loads all of it'
    body = ctx.method('RadixTree', 'try_detached')
    w = where(body)
    m = dict(nm.M)
    m['TreeNode::detached'] = lambda eng, st, v, call: nm.fallible(eng, st, call, 'detach', [v[0], v[1]], det(st.pure(v[0])))
    m['TreeNodeRef::detached'] = m['TreeNode::detached']
    eng = ctx.engine(m)
    st = State()
    r = ('L', 'arg', 0)
    a, s = ('sym', 'a'), ('sym', 's')
    st.mem[r] = ctx.tree(a, s)
    outs = eng.exec_body(st, body, [('ref', r, ())])
    rep.analysed |= eng.analysed
    none = ('adt', ctx.adt('Detached')['id'], 0, ())
    for o in outs:
        st = o.st
        if o.kind != 'return':
            rep.undecided(rule, w, 'path ends with ' + o.kind)
            continue
        v = st.pure(o.val)
        if v[0] == 'adt' and v[1] == RESULT and v[2] == 0:
            n = ctx.tree_node(v[3][0])
            if n == det(a):
                rep.ok(rule, w, 'the loaded root node')
            elif precise(st) and not contains(n, lambda x: x == det(a)) and clean(n, (a, s)) and n != ctx.tree_node(v[3][0]):
                rep.bad(rule, w, 'try_detached', 'result %s' % show(n))
            elif precise(st) and (n == a or is_t(n, 'node')):
                rep.bad(rule, w, 'try_detached', 'the detached tree is %s, not the loaded one' % show(n))
            else:
                rep.undecided(rule, w, 'result ' + show(n)[:300])
        elif not any(e[0] == 'err' for e in st.events):
            rep.undecided(rule, w, 'result ' + show(v)[:300])
        for e in st.events:
            if e[0] == 'op' and e[1] == 'detach' and e[2][1] != s:
                rep.undecided(rule, w, 'reads from ' + show(e[2][1]))
    errors.check(rep, rule, body, eng, outs)
