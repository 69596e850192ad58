"""The node layer: every function the algorithms rely on does what its contract says (refinement), keeps the header of a
slot in step with what the slot holds, and releases every allocation once.

Bodies are interpreted over raw nodes (headers, slots, stored bytes; lib/rawmodels.py). At the end of every path the raw
nodes are mapped to what they stand for and compared with the contract that rules of the upper layer use.
"""
from common import *
import errors
from linear import lengths_possible, concrete
import rawmodels as rm
from rawmodels import Raw, Alpha, isid, hlen, DEAD, U0, rid, base

STORE = ('sym', 'store')
N = ('sym', 'n')
BYTES = ('sym', 'bytes')
SELF = ('L', 'arg', 0)


class Fn:
    """one function: its runs over raw inputs"""

    def __init__(self, ctx, body, inputs, models=None, facts=None):
        self.ctx, self.body = ctx, body
        self.eng = Raw(ctx, models)
        self.st = State()
        self.args, self.abs, self.muts, self.opts = [], [], [], set()
        for i, k in enumerate(inputs):
            self.input(i, k)
        for t, v in facts(self) if facts else []:
            self.st.assume(t, v)
        self.start = self.st.copy()
        self.outs = self.eng.exec_body(self.st, body, self.args)
        self.outs = [o for o in self.outs if feasible(self, o)]

    def by_value(self, i):
        t = self.body.prog.ty(self.body.locals[i + 1][0]) if hasattr(self.body, 'prog') else self.ctx.prog.ty(self.body.locals[i + 1][0])
        return t['k'] != 'ref'

    def input(self, i, k):
        eng = self.eng
        name = ('self' if i == 0 else 'x%d' % i)
        mut = isinstance(k, str) and k.startswith('&mut ')
        opt = isinstance(k, str) and k.startswith('?')
        if opt:
            k = k[1:]
            self.opts.add(i)
        k = k.replace('&mut ', '') if isinstance(k, str) else k
        if k in ('T', 'B', 'V', 'O', 'S'):
            v = eng.input(name, k)
        elif k in ('RT', 'RB', 'VO', 'VS'):
            # a reference to a node or value: in memory or stored
            x = eng.input(name, k[1])
            v = ('adt', self.ctx.adt('TreeNodeRef' if k[0] == 'R' else 'ValueRef')['id'], 0, (ok(x) if k[1] in 'TO' else err(x),) + ((UNIT,) if k[0] == 'V' else ()))
        elif k == 'OV':
            v = ('adt', self.ctx.adt('OwnedValueRef')['id'], 0, (eng.input(name, 'O'), UNIT))
        elif isinstance(k, str) and k.startswith('='):
            v = ('sym', k[1:])
        else:
            v = k
        if isinstance(k, tuple) and k[0] == 'mut':
            mut, k = True, k[1]
        if callable(k):
            v = k(eng)
        if opt:
            v = some(v)
        if mut:
            r = ('L', 'arg', i)
            self.st.mem[r] = v
            self.muts.append((r, v))
            self.args.append(('ref', r, ()))
        else:
            self.args.append(v)
        self.abs.append(('sym', name))


def feasible(fn, o):
    """the prefix of a node is data or an id, but not none: what is read is checked for that, and nothing sets it"""
    eng, st = fn.eng, o.st
    heads = []
    for t, v in st.pc:
        if v == 1 and is_t(t, 'eq0') and t[2][0] == 't':
            # the length in a header, or that of an id with this header
            if t[2][1] == 'hlen':
                heads.append(t[2][2])
            elif t[2][1] == 'len' and is_t(t[2][2], 'idb'):
                heads.append(t[2][2][3])
    for b in heads:
        if is_t(b, 'fld') and b[3] == 0 and is_t(b[2], 'fld'):
            x, h = b[2][2], b[2][3]
            slots = (eng.slots_of(x) or eng.ptrs_of(x) or {}) if eng.kind(x) in ('T', 'B') else {}
            if any(h2 == h and part == 'P' for h2, part in slots.values()) and not st.assume(isid(b), 0):
                return False
    return True


def run(ctx, owner, name, inputs, trait=None, models=None, pick=None, facts=None):
    k = ('l1', owner, name, tuple(str(i) for i in inputs), trait)
    if k not in ctx.cache:
        bs = ctx.method(owner, name, trait, True)
        if pick:
            bs = [b for b in bs if pick(ctx, b)]
        if len(bs) != 1:
            ctx.cache[k] = None
        else:
            try:
                ctx.cache[k] = Fn(ctx, bs[0], inputs, models, facts)
            except TooComplex as e:
                ctx.cache[k] = str(e)
            except Exception as e:
                ctx.cache[k] = 'the analysis stopped: %r' % e
    return ctx.cache[k]


# ---- loops that map a sequence -----------------------------------------------------------------

def map_loops(fn, st, v):
    """v with what a finished loop over a sequence has collected"""
    for l in fn.eng.loops.values():
        syms = list(l['init'])
        its = [s for s in syms if l['iters'] and all(it['final'].get(s) == drop(s, ONE) for it in l['iters'])]
        if not its:
            continue
        for it in its:
            head = index(it, ZERO)
            sub_ = {}
            for s in syms:
                if s in its:
                    continue
                good = True
                for i in l['iters']:
                    f = i['final'].get(s)
                    if not (is_t(f, 'cat') and len(f) == 4 and f[2] == s and is_t(f[3], 'unit') and rm.undet(f[3][2]) == head):
                        good = False
                if not good and l['iters']:
                    part = selection(fn, l, it, s)
                    if part is not None:
                        sub_[s] = cat(l['init'][s], ('t', 'mapped', l['init'][it], ('str', part)))
                if good and l['iters']:
                    d = any(i['final'][s][3][2] != head for i in l['iters'])
                    whole = l['init'][it]
                    sub_[s] = cat(l['init'][s], ('t', 'detall', whole) if d else whole)
            if st.decide(eq0(length(it))) == 1:
                v = substitute(v, lambda x: sub_.get(x) if x[0] == 'sym' else None)
            elif st.decide(eq0(length(it))) == 0 and not contains(v, lambda x: x == it) and l['init'][it][0] == 'sym':
                for acc in sub_:
                    pc = [(t, k) for t, k in st.pc if contains(t, lambda x: x in (it, acc))]
                    if contains(v, lambda x: x == acc) and l['init'][acc] == EMPTY and \
                            concrete(pc, {length(it): (1,), length(acc): range(0, 256)}):
                        v = substitute(v, lambda x: ('t', 'mapped', l['init'][it], ('str', 'the first elements only, ' + fact_str(tuple(pc)))) if x == acc else None)
    return v


def parts_asked(fn, st, node, like):
    """the parts of a node that the facts are about"""
    eng, r = fn.eng, set()
    slots = (eng.slots_of(like) or eng.ptrs_of(like) or {}) if eng.kind(like) in ('T', 'B') else {}
    names = {i: part for d, (h, part) in slots.items() for i in (d, h)}

    def walk(x):
        if x == node:
            r.add('?')
        elif is_t(x, 'fld') and x[2] == node:
            r.add(names.get(x[3], '?'))
        elif x[0] == 't' and x[1] in ('nP', 'nV', 'nC') and x[2] == node:
            r.add(x[1][1])
        else:
            for y in x[1:]:
                if isinstance(y, tuple) and y:
                    for z in ([y] if isinstance(y[0], str) else y):
                        if isinstance(z, tuple) and z:
                            walk(z)
    for t in st.facts:
        walk(t)
    return r


def selection(fn, l, it, acc):
    """what a loop over a sequence collects, when that surely is not just one thing for every element"""
    head, r = index(it, ZERO), []
    for i in l['iters']:
        st, f = i['st'], i['final'].get(acc)
        if not precise(st) or f is None:
            return None
        if f == acc:
            x = EMPTY
        elif is_t(f, 'cat') and f[2] == acc:
            x = cat(*f[3:])
        else:
            return None
        plain = substitute(rm.undet(x[2]) if is_t(x, 'unit') else x, lambda y: ('sym', 'self') if y == head else None)
        if not clean_raw(plain):
            return None
        # an element that is not collected must be one that can be there: a node without value has children
        if x == EMPTY and len(parts_asked(fn, st, head, index(l['init'][it], ZERO))) > 1:
            return None
        if x == EMPTY and not parts_asked(fn, st, head, index(l['init'][it], ZERO)) <= {'V', 'C'}:
            return None
        r.append('%s if %s' % (show(substitute(x, lambda y: ('sym', 'element') if y == head else None)), fact_str(i['pc'])))
    return '; '.join(r)


# ---- the comparison ---------------------------------------------------------------------------------

SYMS = {STORE, N, BYTES, ('sym', 'self'), ('sym', 'x0'), ('sym', 'x1'), ('sym', 'x2')}
RAW_OK = GOOD_OPS | {'idb', 'dab', 'kids', 'block', 'stored', 'wid', 'chunk', 'hlen', 'isid', 'bn', 'ser', 'hb', 'det', 'detall', 'child', 'find',
                     'canon', 'u0', 'cob', 'cid', 'car', 'ccl', 'blen', 'mapped'}


def clean_raw(v):
    def bad(x):
        if x[0] == 'sym':
            return x not in SYMS and not x[1].startswith('alloc')
        if x[0] == 'ref':
            return True
        return x[0] == 't' and x[1] not in RAW_OK
    return not contains(v, bad)


def all_nonempty(st, v):
    """child nodes in memory and blocks are not empty when an operation starts"""
    seqs = set()

    def f(x):
        if x[0] == 't' and x[1] in ('kids', 'block'):
            seqs.add(x)
        return False
    contains(v, f)
    for s in seqs:
        st.assume(eq0(length(s)), 0)


def contract(fn, o, name, args):
    """outcomes [(state, value)] of the contract on the path facts of o"""
    al = Alpha(fn.eng, o.st)
    st = State()
    st.facts, st.vals, st.pc = dict(o.st.facts), dict(o.st.vals), o.st.pc
    vals = []
    for i, a in enumerate(args):
        x = fn.abs[i]
        if fn.eng.kind(x) in ('T', 'B'):
            v = al.open(x)
        elif fn.eng.kind(x) in ('V', 'O', 'S'):
            v = al.part('V', x) if fn.eng.kind(x) != 'S' else al.value(fn.args[i][3][0] if i in fn.opts else fn.args[i])
        else:
            v = a
        all_nonempty(st, v)
        if i in fn.opts:
            v = some(v)
        if a[0] == 'ref':
            st.mem[a[1]] = v
            v = a
        vals.append(v)
    c = Call(ty=None, key=name, argtys=[fn.body.locals[i + 1][0] for i in range(fn.body.argc)], body=fn.body)
    m = nm.M[name]
    eng = fn.ctx.engine()
    r = m(eng, st, vals, c)
    if not isinstance(r, list):
        r = [(st, r)]
    return [x if not isinstance(x, Out) else (x.st, ('t', 'panic')) for x in r]


from absint import Call


def norm(v):
    v = rm.undet(v)
    if v[0] == 't' and contains(v, lambda x: is_t(x, 'vbytes')) or v[0] == 'adt':
        v = substitute(v, lambda x: x[2][3][0] if is_t(x, 'vbytes') and x[2][0] == 'adt' and x[2][1] == OPTION and x[2][2] == 1 else None)
    v = nm.unwrap_ovr(v)

    def f(x):
        if x[0] == 'adt' and x[1] == 'OwnedValueRef':
            return x[3][0]
        y = option_norm(x)
        return y if y is not x else None
    return substitute(v, f)


def refine(ctx, rep, owner, name, inputs, rule, trait=None, key=None, models=None, pick=None, facts=None, keep_muts=True):
    w = '%s::%s' % (owner, name)
    fn = run(ctx, owner, name, inputs, trait, models, pick, facts)
    if fn is None or isinstance(fn, str):
        rep.undecided(rule, w, fn or 'not found')
        return None
    rep.analysed |= fn.eng.analysed
    w = where(fn.body)
    for o in fn.outs:
        if o.kind != 'return':
            continue
        if any(e[0] == 'err' for e in o.st.events):
            continue        # judged by the rule about errors
        compare(ctx, rep, rule, w, fn, o, name, key or '%s::%s' % (owner, name))
    return fn


def split(st, fact):
    """the state with the fact decided either way"""
    r = []
    for v in (0, 1):
        s = st.copy()
        if s.decide(fact) in (None, v):
            s.assume(fact, v)
            r.append(s)
    return r


def compare(ctx, rep, rule, w, fn, o, name, key, depth=0):
    al = Alpha(fn.eng, o.st)
    got = norm(map_loops(fn, o.st, al.value(o.st.pure(o.val) if o.val[0] != 'ref' else o.val)))
    mem = {r: norm(map_loops(fn, o.st, al.value(o.st.mem[r]))) for r, _ in fn.muts}
    if al.asks and depth < 5:
        for s in split(o.st, al.asks[0]):
            compare(ctx, rep, rule, w, fn, Out(o.kind, s, o.val), name, key, depth + 1)
        return
    for s, want in contract(fn, o, key, fn.args):
        if any(e[0] == 'err' for e in s.events):
            continue
        a2 = Alpha(fn.eng, s)
        want = s.pure(want)
        want = norm(a2.expand(nm.unwrap_ovr(want)))
        if contains(want, lambda x: is_t(x, 'vbytes') and x[2] == NONE):
            continue        # a value that can be asked for its bytes is there
        x = [y for y in fn.abs if contains(want, lambda t: t == ('t', 'vbytes', y))]
        if x and depth < 5:
            (i, (h, _)), = fn.eng.slots_of(x[0]).items()
            fact = eq0(hlen(s, project(project(x[0], ('f', h)), ('f', 0))))
            if s.decide(fact) is None:
                for s2 in split(o.st, fact):
                    compare(ctx, rep, rule, w, fn, Out(o.kind, s2, o.val), name, key, depth + 1)
                return
        verdict(rep, rule, w, name, o.st, s, got, want, 'result')
        for r in mem:
            wm = norm(a2.expand(s.mem[r]))
            verdict(rep, rule, w, name, o.st, s, mem[r], wm, 'node')


def same(st, s, a, b):
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        d = s.decide(x)
        if d is not None and y == I(d):
            return True
    if a[0] == 'adt' and b[0] == 'adt' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        return all(same(st, s, x, y) for x, y in zip(a[3], b[3]))
    if is_t(a, 'node') and is_t(b, 'node'):
        return all(same(st, s, x, y) for x, y in zip(a[2:], b[2:]))
    for x, y in ((a, b), (b, a)):
        if y == EMPTY and s.decide(eq0(length(x))) == 1:
            return True
        # an optional value that is known to be there or not
        if y[0] == 'adt' and y[1] == OPTION and x[0] in ('t', 'sym') and s.decide(discr(x)) == y[2] and (
                y[2] == 0 or same(st, s, project(project(x, ('v', 1)), ('f', 0)), y[3][0])):
            return True
    return False


def verdict(rep, rule, w, name, st, s, got, want, what):
    if same(st, s, got, want):
        rep.ok(rule, w, '%s of %s' % (what, name))
        return True
    if precise(st) and clean_raw(got) and clean_raw(want):
        rep.bad(rule, w, '%s:%s' % (name, what), '%s of %s is wrong\nfound    %s\nexpected %s\npath     %s' % (what, name, show(got), show(want), fact_str(st.pc)))
    else:
        rep.undecided(rule, w, '%s: %s / %s' % (what, show(got), show(want)))
    return False


NODE_FNS = [
    ('load_prefix', ['T', '=store']), ('load_value', ['T', '=store']), ('load_children', ['T', '=store']), ('load_children_owned', ['T', '=store']),
    ('load_children_mut', ['&mut T', '=store']), ('value_opt', ['T']), ('has_value', ['T']), ('is_leaf', ['T']), ('is_empty', ['T']),
    ('detached', ['T', '=store']), ('clone_shortened', ['T', '=store', '=n']), ('split', ['&mut T', '=store', '=n']),
    ('empty_with_children', ['=bytes']), ('single', ['=bytes', '=n']), ('leaf', ['=bytes']), ('set_prefix_slice', ['&mut T', '=bytes']),
    ('set_value_owned', ['&mut T', 'O']), ('set_value_borrowed', ['&mut T', 'S']), ('set_value_slice', ['&mut T', '=bytes']),
    ('set_children_arc', ['&mut T', '=bytes']), ('set_value', ['&mut T', '=bytes']), ('set_children_arc_opt', ['&mut T', '=bytes']),
    ('take_value_opt', ['&mut T']), ('take_value', ['&mut T']), ('downcast', ['T']), ('value_ref', ['T']),
]


REF_FNS = [
    ('TreeNodeRef', n, [k] + x, None) for k in ('RT', 'RB') for n, x in (
        ('load_prefix', ['=store']), ('load_children', ['=store']), ('load_children_owned', ['=store']), ('value_opt', []),
        ('to_owned', []), ('detached', ['=store']), ('clone_shortened', ['=store', '=n']))
] + [
    ('TreeNodeRef', 'downcast', ['RT'], None),
    ('TreeNode', 'as_ref', ['T'], None),
    ('TreeNodeRef', 'owned', ['T'], None),
    ('TreeNodeRef', 'borrowed', ['B'], None),
    ('BorrowedTreeNode', 'load_prefix', ['B', '=store'], None),
    ('BorrowedTreeNode', 'load_children', ['B', '=store'], None),
    ('BorrowedTreeNode', 'value_ref_opt', ['B'], None),
    ('BorrowedTreeNode', 'value_ref', ['B'], None),
    ('BorrowedTreeNode', 'to_owned', ['B'], None),
    ('BorrowedTreeNode', 'detached', ['B', '=store'], None),
    ('BorrowedTreeNode', 'clone', ['B'], 'Clone'),
]
VALUE_FNS = [
    ('ValueRef', n, [k] + x, None) for k in ('VO', 'VS') for n, x in (
        ('to_owned', []), ('detached', ['=store']), ('is_none', []), ('downcast', []))
] + [
    ('OwnedValueRef', 'to_owned', ['OV'], None),
    ('OwnedValueRef', 'downcast', ['OV'], None),
    ('OwnedValueRef', 'new', ['O'], None),
    ('Value', 'as_value_ref', ['V'], None),
    ('Value', 'downcast', ['V'], None),
    ('Value', 'load', ['V', '=store'], None),
    ('Value', 'set', ['&mut V', '?VO'], None),
    ('Value', 'set', ['&mut V', '?VS'], None),
    ('Value', 'set', ['&mut V', NONE], None),
]
CONVERTER_INPUTS = (('convert_node', ('RT', 'RB'), ['=store']), ('convert_value', ('VO', 'VS'), ['=store']),
                    ('convert_node_shortened', ('RT', 'RB'), ['=store', '=n']))
CONVERTERS = [
    (c, n, ['conv', r] + x, 'NodeConverter')
    for c in ('DowncastConverter', 'IdentityConverter', 'DetachConverter')
    for n, rs, x in CONVERTER_INPUTS
    for r in rs if not (c == 'DowncastConverter' and r in ('RB', 'VS'))
]


def nodes(ctx, rep):
    rule = 'node functions refine their contracts'
    for name, inputs in NODE_FNS:
        refine(ctx, rep, 'TreeNode', name, inputs, rule)
    refine(ctx, rep, 'TreeNode', 'clone', ['T'], rule, trait='Clone')


def refs(ctx, rep):
    rule = 'references to nodes refine their contracts'
    for o, n, x, t in REF_FNS:
        refine(ctx, rep, o, n, x, rule, trait=t)


def values(ctx, rep):
    rule = 'values refine their contracts'
    for o, n, x, t in VALUE_FNS:
        refine(ctx, rep, o, n, x, rule, trait=t)


def converters(ctx, rep):
    rule = 'converters refine their contracts'
    for o, n, x, t in CONVERTERS:
        x = [('adt', ctx.adt(o)['id'], 0, ()) if y == 'conv' else y for y in x]
        refine(ctx, rep, o, n, x, rule, trait=t)


# ---- functions without a contract of their own --------------------------------------------------------

def fact_bytes(fn, st, x, K):
    """the bytes next to part K of x: data or id"""
    eng = fn.eng
    m = eng.slots_of(x) or eng.ptrs_of(x)
    i, (h, _) = next((i, p) for i, p in m.items() if p[1] == K)
    b = project(project(x, ('f', h)), ('f', 0))
    u = project(x, ('f', i))
    k = st.decide(isid(b))
    if eng.slots_of(x):
        return k, b, None if k is None else ('t', 'idb' if k else 'dab', u, b), u
    return k, b, rm.chunk_of(b, u), u


def outcomes(ctx, rep, rule, owner, name, inputs, trait=None, models=None, facts=None):
    fn = run(ctx, owner, name, inputs, trait, models, None, facts)
    if fn is None or isinstance(fn, str):
        rep.undecided(rule, '%s::%s' % (owner, name), fn or 'not found')
        return None, []
    rep.analysed |= fn.eng.analysed
    return fn, [o for o in fn.outs if o.kind == 'return' and not any(e[0] == 'err' for e in o.st.events)]


def expect(rep, rule, fn, name, st, got, want, what='result', also=()):
    got = norm(got)
    if got in also:
        want = got
    return verdict(rep, rule, where(fn.body), name, st, st, got, norm(want), what)


def first_bytes(ctx, rep):
    """the first byte of a path stays in front of the id when the path is in the store"""
    rule = 'first byte of a path'
    for owner, k in (('TreeNode', 'T'), ('BorrowedTreeNode', 'B')):
        fn, outs = outcomes(ctx, rep, rule, owner, 'first_prefix_byte', [k])
        for o in outs:
            for s in cases(fn, o.st, lambda s: fact_bytes(fn, s, fn.abs[0], 'P')[0], lambda: isid(fact_bytes(fn, o.st, fn.abs[0], 'P')[1])):
                k_, b, bytes_, u = fact_bytes(fn, s, fn.abs[0], 'P')
                e = s.decide(eq0(length(bytes_)))
                if e is None:
                    rep.undecided(rule, where(fn.body), 'the path decides nothing about the prefix')
                    continue
                expect(rep, rule, fn, 'first_prefix_byte', s, norm_first(o.val), NONE if e else some(index(bytes_, ZERO)))


def norm_first(v):
    return v


def cases(fn, st, known, fact):
    if known(st) is not None:
        return [st]
    return split(st, fact())


def children_access(ctx, rep):
    rule = 'children in memory or their id'
    for name, k in (('get_children', 'T'), ('get_children_mut', '&mut T')):
        fn, outs = outcomes(ctx, rep, rule, 'TreeNode', name, [k])
        for o in outs:
            k_, b, bytes_, u = fact_bytes(fn, o.st, fn.abs[0], 'C')
            if k_ is None:
                rep.undecided(rule, where(fn.body), 'does not look at the header')
                continue
            v = o.st.pure(o.val)
            expect(rep, rule, fn, name, o.st, v, err(bytes_) if k_ else ok(project(u, ('k',))))
    fn, outs = outcomes(ctx, rep, rule, 'TreeNode', 'child_count', ['T'])
    for o in outs:
        k_, b, bytes_, u = fact_bytes(fn, o.st, fn.abs[0], 'C')
        if k_ == 0:
            expect(rep, rule, fn, 'child_count', o.st, o.val, length(project(u, ('k',))))
            continue
        e = o.st.decide(eq0(length(bytes_))) if bytes_ is not None else None
        if e is None:
            rep.undecided(rule, where(fn.body), 'does not look at the header')
        elif e:
            expect(rep, rule, fn, 'child_count', o.st, o.val, ZERO)
        elif is_int(o.val) and o.val[1] > 1:
            rep.ok(rule, where(fn.body), 'children in the store count as more than one')
        else:
            expect(rep, rule, fn, 'child_count', o.st, o.val, I(2))


def canonical(ctx, rep):
    """a node without value that has one child in memory takes the place of the child; no children are none; an empty node has an empty path"""
    rule = 'normal form of a node'
    fn, outs = outcomes(ctx, rep, rule, 'TreeNode', 'canonicalize', ['&mut T', '=store'])
    for o in outs:
        canon_case(rep, rule, fn, o.st, 0)


def canon_case(rep, rule, fn, st, depth):
    eng = fn.eng
    x = fn.abs[0]
    w = where(fn.body)
    root = fn.args[0][1]

    def again(fact):
        if depth > 7:
            rep.undecided(rule, w, 'too many cases')
            return
        for s in split(st, fact):
            canon_case(rep, rule, fn, s, depth + 1)
    al = Alpha(eng, st)
    got = norm(map_loops(fn, st, al.value(st.mem[root])))
    if al.asks:
        return again(al.asks[0])
    k, b, bytes_, u = fact_bytes(fn, st, x, 'C')
    if k is None:
        return again(isid(b))
    kids = project(u, ('k',))
    n = ZERO if k else length(kids)
    if k:
        e = st.decide(eq0(hlen(st, b)))
        if e is None:
            return again(eq0(hlen(st, b)))
        n = ZERO if e else I(2)
    node0 = al.open(x)
    hv = has(al, st, x)
    if hv is None:
        return again(hv_fact(eng, st, x))
    e0 = st.decide(eq0(n))
    if e0 is None:
        return again(eq0(n))
    e1 = 0 if e0 else st.decide(eq(n, ONE))
    if e1 is None:
        return again(eq(n, ONE))
    if not e0 and not (e1 and not hv):
        return expect(rep, rule, fn, 'canonicalize', st, got, norm(al.expand(node0)), 'a node with value or several children')
    if e0:
        want = node(nP(node0) if hv else EMPTY, nV(node0), EMPTY)
        none_header(rep, rule, fn, st)
        return expect(rep, rule, fn, 'canonicalize', st, got, norm(al.expand(want)), 'a node without children')
    c = index(kids, ZERO)
    eng.kinds[c] = 'T'
    ck, cb, cbytes, cu = fact_bytes(fn, st, c, 'C')
    pk = fact_bytes(fn, st, c, 'P')
    for kk, bb in ((ck, cb), (pk[0], pk[1]), (fact_bytes(fn, st, x, 'P')[0], fact_bytes(fn, st, x, 'P')[1])):
        if kk is None:
            return again(isid(bb))
    if ck and st.decide(eq0(hlen(st, cb))) is None:
        return again(eq0(hlen(st, cb)))
    cn = (ZERO if st.decide(eq0(hlen(st, cb))) else I(2)) if ck else length(project(cu, ('k',)))
    cv = has(al, st, c)
    if cv is None:
        return again(hv_fact(eng, st, c))
    ce = st.decide(eq0(cn))
    if ce is None:
        return again(eq0(cn))
    al = Alpha(eng, st)
    child = al.open(c)
    want = node(EMPTY if ce and not cv else cat(nP(node0), nP(child)), nV(child), EMPTY if ce else nC(child))
    if ce:
        none_header(rep, rule, fn, st)
    expect(rep, rule, fn, 'canonicalize', st, got, norm(al.expand(want)), 'a node with one child')


def has(al, st, x):
    eng = al.eng
    i, (h, _) = next((i, p) for i, p in eng.slots_of(x).items() if p[1] == 'V')
    b = project(project(x, ('f', h)), ('f', 0))
    k = st.decide(isid(b))
    if k == 0:
        return 1
    e = st.decide(eq0(hlen(st, b)))
    return None if k is None or e is None else 1 - e


def hv_fact(eng, st, x):
    i, (h, _) = next((i, p) for i, p in eng.slots_of(x).items() if p[1] == 'V')
    b = project(project(x, ('f', h)), ('f', 0))
    return isid(b) if st.decide(isid(b)) is None else eq0(hlen(st, b))


def none_header(rep, rule, fn, st):
    """no children: the header says so"""
    eng = fn.eng
    i, (h, _) = next((i, p) for i, p in eng.node_slots.items() if p[1] == 'C')
    v = st.mem[fn.args[0][1]]
    b = project(project(v, ('f', h)), ('f', 0))
    k, e = st.decide(isid(b)), st.decide(eq0(hlen(st, b)))
    w = where(fn.body)
    if k == 1 and e == 1:
        rep.ok(rule, w, 'no children are none')
    elif precise(st) and (k == 0 or e == 0):
        rep.bad(rule, w, 'canonicalize:none', 'a node without children keeps a child list\nheader  %s\npath    %s' % (show(b), fact_str(st.pc)))
    else:
        rep.undecided(rule, w, 'children header ' + show(b))


def value_bytes(ctx, rep):
    """the bytes of a value in memory"""
    rule = 'bytes of a value'
    for owner, k, traits in (('Value', 'V', ('AsRef', 'Deref')), ('OwnedValueRef', 'OV', ('AsRef', 'Deref'))):
        for t, name in zip(traits, ('as_ref', 'deref')):
            fn, outs = outcomes(ctx, rep, rule, owner, name, [k], t)
            for o in outs:
                slot_value(rep, rule, fn, name, o, lambda s, kk, bytes_: bytes_)
    fn, outs = outcomes(ctx, rep, rule, 'Value', 'read', ['V'])
    for o in outs:
        slot_value(rep, rule, fn, 'read', o, lambda s, kk, bytes_: err(bytes_) if kk else ok(bytes_))
    for k in ('VO', 'VS'):
        fn, outs = outcomes(ctx, rep, rule, 'ValueRef', 'read', [k])
        for o in outs:
            slot_value(rep, rule, fn, 'read', o, lambda s, kk, bytes_: err(bytes_) if kk else ok(bytes_))
    # only for values in memory
    fn, outs = outcomes(ctx, rep, rule, 'ValueRef', 'data', ['VO'])
    for o in outs:
        slot_value(rep, rule, fn, 'data', o, lambda s, kk, bytes_: NONE if kk else some(bytes_))


def slot_value(rep, rule, fn, name, o, want, depth=0):
    x = fn.abs[0]
    m = fn.eng.slots_of(x) or fn.eng.ptrs_of(x)
    (i, (h, _)), = m.items()
    b = project(project(x, ('f', h)), ('f', 0))
    k = o.st.decide(isid(b))
    if k is None:
        for s in split(o.st, isid(b)):
            slot_value(rep, rule, fn, name, Out(o.kind, s, o.val), want)
        return
    if fn.eng.slots_of(x):
        bytes_ = ('t', 'idb' if k else 'dab', project(x, ('f', i)), b)
    else:
        bytes_ = rm.chunk_of(b, project(x, ('f', i)))
    expect(rep, rule, fn, name, o.st, o.st.pure(o.val), want(o.st, k, bytes_))


# ---- equality of trees in memory ---------------------------------------------------------------------------

def in_memory(fn, x):
    """facts about a node of a detached tree: no part is an id, a child list is not empty"""
    r = []
    for i, (h, K) in fn.eng.node_slots.items():
        b = project(project(x, ('f', h)), ('f', 0))
        if K == 'P':
            r.append((isid(b), 0))
    return r


def equality(ctx, rep):
    rule = 'two nodes are equal exactly when path, value and children are'
    fn, outs = outcomes(ctx, rep, rule, 'TreeNode', 'eq', ['T', 'T'], 'PartialEq', facts=lambda fn: in_memory(fn, fn.abs[0]) + in_memory(fn, fn.abs[1]))
    for o in outs:
        eq_case(rep, rule, fn, o.st, o.st.pure(o.val))


def eq_part(st, fn, K):
    """('known', 0/1), ('ask', fact) or ('term', t): are the parts K equal"""
    a = [fact_bytes(fn, st, x, K) for x in fn.abs]
    for k, b, bytes_, u in a:
        if k is None:
            return 'ask', isid(b)
        if k == 1 and K != 'P' and st.decide(eq0(hlen(st, b))) != 1:
            return 'infeasible', None
    if a[0][0] != a[1][0]:
        return 'known', 0
    if a[0][0] == 1:
        return 'known', 1
    if K == 'C':
        ks = [project(x[3], ('k',)) for x in a]
        for y in ks:
            st.assume(eq0(length(y)), 0)
        if st.decide(eq(length(ks[0]), length(ks[1]))) == 0:
            return 'known', 0
        t = eq(*ks)
    else:
        t = eq(a[0][2], a[1][2])
    d = st.decide(t)
    return ('term', t) if d is None else ('known', d)


def eq_case(rep, rule, fn, st, got, depth=0):
    w = where(fn.body)
    if depth > 12:
        rep.undecided(rule, w, 'too many cases')
        return

    def again(f):
        for s in split(st, f):
            eq_case(rep, rule, fn, s, got, depth + 1)
    # ids do not occur in a tree in memory, so an id has length 0
    for K in 'VC':
        for x in fn.abs:
            k, b, bytes_, u = fact_bytes(fn, st, x, K)
            if k == 1:
                if st.decide(eq0(hlen(st, b))) == 0:
                    return
                st.assume(eq0(hlen(st, b)), 1)
                if st.decide(eq0(length(bytes_))) == 0:
                    return
    for t, v in st.facts.items():
        if is_t(t, 'eq') and v == 0 and all(z[0] == 't' and st.decide(eq0(length(z))) == 1 for z in t[2:4] if z[0] == 't' and z[1] in ('idb', 'dab')) and \
                all(z[0] == 't' and z[1] in ('idb', 'dab') for z in t[2:4]):
            return          # two empty ids are equal
    res = {}
    for K in 'PVC':
        how, t = eq_part(st, fn, K)
        if how == 'infeasible':
            return
        if how == 'ask':
            return again(t)
        if how == 'term':
            return again(t)
        res[K] = t
    want = int(all(res.values()))
    g = st.decide(got) if not is_int(got) else got[1]
    if g is None and is_t(got, 'eq') and all(z[0] == 't' and z[1] in ('idb', 'dab') and st.decide(eq0(length(z))) == 1 for z in got[2:4]):
        g = 1
    if g is None:
        return rep.undecided(rule, w, 'result ' + show(got))
    if g == want:
        rep.ok(rule, w, 'result on a path')
        return

    def known(t):
        return is_t(t, 'isid') or is_t(t, 'hlen') or is_t(t, 'eq0') and t[2][0] == 't' and (t[2][1] == 'hlen' or t[2][1] == 'len' and t[2][2][0] == 't' and t[2][2][1] in (
            'kids', 'idb', 'dab')) or is_t(t, 'eq') and all(z[0] == 't' and z[1] in ('idb', 'dab', 'kids') for z in t[2:4]) or is_t(t, 'sameplace')

    def about_length(t):
        return t[0] == 't' and t[1] in ('lt0', 'eq0') and not contains(t, lambda x: x[0] == 't' and x[1] not in ('lt0', 'eq0', 'lin', 'len', 'hlen', 'kids', 'idb', 'dab', 'fld'))
    if precise(st) and all(known(t) or about_length(t) for t, _ in st.pc) and (all(known(t) for t, _ in st.pc) or lengths_possible(st.pc)):
        rep.bad(rule, w, 'eq:%d' % g, 'two nodes compare %s, but path %s, value %s, children %s\npath    %s' % (
            ('different', 'equal')[g], *[('different', 'equal')[res[K]] for K in 'PVC'], fact_str(st.pc)))
    else:
        rep.undecided(rule, w, 'result %d, expected %d after %s%s' % (g, want, fact_str(st.pc), st.imprecise or ''))


# ---- memory: headers and allocations ------------------------------------------------------------

def own_slots(eng, v, f, depth=0):
    """calls f(slot, header byte, is children) for every slot v owns"""
    if v[0] == 'ref':
        return
    m = eng.adt_slots(v)
    if m is not None:
        for i, (h, part) in sorted(m.items()):
            u, b = project(v, ('f', i)), project(project(v, ('f', h)), ('f', 0))
            f(u, b, part == 'C')
            if is_t(base(u), 'car') and not is_t(u, 'ccl'):
                own_slots(eng, u[2], f, depth + 1)
        return
    if v[0] == 'adt':
        if v[1].split('::')[-1] in ('OwnedBlobRef', 'TreeNodeRef', 'ValueRef', 'OwnedValueRef'):
            return
        for x in v[3]:
            own_slots(eng, x, f, depth + 1)
    elif is_t(v, 'cat'):
        for x in v[2:]:
            if is_t(x, 'unit'):
                own_slots(eng, x[2], f, depth + 1)


def heapless(eng, st, u, b=None):
    """the slot can not hold an allocation"""
    v = base(u)
    if v == U0:
        return True
    if v[0] == 't' and v[1] in ('cob', 'cid'):
        return st.decide(lt(I(8), length(v[2]))) == 0
    for h in (rm.own_header(eng, v), b):
        if h is not None and st.decide(lt(I(8), hlen(st, h))) == 0:
            return True
    return False


def tags(rep, rule, fn, st, exact):
    """every use of a slot is one its header allows"""
    w = where(fn.body)
    for e in st.events:
        if e[0] == 'tag':
            if e[1] == 'ok':
                rep.ok(rule, w, 'header of a slot that is ' + e[2])
            elif e[1] == 'bad' and exact:
                rep.bad(rule, w, 'tag:%s' % e[2], 'a slot is %s with a header that does not describe it\nslot    %s\nheader  %s\npath    %s' % (
                    e[2], show(e[3]), show(e[4]), fact_str(st.pc)))
            else:
                rep.undecided(rule, w, 'slot %s with header %s' % (show(e[3]), show(e[4])))


def memory(rep, rule, fn):
    eng = fn.eng
    w = where(fn.body)
    for o in fn.outs:
        st = o.st
        exact = precise(st)
        if o.kind == 'panic':
            # what was released before must not be there when the stack unwinds
            for r, _ in fn.muts:
                left = []
                own_slots(eng, st.mem[r], lambda u, b, c: left.append(b) if u == DEAD else None)
                for b in left:
                    if exact and sure(eng, st):
                        rep.bad(rule, w, 'dead:panic', 'a released slot stays in a node when the function panics, its header is %s\npath    %s' % (show(b), fact_str(st.pc)))
                if not left:
                    rep.ok(rule, w, 'no released slot when it panics')
            continue
        tags(rep, rule, fn, st, exact)
        # allocations and their owners
        seeds, ends = {}, {}

        def seed(u, b, c):
            if not heapless(eng, st, u, b):
                seeds[rid(u)] = u

        def end(u, b, c, what='kept'):
            if not heapless(eng, st, u, b):
                ends.setdefault(rid(u), []).append(what)
        dead = []

        def final(u, b, c):
            if u == DEAD:
                dead.append(b)
                return
            v = rm.describes(eng, st, u, b, c)
            if v == 'ok':
                rep.ok(rule, w, 'header of a slot at the end')
            elif v == 'bad' and exact:
                rep.bad(rule, w, 'header', 'a slot is left with a header that does not describe it\nslot    %s\nheader  %s\npath    %s' % (show(u), show(b), fact_str(st.pc)))
            else:
                rep.undecided(rule, w, 'slot %s is left with header %s' % (show(u), show(b)))
            end(u, b, c)
        maybe = False
        for i, a in enumerate(fn.args):
            if a[0] == 'ref':
                own_slots(eng, dict(fn.muts)[a[1]], seed)
            elif fn.by_value(i):
                own_slots(eng, a, seed)
        for e in st.events:
            if e[0] == 'new':
                seed(e[1], None, False)
            elif e[0] == 'moved':
                own_slots(eng, eng_open(eng, e[1]), seed)
            elif e[0] == 'release':
                end(e[2], None, False, 'released')
            elif e[0] == 'maybe':
                maybe = True
        for r, _ in fn.muts:
            own_slots(eng, st.mem[r], final)
        own_slots(eng, map_loops(fn, st, o.val), final)
        for b in dead:
            if exact:
                rep.bad(rule, w, 'dead', 'a released slot stays in a node, its header is %s\npath    %s' % (show(b), fact_str(st.pc)))
        for x in seeds:
            n = len(ends.get(x, ()))
            if n == 1:
                rep.ok(rule, w, 'one owner at the end')
            elif exact and not maybe:
                rep.bad(rule, w, 'leak' if n == 0 else 'double', 'an allocation has %s at the end\nslot    %s\npath    %s' % (
                    'no owner and is not released' if n == 0 else 'more than one owner or is released twice', show(seeds[x]), fact_str(st.pc)))
            else:
                rep.undecided(rule, w, 'owners of ' + show(seeds[x]))
        for x in ends:
            if x not in seeds and exact:
                rep.bad(rule, w, 'shared', 'an allocation that belongs to something else is kept or released\nslot    %s\npath    %s' % (show(x), fact_str(st.pc)))


def eng_open(eng, x):
    return ('t', 'upd', x, (), ()) if False else x


def an_id(fn):
    (i, (h, _)), = (fn.eng.slots_of(fn.abs[1]) or fn.eng.ptrs_of(fn.abs[1])).items()
    return [(isid(project(project(fn.abs[1], ('f', h)), ('f', 0))), 1)]


SHORT = lambda fn: [(lt(length(BYTES), I(128)), 1)]
PLAIN_FNS = [
    ('TreeNode', 'set_prefix_owned', ['&mut T', 'O'], None, None), ('TreeNode', 'set_prefix_borrowed', ['&mut T', 'S'], None, None),
    ('TreeNode', 'set_children_borrowed', ['&mut T', 'S'], None, an_id), ('TreeNode', 'set_children_id', ['&mut T', '=bytes'], None, SHORT),
]


def dropped(ctx, rep):
    """what a node or value holds is released once when it is dropped"""
    rule = 'a dropped node releases what it holds'
    for owner, k in (('TreeNode', '&mut T'), ('Value', '&mut V')):
        fn = run(ctx, owner, 'drop', [k], 'Drop')
        if fn is None or isinstance(fn, str):
            rep.undecided(rule, owner, fn or 'not found')
            continue
        rep.analysed |= fn.eng.analysed
        w = where(fn.body)
        for o in fn.outs:
            st = o.st
            if o.kind != 'return':
                if sure(fn.eng, st):
                    rep.bad(rule, w, 'drop:panic', 'dropping panics\npath    %s' % fact_str(st.pc))
                continue
            tags(rep, rule, fn, st, precise(st))
            (r, v), = fn.muts
            held = []
            own_slots(fn.eng, v, lambda u, b, c: held.append((u, b)))
            rel = [rid(e[2]) for e in st.events if e[0] == 'release']
            for u, b in held:
                n = rel.count(rid(u))
                if n == 1 or n == 0 and heapless(fn.eng, st, u, b):
                    rep.ok(rule, w, 'released once')
                elif precise(st):
                    rep.bad(rule, w, 'drop:%s' % ('leak' if n == 0 else 'double'), 'an allocation is released %d times when its owner is dropped\nslot    %s\npath    %s' % (
                        n, show(u), fact_str(st.pc)))
                else:
                    rep.undecided(rule, w, 'releases of ' + show(u))


def nodes_memory(ctx, rep):
    rule = 'one owner for every allocation, described by its header'
    for o, n, x, t, f in PLAIN_FNS:
        fn = run(ctx, o, n, x, t, None, None, f)
        if fn is None or isinstance(fn, str):
            if fn:
                rep.undecided(rule, '%s::%s' % (o, n), fn)
            continue
        rep.analysed |= fn.eng.analysed
    dropped(ctx, rep)
    for k, fn in list(ctx.cache.items()):
        if k[0] == 'l1' and isinstance(fn, Fn) and k[2] != 'drop':
            memory(rep, rule, fn)


# ---- what detaching leaves behind -------------------------------------------------------------------

LOADS = [('TreeNode', 'detached', ['T', '=store'], None), ('BorrowedTreeNode', 'detached', ['B', '=store'], None)] + [
    ('TreeNodeRef', 'detached', [k, '=store'], None) for k in ('RT', 'RB')] + [
    ('ValueRef', 'detached', [k, '=store'], None) for k in ('VO', 'VS')] + [
    ('DetachConverter', n, ['conv', r] + x, 'NodeConverter') for n, rs, x in CONVERTER_INPUTS for r in rs]


def loaded(ctx, rep):
    """the parts of what a detaching function makes are data, and its child nodes are detached ones"""
    rule = 'nothing of a detached node is left in the store'
    for owner, name, inputs, trait in LOADS:
        fn = run(ctx, owner, name, inputs, trait)
        if fn is None or isinstance(fn, str):
            rep.undecided(rule, '%s::%s' % (owner, name), fn or 'not found')
            continue
        rep.analysed |= fn.eng.analysed
        for o in fn.outs:
            v = o.st.pure(o.val) if o.kind == 'return' else None
            if v is not None and not any(e[0] == 'err' for e in o.st.events):
                left(rep, rule, fn, o.st, v, '%s::%s' % (owner, name))


def left(rep, rule, fn, st, v, name, depth=0):
    eng = fn.eng
    w = where(fn.body)
    v = v[3][0] if v[0] == 'adt' and v[1] == RESULT and v[2] == 0 else v
    v = map_loops(fn, st, v)
    slots = eng.adt_slots(v)
    if slots is None:
        rep.undecided(rule, w, 'result ' + show(v)[:200])
        return

    def bad(what, x):
        if precise(st):
            rep.bad(rule, w, '%s:%s' % (name, what), 'the %s of the result of %s is not loaded\nfound    %s\npath     %s' % (what, name, show(x), fact_str(st.pc)))
        else:
            rep.undecided(rule, w, '%s %s%s' % (what, show(x)[:200], ''.join(', after ' + str(i) for i in st.imprecise)))
    names = {'P': 'prefix', 'V': 'value', 'C': 'child list'}
    for i, (h, part) in sorted(slots.items()):
        u, b = project(v, ('f', i)), project(project(v, ('f', h)), ('f', 0))
        k, e = st.decide(isid(b)), st.decide(eq0(hlen(st, b)))
        ask = isid(b) if k is None else eq0(hlen(st, b)) if k == 1 and e is None else None
        if ask is not None:
            if depth < 6:
                for s in split(st, ask):
                    left(rep, rule, fn, s, v, name, depth + 1)
                return
            rep.undecided(rule, w, 'header ' + show(b)[:100])
            continue
        what = names.get(part, str(part))
        if k == 1 and e == 1:
            rep.ok(rule, w, 'no %s' % what)
        elif k == 1:
            bad(what, b)
        elif part != 'C':
            rep.ok(rule, w, '%s in memory' % what)
        else:
            x = base(u)
            if not is_t(x, 'car'):
                if x == u and is_t(u, 'fld') or x[0] == 't' and x[1] in ('fld', 'upd'):
                    bad(what, x)
                else:
                    rep.undecided(rule, w, 'child list ' + show(u)[:200])
                continue
            rest = [y for y in parts_of(x[2]) if not (is_t(y, 'detall') or is_t(y, 'unit') and is_t(y[2], 'det')) and st.decide(eq0(length(y))) != 1]
            if not rest:
                rep.ok(rule, w, 'detached child nodes')
            elif all(stays(eng, st, y) for y in rest):
                bad(what, x[2])
            elif all(asked(eng, st, y) for y in rest):
                rep.ok(rule, w, 'child nodes with nothing in the store')
            else:
                rep.undecided(rule, w, 'child list ' + show(x[2])[:200])


def element_facts(st, y):
    """[facts about a generic element] when every element of y was asked for something, the generic element"""
    for e in st.events:
        if e[0] == 'every' and y == e[1]:
            r = []
            for facts in e[3]:
                s = st.copy()
                if all(s.assume(t, v) for t, v in facts):
                    r.append(s)
            return r, index(y, e[2])
    return None


def leaves_something(eng, st, x):
    """a part of the node x is, or may be, in the store; None when that can not be told"""
    slots = eng.adt_slots(x)
    if slots is None:
        return None
    r = False
    for i, (h, part) in slots.items():
        b = project(project(x, ('f', h)), ('f', 0))
        k, e = st.decide(isid(b)), st.decide(eq0(hlen(st, b)))
        r |= k != 0 and e != 1 or k == 0 and part == 'C'
    return r


def stays(eng, st, y):
    """the nodes y are taken over as they are, though something of them can be in the store"""
    if not clean_raw(y) or y[0] != 't':
        return False
    f = element_facts(st, y)
    return f is None or any(leaves_something(eng, s, f[1]) for s in f[0])


def asked(eng, st, y):
    f = element_facts(st, y)
    return f is not None and all(leaves_something(eng, s, f[1]) is False for s in f[0])


def parts_of(v):
    return list(v[2:]) if is_t(v, 'cat') else [] if v == EMPTY else [v]


# ---- the common prefix of two paths -----------------------------------------------------------------

def common(ctx, rep):
    """the number of leading elements that are equal"""
    rule = 'length of the common prefix'
    bs = [b for b in ctx.prog.by_name('common_prefix') if not ctx.prog.self_adt(b)]
    if len(bs) != 1:
        rep.undecided(rule, 'common_prefix', 'not found')
        return
    b = bs[0]
    A, B = ('sym', 'a'), ('sym', 'b')
    models = {k: v for k, v in nm.M.items() if k != 'common_prefix'}
    for n in ('take', 'skip'):
        models['Iterator::' + n] = lambda eng, st, v, call, n=n: ('t', 'it' + n, st.pure(v[0]), v[1])
    models['Iterator::count'] = lambda eng, st, v, call: ('t', 'count', st.pure(v[0])) if contains(st.pure(v[0]), lambda z: z[0] == 't' and z[1] in ('ittake', 'itskip')) \
        else nm.M['Iterator::count'](eng, st, v, call)
    eng = ctx.engine(models)
    rep.analysed.add(b.id)
    w = where(b)
    try:
        outs = eng.exec_body(State(), b, [A, B])
    except TooComplex as e:
        rep.undecided(rule, w, str(e))
        return
    want = cp(A, B)

    def counting(s):
        """the loop goes on exactly while the next elements are there and equal, and counts them"""
        for l in eng.loops.values():
            if l['init'].get(s) != ZERO or not l['iters']:
                continue
            for it in l['iters']:
                st = it['st']
                if it['final'].get(s) != add(s, ONE) or st.decide(lt(s, length(A))) != 1 or st.decide(lt(s, length(B))) != 1 or \
                        st.decide(eq(index(A, s), index(B, s))) != 1:
                    return False
            return True
        return False
    plain = lambda v: not contains(v, lambda z: z[0] == 'sym' and z not in (A, B) or z[0] == 't' and z[1] not in ('len', 'cp', 'lin', 'min', 'take', 'drop', 'count', 'filter', 'zip', 'skip_while',
                                                                                                                    'take_while', 'lambda', 'fld', 'eq', 'eq0', 'lt0', 'not', 'ittake', 'itskip'))
    args = ('sym', 'arg0')
    for o in outs:
        if o.kind != 'return':
            if precise(o.st) and not eng.loops:
                rep.bad(rule, w, 'common_prefix:panic', 'it panics\npath    %s' % fact_str(o.st.pc))
            else:
                rep.undecided(rule, w, 'a path that panics')
            continue
        v = o.st.pure(o.val)
        if v == want or o.st.decide(eq(v, want)) == 1:
            rep.ok(rule, w, 'the count of equal leading elements')
        elif v[0] == 'sym' and counting(v) and (0 in (o.st.decide(lt(v, length(A))), o.st.decide(lt(v, length(B))), o.st.decide(eq(index(A, v), index(B, v))))):
            rep.ok(rule, w, 'the loop counts equal leading elements')
        elif precise(o.st) and not eng.loops and all(plain(t) for t, _ in o.st.pc) and plain(substitute(v, lambda z: A if z == args else None)):
            rep.bad(rule, w, 'common_prefix', 'the result is %s\npath    %s' % (show(v), fact_str(o.st.pc)))
        else:
            rep.undecided(rule, w, 'result ' + show(v)[:200])
