"""Decision tables of the combine operations (C01..C05, C30).

Every path of a public combine function is compared with what the operation means for the
relation of the two node paths (a == b, a prefix of b, b prefix of a, neither), the presence of
the two values and the result of the callback. Child lists are merged by loops: the pair
(output so far, rest of a, rest of b) is checked to be a simulation of the ordered join.
"""
from common import *

# kind -> how the public function is called and what it means
OPS = {
    'try_outer_combine':      dict(prop='C01', kind='outer', form='pure'),
    'try_outer_combine_with': dict(prop='C01', kind='outer', form='inplace'),
    'try_inner_combine':      dict(prop='C02', kind='inner', form='pure'),
    'try_inner_combine_with': dict(prop='C02', kind='inner', form='inplace'),
    'try_left_combine':       dict(prop='C03', kind='left', form='pure'),
    'try_left_combine_with':  dict(prop='C03', kind='left', form='inplace'),
    'try_inner_combine_pred': dict(prop='C04', kind='inner', form='pred'),
    'try_left_combine_pred':  dict(prop='C04', kind='left', form='pred'),
    'try_retain_prefix_with': dict(prop='C05', kind='retain', form='inplace'),
    'try_remove_prefix_with': dict(prop='C05', kind='remove', form='inplace'),
}

a, b, f, sa, sb = (('sym', x) for x in ('a', 'b', 'f', 'sa', 'sb'))
aP, bP, aV, bV, aC, bC = nP(a), nP(b), nV(a), nV(b), nC(a), nC(b)
N = cp(aP, bP)
EA = eq(N, length(aP))
EB = eq(N, length(bP))
SELF = ('R', 'self')
TRUE, FALSE = ONE, ZERO
BOOL = ('bool',)


class Need(Exception):
    def __init__(self, atom, vals):
        self.atom, self.vals = atom, vals


class Undecided(Exception):
    pass


class Mismatch(Exception):
    pass


def dec(st, atom, vals=(0, 1)):
    r = st.decide(atom)
    if r is None:
        raise Need(atom, vals)
    return r


def present(st, v):
    v = option_norm(v)
    return dec(st, discr(v)) if v[0] != 'int' else 1


class Run:
    """the paths of one function for the combine of a and b"""

    def __init__(self, ctx, name, spec):
        self.ctx, self.name, self.spec = ctx, name, spec
        self.kind, self.form = spec['kind'], spec['form']
        self.body = ctx.method('RadixTree', name)
        self.syms = {a, b, f, sa, sb, ('sym', 'c')}
        self.loops = {}
        self.rec_pos = None
        self.runs = []

    def start(self):
        ctx = self.ctx
        eng = ctx.engine()
        st = State()
        A, B = ctx.tree(a, sa), ctx.tree(b, sb)
        self.eng = eng
        eng.trace_entries = {}
        if self.form == 'inplace':
            st.mem[SELF] = A
            args = [('ref', SELF, ()), B, f]
            if self.body.argc == 4:
                args.insert(2, ('sym', 'c'))
        else:
            args = [A, B, f]
        self.outs = eng.exec_body(st, self.body, args)
        self.rec_id = None
        for o in self.outs:
            for e in o.st.events:
                if e[0] == 'rec':
                    self.rec_id = e[1]
        for l in eng.loops.values():
            for it in l['iters']:
                for e in it['st'].events:
                    if e[0] == 'rec':
                        self.rec_id = e[1]
        return self.outs

    # ---- expected results ------------------------------------------------------------
    def rec_term(self, x, y):
        pure = self.entry
        args = tuple(x if v == a else y if v == b else v for v in pure)
        if self.form == 'inplace':
            i = pure.index(a)
            return ('t', 'recm', ('str', self.rec_id), I(i)) + args
        return ('t', 'rec', ('str', self.rec_id)) + args

    def empty_seq(self, st, s):
        l = length(s)
        return st.decide(eq0(l))

    def head_cmp(self, st, A, B):
        x, y = fpb_of(index(A, ZERO)), fpb_of(index(B, ZERO))
        return st.decide(discr(('t', 'cmp', x, y)))

    def is_empty_node(self, st, x):
        while is_t(x, 'canon'):
            x = x[2]
        v = st.decide(discr(nV(x)))
        if v == 1:
            return 0
        c = st.decide(eq0(length(nC(x))))
        if c == 0:
            return 0
        if v == 0 and c == 1:
            return 1
        return None

    def join(self, st, A, B):
        """the join of two child lists as far as the facts decide it: (parts, rest)"""
        kind = self.kind
        parts = []
        for _ in range(16):
            ea, eb = self.empty_seq(st, A), self.empty_seq(st, B)
            if ea == 1:
                return cat(*parts, B) if kind == 'outer' else cat(*parts)
            if eb == 1:
                return cat(*parts, A) if kind in ('outer', 'left', 'remove') else cat(*parts)
            if ea == 0 and eb == 0:
                c = self.head_cmp(st, A, B)
                if c is not None:
                    if c < 0:
                        if kind in ('outer', 'left', 'remove'):
                            parts.append(unit(index(A, ZERO)))
                        A = drop(A, ONE)
                        continue
                    if c > 0:
                        if kind == 'outer':
                            parts.append(unit(index(B, ZERO)))
                        B = drop(B, ONE)
                        continue
                    r = self.rec_term(index(A, ZERO), index(B, ZERO))
                    e = self.is_empty_node(st, r)
                    if e is None:
                        # only decided when the node is looked at: keep or skip is not justified
                        parts.append(('t', 'maybe', r))
                    elif e == 0:
                        parts.append(unit(r))
                    A, B = drop(A, ONE), drop(B, ONE)
                    continue
                # at most one node has the first byte of a node that is alone
                if is_one(B) and kind in ('inner', 'retain') or is_one(A) and kind in ('inner', 'left'):
                    y = (B if is_one(B) else A)[2][2]
                    z = self.looked_up(st, A if is_one(B) else B, y)
                    if z is None:
                        return cat(*parts, A) if kind == 'left' else cat(*parts)
                    if z != '?':
                        r = self.norm(st, self.rec_term(*((z, y) if is_one(B) else (y, z))))
                        e = self.is_empty_node(st, r)
                        return cat(*parts, ('t', 'maybe', r)) if e is None else cat(*parts) if e else cat(*parts, unit(r))
            break
        return cat(*parts, ('t', 'J', self.norm(st, A), self.norm(st, B)))

    def looked_up(self, st, A, y):
        """what a lookup of the first byte of y in A found: the child, None for nothing, '?' when nothing was looked up"""
        p = nP(y)
        if not (is_t(p, 'drop') and self.norm(st, p[3]) == self.norm(st, N)):
            return '?'
        A, k = self.norm(st, A), self.norm(st, index(p, ZERO))
        for t, v in st.facts.items():
            if is_t(t, 'discr') and is_t(t[2], 'find') and self.norm(st, t[2][2]) == A and self.norm(st, t[2][3]) == k:
                return ('t', 'child', t[2][2], t[2][3]) if v else None
        return '?'

    def rec_value(self, st, x, y):
        t = self.rec_term(x, y)
        r = st.decide(t)
        if r is None:
            t = self.norm(st, t)
            for k, v in st.facts.items():
                if is_t(k, 'rec') and self.norm(st, k) == t:
                    return v
        return r

    def joinp(self, st, A, B):
        """exists over the join: TRUE, FALSE or a rest"""
        kind = self.kind
        for _ in range(16):
            ea, eb = self.empty_seq(st, A), self.empty_seq(st, B)
            if ea == 1:
                return FALSE
            if eb == 1:
                if kind == 'inner':
                    return FALSE
                if ea == 0:
                    return TRUE
                break
            if ea == 0 and eb == 0:
                x, y = index(A, ZERO), index(B, ZERO)
                c = self.head_cmp(st, A, B)
                if c is None:
                    if is_one(B) and kind == 'inner' or is_one(A):
                        w = (B if is_one(B) else A)[2][2]
                        z = self.looked_up(st, A if is_one(B) else B, w)
                        if z is None:
                            return TRUE if kind == 'left' else FALSE
                        if z != '?':
                            pair = (z, w) if is_one(B) else (w, z)
                            r = self.rec_value(st, *pair)
                            return self.norm(st, self.rec_term(*pair)) if r is None else TRUE if r else FALSE
                    # a node can be combined with one of another first byte: nothing in common
                    if kind == 'inner':
                        r = self.rec_value(st, x, y)
                        if r == 1:
                            return TRUE
                        if r == 0 and is_one(B):
                            A = drop(A, ONE)
                            continue
                        if r == 0 and is_one(A):
                            B = drop(B, ONE)
                            continue
                    break
                if c < 0:
                    if kind == 'left':
                        return TRUE
                    A = drop(A, ONE)
                    continue
                if c > 0:
                    B = drop(B, ONE)
                    continue
                r = self.rec_value(st, x, y)
                if r == 1:
                    return TRUE
                if r is None:
                    break
                A, B = drop(A, ONE), drop(B, ONE)
                continue
            break
        return ('t', 'J', self.norm(st, A), self.norm(st, B))

    def impossible(self, st):
        """the path contradicts that only the root of a tree can be empty, or what the paths have in common"""
        if any(st.decide(e) == 0 and st.decide(eq0(length(p))) == 1 for e, p in ((EA, aP), (EB, bP))):
            return True
        for t, v in st.pc:
            if v == 0 and is_t(t, 'discr') and is_t(t[2], 'nV'):
                x = t[2][2]
                if x in (a, b):
                    if st.decide(EA if x == a else EB) != 0:
                        continue
                elif not is_t(x, 'idx') or contains(x, lambda y: is_t(y, 'rec') or is_t(y, 'recm')):
                    continue
                if st.decide(eq0(length(nC(x)))) == 1:
                    return True
            c = t[2] if is_t(t, 'discr') and is_t(t[2], 'cmp') else None
            if c is not None and v != self.prefix_order(st, c):
                return True
            if c is not None and st.decide(EA) == 0 and st.decide(EB) == 0:
                # the paths differ in the byte after what they have in common
                x, y = ((q[2][2] if is_t(q, 'fpb') and is_t(q[2], 'drop') and q[2][3] == N else None) for q in c[2:4])
                if (x, y) not in ((aP, bP), (bP, aP)):
                    # the order of two byte strings is that of the first byte in which they differ
                    x, y = ((q if q in (aP, bP) else q[2] if is_t(q, 'drop') and q[3] in (N, ZERO) else None) for q in c[2:4])
                if (x, y) in ((aP, bP), (bP, aP)):
                    d = sub(index(x, N), index(y, N))
                    if v == 0 or st.decide(lt0(d)) == (v != -1) or st.decide(lt0(neg(d))) == (v == -1):
                        return True
        return False

    def prefix_order(self, st, c):
        """the order of the two paths when one is a prefix of the other; what is known anyway otherwise"""
        want = st.decide(discr(c))
        if c[2:4] in ((aP, bP), (bP, aP)):
            x, y = (EA, EB) if c[2] == aP else (EB, EA)
            x, y = st.decide(x), st.decide(y)
            if x == 1 and y is not None:
                return 0 if y else -1
            if y == 1 and x == 0:
                return 1
        return want

    # ---- normal form under the facts of a path ---------------------------------------
    def norm(self, st, v):
        ea, eb = st.decide(EA) == 1, st.decide(EB) == 1

        def fn(x):
            if x == N:
                if ea:
                    return length(aP)
                if eb:
                    return length(bP)
            if x == bP and ea and eb:
                return aP
            if x == length(bP) and ea and eb:
                return length(aP)
            if is_t(x, 'take') and x[3] == length(bP) and x[2] in (aP, bP) and eb:
                return bP
            if is_t(x, 'take') and x[3] == length(aP) and x[2] in (aP, bP) and ea:
                return aP
            if x[0] == 'adt' and x[1] == OPTION and x[2] == 1:
                q = option_norm(x)
                return q if q != x else None
            if is_t(x, 'canon') and x[2] in (a, b):
                return x[2]
            if (x[0] == 'sym' or x[0] == 't') and x[0] != 'int':
                if x[0] == 'sym' and x in self.seqsyms or x[0] == 't' and x[1] in ('nC', 'drop', 'take'):
                    if st.decide(eq0(length(x))) == 1:
                        return EMPTY
                if is_t(x, 'nV') or x[0] == 't' and x[1] in ('cb', 'cbm'):
                    if st.facts.get(('t', 'discr', x)) == 0:
                        return NONE
            return None

        prev = None
        for _ in range(4):
            if v == prev:
                break
            prev = v
            v = substitute(v, fn)
        return v

    seqsyms = frozenset()

    # ---- loops ------------------------------------------------------------------------
    def base_triples(self, st):
        """(output, rest of a, rest of b) before any loop for the cells the path can be in"""
        ea, eb = dec(st, EA), dec(st, EB)
        A = aC if ea else seq(nm.shortened(a, N))
        B = bC if eb else seq(nm.shortened(b, N))
        return [(EMPTY, self.norm(st, A), self.norm(st, B))]

    def loop_roles(self, rec, st, triples):
        """candidate triples of a loop, by the values its places have at entry"""
        cands = []
        syms = list(rec['init'].items())

        def alt(t):
            n = self.norm(st, t)
            return [s for s, i in syms if self.norm(st, i) == n] + [t]
        for (O, A, B) in triples:
            for x in ([O] if self.form == 'pred' else alt(O)):
                for y in alt(A):
                    for z in alt(B):
                        names = [t for t in (x, y, z) if t in rec['init']]
                        if names and len(set(names)) == len(names) and (x, y, z) not in cands:
                            cands.append((x, y, z))
        return cands

    def measure(self, st, t):
        if self.form == 'pred':
            return self.joinp(st, t[1], t[2])
        return self.norm(st, cat(self.norm(st, t[0]), self.join(st, self.norm(st, t[1]), self.norm(st, t[2]))))

    def check_iter(self, rec, it, t):
        """output ++ join(rest) is the same before and after the iteration"""
        st = it['st']
        if self.impossible(st):
            return None
        before = self.measure(st, t)
        fin = tuple(it['final'].get(x, x) for x in t)
        after = self.measure(st, fin)
        if before == after:
            return None
        return before, after, st


    # ---- what the operation means -----------------------------------------------------
    def expected(self, st):
        """('keep',) | ('empty',) | ('node', V, A, B) | ('bool', early, A, B)"""
        kind = self.kind
        ea, eb = dec(st, EA), dec(st, EB)
        A = self.norm(st, aC if ea else seq(nm.shortened(a, N)))
        B = self.norm(st, bC if eb else seq(nm.shortened(b, N)))
        if self.form == 'pred':
            if ea and eb:
                if kind == 'inner':
                    if present(st, aV) and present(st, bV) and dec(st, ('t', 'cb', f, aV, bV)):
                        return ('bool', 1, A, B)
                elif present(st, aV):
                    if not present(st, bV) or dec(st, ('t', 'cb', f, aV, bV)):
                        return ('bool', 1, A, B)
            elif not ea and not eb:
                return ('bool', 0 if kind == 'inner' else 1, None, None)
            elif ea and kind == 'left' and present(st, aV):
                return ('bool', 1, A, B)
            return ('bool', None, A, B)
        if kind in ('retain', 'remove'):
            if eb:
                acc = present(st, bV) and dec(st, ('t', 'cb', f, bV))
                if acc:
                    return ('keep',) if kind == 'retain' else ('empty',)
            if not ea and not eb:
                return ('empty',) if kind == 'retain' else ('keep',)
            V = NONE if kind == 'retain' or not ea else self.opt(st, aV)
            return ('node', V, A, B)
        if not ea and not eb:
            if kind == 'inner':
                return ('empty',)
            if kind == 'left':
                return ('keep',)
            return ('node', NONE, A, B)
        if ea and eb:
            pa, pb = present(st, aV), present(st, bV)
            if pa and pb:
                if self.form == 'pure':
                    c = ('t', 'cb', f, aV, bV)
                    V = NONE if not dec(st, discr(c)) else project(project(c, ('v', 1)), ('f', 0))
                else:
                    V = ('t', 'cbm', f, ZERO, aV, bV)
            elif pa:
                V = NONE if kind == 'inner' else aV
            elif pb:
                V = bV if kind == 'outer' else NONE
            else:
                V = NONE
        elif ea:
            V = NONE if kind == 'inner' else self.opt(st, aV)
        else:
            V = self.opt(st, bV) if kind == 'outer' else NONE
        return ('node', V, A, B)

    def opt(self, st, v):
        return v if st.decide(discr(v)) != 0 else NONE

    # ---- one path ----------------------------------------------------------------------
    def check_out(self, o, rep, rule, R=None):
        """compares one path with the meaning of the operation, splitting it where needed"""
        work = [o.st]
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > 64:
                return rep.undecided(rule, where(self.cur), 'too many cases')
            try:
                self.check_case(o, st, rep, rule)
            except Need as e:
                for v in e.vals:
                    s = st.copy()
                    if s.assume(e.atom, v):
                        self.eng.on_fact(s, e.atom, v)
                        work.append(s)

    def result(self, o):
        """(kind, value) of a path"""
        v = o.st.pure(o.val)
        if v[0] == 'adt' and v[1] == RESULT and v[2] == 0:
            x = v[3][0]
            if self.form == 'inplace':
                return self.final_node(o)
            return x
        return None

    def check_case(self, o, st, rep, rule):
        if self.impossible(st):
            return
        exp = self.expected(st)
        res = self.norm(st, self.res)
        w = where(self.cur)
        if self.form == 'pred':
            return self.check_children(o, st, rep, rule, exp, res, None)
        canon = False
        x = res
        while is_t(x, 'canon'):
            x, canon = x[2], True
        whole = x in (a, b)
        if exp[0] == 'keep' and canon and self.merged(st, x) == self.merged(st, a):
            return self.rep_ok(rep, rule, st, 'the result is the left tree')
        if exp[0] == 'keep' and self.norm(st, nP(x)) == self.norm(st, aP) and self.norm(st, nV(x)) == self.norm(st, self.opt(st, aV)) \
                and self.unchanged(o, st, rep, rule, self.norm(st, nC(x)), aC):
            return
        if exp[0] == 'keep' and canon and self.norm(st, nV(x)) == NONE and self.norm(st, nP(x)) == self.norm(st, take(aP, N)) \
                and self.unchanged(o, st, rep, rule, self.norm(st, nC(x)), seq(nm.shortened(a, N))):
            return
        if exp[0] == 'empty' and self.norm(st, nV(x)) == NONE and self.unchanged(o, st, rep, rule, self.norm(st, nC(x)), None):
            if not canon:
                self.canon_missing.append((st, x))
            return
        if exp[0] == 'keep':
            return self.verdict(st, rep, rule, x == a or x == node(aP, aV, aC) or self.same_node(st, x, (aP, self.opt(st, aV), self.norm(st, aC))), x, a, 'the result is the left tree')
        if exp[0] == 'empty':
            v, c, p = (self.norm(st, project(x, ('n', k))) for k in 'VCP')
            if not canon and p != EMPTY and st.decide(eq0(length(p))) != 1:
                self.canon_missing.append((st, x))
            return self.verdict(st, rep, rule, v == NONE and c == EMPTY, x, node(EMPTY, NONE, EMPTY), 'the result is empty')
        _, V, A, B = exp
        V = self.norm(st, V)
        v, c, p = self.norm(st, nV(x)), self.norm(st, nC(x)), self.norm(st, nP(x))
        empty = V == NONE and v == NONE and c == EMPTY
        canon = canon or empty and p == EMPTY
        P = self.norm(st, take(aP, N))
        if (canon or whole) and V == NONE:
            # a node without value and with one child is that child
            m = self.measure(st, (EMPTY, A, B))
            if is_one(m) and is_t(m[2][2], 'node') and self.merged(st, node(P, V, m)) == self.merged(st, x):
                return self.rep_ok(rep, rule, st, 'the result is the only child')
        if not self.verdict(st, rep, rule, v == V, v, V, 'value of the result'):
            return
        self.check_children(o, st, rep, rule, exp, c, lambda m: empty and m == EMPTY or p == P)
        if not canon and not whole:
            self.canon_missing.append((st, x))

    def unchanged(self, o, st, rep, rule, c, ac):
        """children that went through a loop although nothing has to happen to them, or nothing may remain of them:
        every round has to keep them, or take none"""
        ac = EMPTY if ac is None else self.norm(st, ac)
        none = ac == EMPTY
        failed = []
        for lid in dict.fromkeys(e[1] for e in o.st.events if e[0] == 'loop'):
            rec = self.eng.loops.get(lid)
            if rec is None:
                continue
            init = {x: self.norm(st, i) for x, i in rec['init'].items()}
            for x in init:
                for y in init:
                    out = x if self.empty_seq(st, y) == 1 else self.norm(st, cat(x, y))
                    if x == y or init[x] != EMPTY or out != c or self.norm(st, init[x] if none else cat(init[x], init[y])) != ac:
                        continue
                    bad = None
                    for it in rec['iters']:
                        s2 = it['st']
                        if self.impossible(s2):
                            continue
                        before, after = (self.norm(s2, cat(i, j)) for i, j in ((x, EMPTY if none else y), (it['final'][x], EMPTY if none else it['final'][y])))
                        if before == after:
                            continue
                        syms = self.syms | set(rec['init'])
                        if not precise(s2) or not clean_maybe(after, syms):
                            bad = '?'
                            break
                        bad = (before, after, s2)
                    if bad is None:
                        self.rep_ok(rep, rule, st, 'no child is taken' if none else 'the children are kept')
                        return True
                    if bad not in failed:
                        failed.append(bad)
        if len(failed) == 1 and failed[0] != '?' and precise(st):
            before, after, s2 = failed[0]
            rep.bad(rule, where(self.cur), '%s:children of the result:%s' % (self.name, self.cell(st)),
                    '%s in the case %s\nfound    %s\nexpected %s\npath     %s' % (
                        'nothing is common' if none else 'the children have to stay as they are', self.cell(st), show(after), show(before), fact_str(s2.pc)))
            return True
        return False

    def rep_ok(self, rep, rule, st, what):
        rep.ok(rule, where(self.cur), '%s for %s' % (what, self.cell(st)))

    def merged(self, st, x):
        """path, value and children of a node after it took over its only child"""
        p, v, c = (self.norm(st, project(x, ('n', k))) for k in 'PVC')
        for _ in range(4):
            if v != NONE or not is_one(c):
                break
            y = c[2][2]
            p, v, c = self.norm(st, cat(p, nP(y))), self.norm(st, nV(y)), self.norm(st, nC(y))
            for q in (aP, bP):
                # what the paths have in common and the rest of one of them
                if p == cat(self.norm(st, take(aP, N)), self.norm(st, drop(q, N))):
                    p = self.norm(st, q)
        return p, v, c

    def same_node(self, st, x, pvc):
        return tuple(self.norm(st, project(x, ('n', k))) for k in 'PVC') == pvc

    def verdict(self, st, rep, rule, ok, got, want, what):
        w = where(self.cur)
        if ok:
            rep.ok(rule, w, what + ' for ' + self.cell(st))
            return True
        if precise(st) and clean(got, self.syms) and clean(want, self.syms):
            rep.bad(rule, w, '%s:%s:%s' % (self.name, what, self.cell(st)),
                    '%s is wrong in the case %s\nfound    %s\nexpected %s\npath     %s' % (what, self.cell(st), show(got), show(want), fact_str(st.pc)))
        else:
            rep.undecided(rule, w, '%s, case %s: %s / %s' % (what, self.cell(st), show(got), show(want)))
        return False

    def cell(self, st):
        ea, eb = st.decide(EA), st.decide(EB)
        r = {(1, 1): 'a == b', (1, 0): 'a < b', (0, 1): 'b < a', (0, 0): 'a <> b'}.get((ea, eb), '?')
        for n, v in (('a', aV), ('b', bV)):
            d = st.facts.get(('t', 'discr', v))
            if d is not None:
                r += ', %s %s' % (n, 'with value' if d else 'without value')
        return r

    def check_children(self, o, st, rep, rule, exp, got, prefix_ok):
        w = where(self.cur)
        pred = self.form == 'pred'
        if pred:
            d = st.decide(got)
            if d is None:
                g = self.norm(st, got)
                d = st.decide(g)
                for t, v in st.pc:
                    if d is None and self.norm(st, t) == g:
                        d = v
            if d is not None:
                got = I(d)
            if exp[1] is not None:
                return self.verdict(st, rep, rule, got == I(exp[1]), got, I(exp[1]), 'answer')
        A, B = exp[2], exp[3]
        if not pred and is_t(got, 'sorted'):
            # sorted by first byte: both orders of the two disjoint nodes
            inner = got[2]
            if is_t(inner, 'cat') and len(inner) == 4 and sorted(inner[2:], key=key) == sorted(cat(A, B)[2:], key=key) and self.sorts_by_first(got):
                rep.ok(rule, w, 'children sorted by first byte for ' + self.cell(st))
                if prefix_ok is not None:
                    self.verdict(st, rep, rule, prefix_ok(got), ZERO, ONE, 'path of the result')
                return
        if not pred and self.kind == 'outer' and st.decide(EA) == 0 and st.decide(EB) == 0:
            i, j = index(aP, N), index(bP, N)
            l = dec(st, lt(i, j))
            want = cat(A, B) if l else cat(B, A)
            if self.verdict(st, rep, rule, got == want, got, want, 'children of the result'):
                self.verdict(st, rep, rule, prefix_ok(got), ZERO, ONE, 'path of the result')
            return
        triples = [(EMPTY, A, B)]
        fails = []
        roles = set()
        und = None
        lids = []
        for e in o.st.events:
            if e[0] == 'loop' and e[1] not in lids:
                lids.append(e[1])
        m = self.measure(st, triples[0])
        ok = m == got
        for lid in lids:
            if ok:
                break
            rec = self.eng.loops.get(lid)
            if rec is None or not rec['init']:
                continue
            self.seqsyms = self.seqsyms | set(rec['init'])
            cands = self.loop_roles(rec, st, triples)
            good = []
            cf = []
            for t in cands:
                bad = None
                for it in rec['iters']:
                    if it['st'].imprecise:
                        bad = 'imprecise'
                        break
                    r = self.check_iter(rec, it, t)
                    if r is not None:
                        bad = r
                        break
                if bad is None:
                    good.append(t)
                else:
                    cf.append((t, bad))
            if good:
                for t in good:
                    triples.append(t)
                    roles |= {x for x in t if x[0] == 'sym'}
                    m2 = self.measure(st, t)
                    if m2 == got:
                        ok, m = True, m2
                        break
                    m = m2
            else:
                # a complete assignment of the loop's variables that fails is a real difference
                full = [(t, bad) for t, bad in cf if set(rec['init']) <= set(t) and bad != 'imprecise']
                fails.append((lid, full, cf))
        if ok:
            rep.ok(rule, w, 'children of the result for ' + self.cell(st) if not pred else 'answer for ' + self.cell(st))
            rep.count('loop_invariants_checked', len(lids))
            if prefix_ok is not None:
                self.verdict(st, rep, rule, prefix_ok(m), ZERO, ONE, 'path of the result')
            return
        what = 'answer' if pred else 'children of the result'
        if not precise(st):
            return rep.undecided(rule, w, 'imprecise path: %s' % (o.st.imprecise,))
        for lid, full, cf in fails:
            for t, (before, after, s2) in full:
                syms = self.syms | set(self.eng.loops[lid]['init'])
                if clean_maybe(before, syms) and clean_maybe(after, syms):
                    return rep.bad(rule, w, '%s:%s step:%s' % (self.name, what, self.step(s2, t)),
                                   'one step of merging the children is wrong in the case %s\nfound    %s\nexpected %s\npath     %s' % (
                                       self.step(s2, t), show(after), show(before), fact_str(s2.pc)))
            for i in self.eng.loops[lid]['init'].values():
                i = self.norm(st, i)
                if is_one(i) and is_t(i[2][2], 'node') and (nP(i[2][2]) == EMPTY or st.decide(eq0(length(self.norm(st, nP(i[2][2]))))) == 1):
                    return rep.bad(rule, w, '%s:%s:no path:%s' % (self.name, what, self.cell(st)),
                                   'a node of which no path is left is merged as a child in the case %s\npath     %s' % (self.cell(st), fact_str(st.pc)))
            return rep.undecided(rule, w, 'loop not understood')
        syms = self.syms | roles
        if clean_maybe(got, syms) and clean_maybe(m, syms):
            return rep.bad(rule, w, '%s:%s:%s' % (self.name, what, self.cell(st)),
                           '%s is wrong in the case %s\nfound    %s\nexpected %s\npath     %s' % (what, self.cell(st), show(got), show(m), fact_str(st.pc)))
        rep.undecided(rule, w, 'children: %s / %s' % (show(got)[:300], show(m)[:300]))

    def step(self, st, t):
        ea, eb = self.empty_seq(st, t[1]), self.empty_seq(st, t[2])
        if ea == 1:
            return 'only b left'
        if eb == 1:
            return 'only a left'
        c = self.head_cmp(st, t[1], t[2]) if ea == 0 and eb == 0 else None
        return {None: '?', -1: 'a first', 0: 'same first byte', 1: 'b first'}[c]

    def sorts_by_first(self, s):
        return s[3] == ('t', 'fpb', nP(('sym', 'sortprobe')))

    # ---- all paths -----------------------------------------------------------------------
    def final_node(self, o):
        return o.st.pure(self.ctx.tree_node(o.st.mem[SELF])) if self.top else o.st.pure(o.st.read(self.self_addr))

    def check(self, rep, rule):
        self.canon_missing = []
        self.start()
        rep.analysed |= self.eng.analysed
        self.runs.append((self.body, self.eng, self.outs))
        if self.rec_id and self.rec_id in self.eng.trace_entries:
            st, args, pure = self.eng.trace_entries[self.rec_id]
            self.entry = pure
            if self.form == 'inplace' and a in pure:
                r = args[pure.index(a)]
                self.self_addr = r[1:] if r[0] == 'ref' else None
        else:
            self.entry = None
        bodies_ok = self.entry is not None and a in self.entry and b in self.entry
        if not bodies_ok:
            rep.undecided(rule, where(self.body), 'no recursion over both trees found')
            self.entry = self.entry or ()
        for top in (True, False):
            self.top = top
            if top:
                self.cur, outs = self.body, self.outs
            else:
                if not bodies_ok:
                    continue
                body = self.ctx.prog.bodies[self.rec_id]
                self.cur = body
                st, args, pure = self.eng.trace_entries[self.rec_id]
                eng = self.ctx.engine()
                eng.trace_entries = {}
                eng.fid, eng.uid = self.eng.fid, self.eng.uid
                outs = eng.exec_body(st, body, args)
                self.eng = eng
                self.runs.append((body, eng, outs))
            rep.count('paths_analysed', len(outs))
            for o in outs:
                self.one(o, rep, rule, top)

    def one(self, o, rep, rule, top):
        w = where(self.cur)
        if o.kind == 'panic':
            return self.panicked(o, rep, rule)
        if o.kind != 'return':
            return rep.undecided(rule, w, 'path ends with ' + o.kind)
        v = o.st.pure(o.val)
        errs = [e for e in o.st.events if e[0] == 'err']
        if errs:
            return      # error paths are the business of the error rule
        if v[0] != 'adt' or v[1] != RESULT:
            return rep.undecided(rule, w, 'result ' + show(v)[:200])
        if v[2] == 1:
            if precise(o.st) and basic(o.st, self.syms):
                rep.bad(rule, w, '%s:fails without a failure' % self.name, 'an error is returned although nothing failed\npath %s' % fact_str(o.st.pc))
            else:
                rep.undecided(rule, w, 'an error is made up')
            return
        x = v[3][0]
        if self.form == 'inplace':
            self.res = self.final_node(o)
        elif self.form == 'pure' and top:
            self.res = self.ctx.tree_node(x)
        else:
            self.res = x
        self.check_out(o, rep, rule)

    def panicked(self, o, rep, rule):
        w = where(self.cur)
        ev = [e for e in o.st.events if e[0] == 'panic']
        if precise(o.st) and basic(o.st, self.syms):
            rep.bad(rule, w, '%s:panic' % self.name, 'panics: %s\npath %s' % (ev[-1:] and ev[-1][1:], fact_str(o.st.pc)))
        else:
            rep.undecided(rule, w, 'possible panic %s' % (ev[-1:],))


def basic(st, syms):
    """every fact of the path is about a freely chosen part of the inputs"""
    for t, v in st.pc:
        x = t
        if is_t(x, 'discr') and x[2] in (aV, bV):
            continue
        if x in (EA, EB):
            continue
        if is_t(x, 'eq0') and x[2] in (length(aC), length(bC)):
            continue
        return False
    return True


def clean_maybe(v, syms):
    def fn(x):
        return x[2] if is_t(x, 'maybe') else None
    return clean(substitute(v, fn), syms)


def is_one(s):
    return is_t(s, 'cat') and len(s) == 3 and is_t(s[2], 'unit')


def fpb_of(x):
    return nm.fpb(nP(x))


def run(ctx, rep, names=None, rule='combine decision table'):
    for n, spec in OPS.items():
        if names is None or n in names:
            r = Run(ctx, n, spec)
            try:
                r.check(rep, rule + ' ' + n)
            except TooComplex as e:
                rep.undecided(rule, n, str(e))
            yield r


if __name__ == '__main__':
    from mir import Program
    from report import Report
    ctx = Ctx(Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '.build', 'dump.json')))
    rep = Report('TEST', 'quick')
    for r in run(ctx, rep, sys.argv[1:] or None):
        print(r.name, 'canon missing', [show(x)[:100] for s, x in r.canon_missing][:3])
    for k, r in rep.rules.items():
        print(k, {x: y for x, y in r.items() if x != 'constructs'})
    for u in rep.undecided_items[:8]:
        print('UND', u['rule'], u['why'][:300])
    for v in rep.violations[:8]:
        print('BAD', v['construct'], v['detail'][:1200])
