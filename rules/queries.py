"""Lookups, prefix queries, first/last and iteration (C06..C09).

Lookups are decision tables over the relation of the key and the path of a node. Iterators are
state machines: what is still to come of a state is defined by E below, and every step of the
iterator has to preserve it.
"""
from common import *
import errors

a, sa, k1, k2, fcb, pre = (('sym', x) for x in ('a', 'sa', 'k1', 'k2', 'f', 'pre'))
SELF = ('R', 'self')


class Need(Exception):
    def __init__(self, atom, vals=(0, 1)):
        self.atom, self.vals = atom, vals


class Undecided(Exception):
    pass


def dec(st, atom):
    r = st.decide(atom)
    if r is None:
        raise Need(atom)
    return r


class Table:
    """compares every path of a function with what it means"""
    syms = {a, sa, k1, k2, fcb, pre}

    def __init__(self, ctx, rep, rule, body):
        self.ctx, self.rep, self.rule, self.body = ctx, rep, rule, body
        self.w = where(body)

    def cases(self, st0, fn):
        """runs fn for every split of the facts it asks for"""
        work, n = [st0], 0
        while work:
            st = work.pop()
            n += 1
            if n > 64:
                return self.rep.undecided(self.rule, self.w, 'too many cases')
            try:
                fn(st)
            except Need as e:
                for v in e.vals:
                    s = st.copy()
                    if s.assume(e.atom, v):
                        self.eng.on_fact(s, e.atom, v)
                        work.append(s)
            except Undecided as e:
                self.rep.undecided(self.rule, self.w, str(e))

    def verdict(self, st, ok, got, want, what, cell):
        if ok:
            self.rep.ok(self.rule, self.w, '%s for %s' % (what, cell))
            return True
        if precise(st) and clean(got, self.syms) and clean(want, self.syms):
            self.rep.bad(self.rule, self.w, '%s:%s:%s' % (self.body.name, what, cell), '%s is wrong in the case %s\nfound    %s\nexpected %s\npath     %s' % (
                what, cell, show(got), show(want), fact_str(st.pc)))
        else:
            self.rep.undecided(self.rule, self.w, '%s, case %s: %s / %s %s' % (what, cell, show(got), show(want), st.imprecise))
        return False

    def panicked(self, o, free):
        """a panic is a violation when all its facts can be chosen freely"""
        ev = [e for e in o.st.events if e[0] == 'panic']
        if precise(o.st) and all(free(t, v) for t, v in o.st.pc):
            self.rep.bad(self.rule, self.w, '%s:panic' % self.body.name, 'panics: %s\npath %s' % (ev[-1:] and ev[-1][1:], fact_str(o.st.pc)))
        else:
            self.rep.undecided(self.rule, self.w, 'possible panic %s after %s' % (ev[-1:], fact_str(o.st.pc)))


class Lookup(Table):
    """try_get, try_contains_key, try_has_prefix, try_filter_prefix, try_scan_prefix and first/last"""

    def __init__(self, ctx, rep, name, kind):
        super().__init__(ctx, rep, 'decision table of ' + name, ctx.method('RadixTree', name))
        self.kind, self.name = kind, name
        self.reckind = kind

    def run(self):
        ctx = self.ctx
        eng = self.eng = ctx.engine()
        eng.trace_entries = {}
        st = State()
        st.mem[SELF] = ctx.tree(a, sa)
        self.top, self.root, self.pre = True, True, EMPTY
        args = [('ref', SELF, ())] + [k1, k2][:self.body.argc - 1]
        try:
            outs = eng.exec_body(st, self.body, args)
        except TooComplex as e:
            return self.rep.undecided(self.rule, self.w, str(e))
        self.rep.analysed |= eng.analysed
        self.rep.count('paths_analysed', len(outs))
        errors.check(self.rep, 'errors of ' + self.name, self.body, eng, outs)
        recs = {e[1] for o in outs for e in o.st.events if e[0] == 'rec'}
        self.rec_id = recs.pop() if len(recs) == 1 else None
        self.entry = None
        if self.rec_id in eng.trace_entries:
            self.entry = eng.trace_entries[self.rec_id][2]
        if self.entry is None or a not in self.entry:
            self.entry = None
        runs = [(self.body, outs, True)]
        if self.entry is not None:
            body = ctx.prog.bodies[self.rec_id]
            # the remaining key is an arbitrary rest of the whole key
            args = []
            self.collects = [v == EMPTY and self.kind.endswith('value') for v in self.entry]
            for v, c in zip(self.entry, self.collects):
                if c:
                    args.append(pre)
                elif v in (a, k1) or v[0] != 'clo':
                    args.append(v)
                else:
                    args.append(substitute(v, lambda x: cat(pre, k1) if x == k1 else None))
            e2 = ctx.engine()
            e2.trace_entries = {}
            e2.fid, e2.uid = eng.fid, eng.uid
            e2.fns = eng.fns
            try:
                o2 = e2.exec_body(State(), body, args)
                errors.check(self.rep, 'errors of ' + self.name, body, e2, o2)
                self.entry2 = tuple(args)
                runs.append((body, o2, False))
            except TooComplex as e:
                self.rep.undecided(self.rule, self.w, str(e))
        self.view = self.viewed(runs[1][1]) if len(runs) > 1 else None
        for body, outs, top in runs:
            if self.view == 'other':
                self.rep.undecided(self.rule, self.w, 'the recursion returns something else')
            self.top = self.root = top
            self.w = where(body)
            self.pre = EMPTY if top else pre
            if not top:
                self.eng = e2
                self.entry = self.entry2
            for o in outs:
                self.one(o)

    SHAPES = {'get': 'opt', 'contains': 'bool', 'has_prefix': 'bool', 'first_value': 'opt', 'last_value': 'opt', 'first_entry': 'pair', 'last_entry': 'pair'}

    def viewed(self, outs):
        """how the answer is made from what the recursion returns: None as it is, 'is_some', 'second' of a pair"""
        found = set()
        for o in outs:
            if o.kind != 'return' or any(e[0] == 'err' for e in o.st.events):
                continue
            v = o.st.pure(o.val)
            if v[0] != 'adt' or v[1] != RESULT or v[2] != 0:
                continue
            v = option_norm(v[3][0])
            if v[0] == 'int' or is_t(v, 'lt0') or is_t(v, 'eq0'):
                found.add('bool')
            elif is_t(v, 'nV') or v[0] == 'adt' and v[1] == OPTION and v[2] == 1 and v[3][0][:2] != ('adt', 'tuple'):
                found.add('opt')
            elif v[0] == 'adt' and v[1] == OPTION and v[2] == 1:
                found.add('pair')
        want = self.SHAPES.get(self.kind)
        if want is None or not found - {want}:
            return None
        return {('bool', 'opt'): 'is_some', ('bool', 'pair'): 'is_some', ('opt', 'pair'): 'second'}.get((want, *found), 'other')

    def seen(self, v):
        """the answer a result of the recursion stands for"""
        v = option_norm(v)
        if self.top or self.view is None or is_t(v, 'rec'):
            return v
        if self.view == 'second' and v[0] == 'adt' and v[1] == OPTION:
            return some(project(v[3][0], ('f', 1))) if v[2] == 1 else v
        if self.view == 'is_some':
            if v[0] == 'adt' and v[1] == OPTION:
                return I(v[2])
            return discr(v)
        raise Undecided('result of the recursion')

    def answer(self, st, r):
        """the answer at the top when the recursion answers r"""
        if not self.top or self.view is None:
            return r
        if self.view == 'is_some':
            return I(dec(st, discr(r)))
        found = [r]
        for t, _ in st.pc:
            contains(t, lambda x: is_t(x, 'rec') and self.unpathed(x) == self.unpathed(r) and found.append(x))
        r = found[-1]
        return some(project(project(project(r, ('v', 1)), ('f', 0)), ('f', 1))) if dec(st, discr(r)) else NONE

    def one(self, o):
        if self.view == 'other':
            return
        if o.kind == 'panic':
            def go(st):
                if self.impossible(st):
                    return
                self.panicked(o, lambda t, v: self.free(t))
            return self.cases(o.st, go)
        if o.kind != 'return':
            return self.rep.undecided(self.rule, self.w, 'path ends with ' + o.kind)
        if any(e[0] == 'err' for e in o.st.events):
            return
        v = o.st.pure(o.val)
        if v[0] != 'adt' or v[1] != RESULT:
            return self.rep.undecided(self.rule, self.w, 'result ' + show(v)[:200])
        if v[2] == 1:
            return self.rep.undecided(self.rule, self.w, 'an error is made up')
        self.cases(o.st, lambda st: self.case(st, v[3][0]))

    # ---- relation of key and path ------------------------------------------------
    @property
    def N(self):
        return cp(k1, nP(a))

    def cell(self, st):
        if self.kind in ('first_value', 'last_value', 'first_entry', 'last_entry'):
            return 'value %s, children %s' % ({0: 'absent', 1: 'present', None: '?'}[st.decide(discr(nV(a)))],
                                              {1: 'absent', 0: 'present', None: '?'}[st.decide(eq0(length(nC(a))))])
        ek, ep = st.decide(eq(self.N, length(k1))), st.decide(eq(self.N, length(nP(a))))
        r = {(1, 1): 'key == path', (1, 0): 'key inside path', (0, 1): 'key below path', (0, 0): 'key elsewhere'}.get((ek, ep), '?')
        return r if self.top else r + ' (recursion)'

    def free(self, t):
        return t in (eq(self.N, length(k1)), eq(self.N, length(nP(a)))) or is_t(t, 'discr') and t[2] == nV(a) or t == eq0(length(nC(a))) or \
            is_t(t, 'discr') and is_t(t[2], 'find')

    def impossible(self, st):
        """len(key) < len(path) contradicts key == path and so on"""
        ek, ep = st.decide(eq(self.N, length(k1))), st.decide(eq(self.N, length(nP(a))))
        if ek == 0 and st.decide(eq0(length(k1))) == 1 or ep == 0 and st.decide(eq0(length(nP(a)))) == 1:
            return True

        def fn(x):
            if ek and x == length(k1) or ep and x == length(nP(a)):
                return self.N
        for t, v in st.pc:
            if t[0] == 't' and t[1] in ('lt0', 'eq0') and t not in (eq(self.N, length(k1)), eq(self.N, length(nP(a)))):
                x = substitute(t, fn)
                if x[0] == 'int' and x[1] != v:
                    return True
                d = x[2] if is_t(x, 'lt0') else None
                if d is not None and v == 1 and surely_nonneg(d):
                    return True
        return not self.root and st.decide(discr(nV(a))) == 0 and st.decide(eq0(length(nC(a)))) == 1

    def norm(self, st, v):
        ek, ep = st.decide(eq(self.N, length(k1))) == 1, st.decide(eq(self.N, length(nP(a)))) == 1
        P = nP(a)
        N = self.N

        def fn(x):
            if x == N:
                return length(P) if ep else length(k1) if ek else None
            if ek and ep and x in (k1,):
                return P
            if ek and ep and x == length(k1):
                return length(P)
            if is_t(x, 'take') and x[3] == length(P) and ep and x[2] == k1:
                return P
            if is_t(x, 'take') and x[3] == length(k1) and ek and x[2] == P:
                return k1
            if x[0] == 'adt' and x[1] == OPTION and x[2] == 1:
                q = option_norm(x)
                return q if q != x else None
            if is_t(x, 'nV') and st.facts.get(('t', 'discr', x)) == 0:
                return NONE
            if x == nC(a) and st.decide(eq0(length(x))) == 1:
                return EMPTY
            return None
        prev = None
        for _ in range(4):
            if v == prev:
                break
            prev = v
            v = substitute(v, fn)
        return v

    def rec_term(self, st, x, r):
        if self.entry is None:
            raise Undecided('the recursion was not found')
        args = tuple(x if v == a else r if v == k1 else v for v in self.entry)
        return ('t', 'rec', ('str', self.rec_id)) + args

    def below(self, st):
        """the child to go on with, or None"""
        N = self.N
        if dec(st, eq0(length(nC(a)))):
            return None
        c = index(k1, N)
        if not dec(st, discr(('t', 'find', nC(a), c))):
            return None
        return ('t', 'child', nC(a), c)

    def case(self, st, v):
        if self.impossible(st):
            return
        kind = self.kind
        P, V, C = nP(a), nV(a), nC(a)
        if kind in ('first_value', 'last_value', 'first_entry', 'last_entry'):
            first, entry = kind.startswith('first'), kind.endswith('entry')
            key_ = cat(k1, P)

            def own():
                p = dec(st, discr(V))
                return (some(tup(key_, V)) if entry else V) if p else NONE

            def rec(i):
                args = tuple(index(C, i) if x == a else key_ if x == k1 and entry else x for x in (self.entry or ()))
                if not args:
                    raise Undecided('the recursion was not found')
                return self.answer(st, ('t', 'rec', ('str', self.rec_id)) + args)
            e = dec(st, eq0(length(C)))
            if first:
                want = own() if dec(st, discr(V)) or e else rec(ZERO)
            else:
                want = own() if e else rec(sub(length(C), ONE))
            got, want = self.optval(self.unpathed(self.seen(self.norm(st, v)))), self.optval(self.unpathed(self.norm(st, want)))
            return self.verdict(st, got == want, got, want, 'result', self.cell(st))
        ek, ep = dec(st, eq(self.N, length(k1))), dec(st, eq(self.N, length(P)))
        found = ek and ep
        inside = ek and not ep
        child = self.below(st) if ep and not ek else None
        if child is not None:
            r = drop(k1, self.N)
            want = self.answer(st, self.rec_term(st, child, r))
            if kind == 'filter' and self.top:
                v = self.tree_of(st, v)
            got, want = self.seen(self.norm(st, v)), self.norm(st, want)
            return self.verdict(st, got == want, got, want, 'result', self.cell(st))
        if kind == 'get':
            want = V if found and dec(st, discr(V)) else NONE
        elif kind == 'contains':
            want = I(found and dec(st, discr(V)))
        elif kind == 'has_prefix':
            want = I(inside or found and (dec(st, discr(V)) or not dec(st, eq0(length(C)))))
        elif kind == 'filter':
            return self.filter(st, v, found, inside)
        elif kind == 'scan':
            return self.scan(st, v, found or inside)
        got, want = self.optval(self.norm(st, self.seen(self.norm(st, v)))), self.optval(self.norm(st, want))
        self.verdict(st, got == want, got, want, 'result', self.cell(st))

    def unpathed(self, v):
        """the path that is collected does not matter where only the value is wanted"""
        if self.view != 'second' or self.entry is None:
            return v

        def fn(x):
            if is_t(x, 'rec') and x[2] == ('str', self.rec_id) and len(x) == 3 + len(self.entry):
                return x[:3] + tuple(('t', 'path') if self.collects[i] else y for i, y in enumerate(x[3:]))
        return substitute(v, fn)

    def optval(self, v):
        """a value that is there is itself the option"""
        if v[0] == 'adt' and v[1] == OPTION and v[2] == 1 and is_t(v[3][0], 'nV'):
            return v[3][0]
        return v

    def tree_of(self, st, v):
        f = self.ctx.fields('RadixTree')
        if v[0] != 'adt' or v[1] != self.ctx.adt('RadixTree')['id']:
            raise Undecided('result ' + show(v)[:100])
        s = project(v, ('f', f.index('store')))
        if s != sa:
            self.verdict(st, False, s, sa, 'store of the result', self.cell(st))
        return project(v, ('f', f.index('node')))

    def filter(self, st, v, found, inside):
        x = self.norm(st, self.tree_of(st, v) if self.top else v)
        canon = False
        while is_t(x, 'canon'):
            x, canon = x[2], True
        P, V, C = nP(a), nV(a), nC(a)
        p, val, c = nP(x), self.norm(st, nV(x)), self.norm(st, nC(x))
        if not found and not inside:
            ok = val == NONE and c == EMPTY and (canon or p == EMPTY)
            return self.verdict(st, ok, x, node(EMPTY, NONE, EMPTY), 'result', self.cell(st))
        e = not inside and not dec(st, discr(V)) and dec(st, eq0(length(C)))
        if e:
            # filtering the empty tree
            ok = val == NONE and c == EMPTY and (canon or p == EMPTY)
            return self.verdict(st, ok, x, node(EMPTY, NONE, EMPTY), 'result', self.cell(st) + ', empty tree')
        want = self.norm(st, node(cat(k2, drop(P, self.N)), V, C))
        got = node(self.norm(st, p), val, c)
        self.verdict(st, got == want, got, want, 'result', self.cell(st))

    def scan(self, st, v, hit):
        m = Machine(self.ctx, 'KeyValueIter')
        m.norm = self.norm
        if hit:
            dec(st, discr(nV(a)))
        got = bottom(m.measure(st, *m.parts(self.norm(st, v), sa)))
        if hit:
            want = bottom(m.measure(st, self.norm(st, self.pre), seq(tup(ZERO, some(seq(a))))))
        else:
            want = EMPTY
        self.verdict(st, got == want, strip_e(got), strip_e(want), 'entries to come', self.cell(st))


class Machine:
    """what is still to come of the state of an iterator"""

    def __init__(self, ctx, owner):
        self.ctx, self.owner = ctx, owner
        self.kind = {'ValueIter': 'values', 'KeyValueIter': 'entries', 'GroupBy': 'groups'}[owner]

    def norm(self, st, v):
        return v

    def parts(self, v, store=None):
        f = self.ctx.fields(self.owner)
        if v[0] != 'adt' or v[1] != self.ctx.adt(self.owner)['id']:
            raise Undecided('not an iterator: ' + show(v)[:100])
        d = {n: project(v, ('f', i)) for i, n in enumerate(f)}
        if not {'stack', 'store'} <= set(d) or self.kind != 'values' and 'path' not in d:
            raise Undecided('fields of ' + self.owner)
        if store is not None and d['store'] != store:
            raise Undecided('store of ' + self.owner)
        p = d.get('path', EMPTY)
        if p[0] == 'adt':
            p = as_seq(p[3][0])
        return p, as_seq(d['stack'])

    def unpath(self, p):
        return p

    def last(self, st, S):
        """(rest, last element) of a stack, None when it is empty, 'unknown' otherwise"""
        if S == EMPTY:
            return None
        if is_t(S, 'cat') and is_t(S[-1], 'unit'):
            return cat(*S[2:-1]), S[-1][2]
        e = st.decide(eq0(length(S)))
        if e == 1:
            return None
        if e == 0:
            n = sub(length(S), ONE)
            return take(S, n), index(S, n)
        return 'unknown'

    def measure(self, st, p, S, depth=0):
        """the sequence of things to come, ending in an E-term where the facts end"""
        parts = []
        for _ in range(24):
            l = self.last(st, S)
            if l is None:
                return cat(*parts)
            if l == 'unknown':
                break
            rest, e = l
            if self.kind == 'values':
                n, it = ZERO, e
            else:
                n, opt = project(e, ('f', 0)), option_norm(project(e, ('f', 1)))
                d = st.decide(discr(opt))
                if d is None:
                    break
                if d == 0:
                    p, S = self.pop(p, n), rest
                    continue
                it = project(project(opt, ('v', 1)), ('f', 0))
            it = as_seq(it)
            ee = st.decide(eq0(length(it)))
            if ee == 1:
                p, S = self.pop(p, n), rest
                continue
            if ee is None:
                break
            x, t = index(it, ZERO), drop(it, ONE)
            back = t if self.kind == 'values' else tup(n, some(t))
            q = cat(p, nP(x))
            c = nC(x) if self.kind == 'values' else tup(length(nP(x)), some(nC(x)))
            if self.kind == 'groups':
                cb = st.decide(('t', 'cb', fcb, q, x))
                if cb is None:
                    break
                if not cb:
                    parts.append(unit(node(q, nV(x), nC(x))))
                    S = cat(rest, unit(back))
                    continue
            v = st.decide(discr(nV(x)))
            if v is None:
                break
            if v:
                parts.append(unit({'values': nV(x), 'entries': tup(q, nV(x)), 'groups': node(q, nV(x), EMPTY)}[self.kind]))
            p = EMPTY if self.kind == 'values' else q
            S = cat(rest, unit(back), unit(c))
        return cat(*parts, ('t', 'E', p, self.nstack(st, S)))

    def pop(self, p, n):
        return take(p, sub(length(p), n)) if n != ZERO else p

    def nstack(self, st, S):
        """normal form of a stack: no finished iterators but the marks of their prefixes"""
        if not is_t(S, 'cat'):
            return S
        out = []
        for x in S[2:]:
            if is_t(x, 'unit') and self.kind != 'values':
                e = x[2]
                n, opt = project(e, ('f', 0)), option_norm(project(e, ('f', 1)))
                if is_t(opt, 'upd') and [q for q, _ in opt[3]] == [('v', 1)]:
                    opt = some(project(project(opt, ('v', 1)), ('f', 0)))
                if opt[0] == 'adt' and opt[2] == 1 and opt[3][0] == EMPTY:
                    opt = NONE
                if is_t(n, 'fld') and is_t(opt, 'fld') and n[2] == opt[2] and n[3] == 0 and opt[3] == 1:
                    out.append(unit(n[2]))
                else:
                    out.append(unit(tup(n, opt)))
            else:
                out.append(x)
        return cat(*out)


class IterRule(Table):
    """steps of an iterator"""

    def __init__(self, ctx, rep, owner):
        super().__init__(ctx, rep, 'steps of ' + owner, ctx.method(owner, 'next', 'Iterator'))
        self.m = Machine(ctx, owner)
        self.owner = owner
        self.syms = set(self.syms) | {('sym', 'p'), ('sym', 'S')}

    def item(self, v):
        """the thing an item stands for"""
        if self.m.kind == 'entries' and v[0] == 'adt' and v[1] == 'tuple':
            k = v[3][0]
            if k[0] == 'adt':
                k = as_seq(k[3][0])
            return tup(k, option_norm(v[3][1]))
        if self.m.kind == 'groups':
            while is_t(v, 'canon'):
                v = v[2]
            return node(nP(v), option_norm(nV(v)), nC(v))
        return option_norm(v)

    def run(self):
        ctx = self.ctx
        eng = self.eng = ctx.engine()
        st = State()
        f = ctx.fields(self.owner)
        vals = {'path': ('adt', ctx.adt('IterKey')['id'], 0, (('sym', 'p'),)), 'stack': ('sym', 'S'), 'store': sa, 'descend': fcb}
        if not set(f) <= set(vals):
            return self.rep.undecided(self.rule, self.w, 'unknown fields of the iterator')
        st.mem[SELF] = ('adt', ctx.adt(self.owner)['id'], 0, tuple(vals[x] for x in f))
        try:
            outs = eng.exec_body(st, self.body, [('ref', SELF, ())])
        except TooComplex as e:
            return self.rep.undecided(self.rule, self.w, str(e))
        self.rep.analysed |= eng.analysed
        self.rep.count('paths_analysed', len(outs))
        errors.check(self.rep, 'errors of ' + self.owner, self.body, eng, outs)
        for l in eng.loops.values():
            self.syms |= set(l['init'])
        loops = eng.loops
        for l in loops.values():
            back = {i: s for s, i in l['init'].items()}
            if not set(back) <= {('sym', 'p'), ('sym', 'S')}:
                return self.rep.undecided(self.rule, self.w, 'a loop is not understood')
        if len(loops) > 1:
            return self.rep.undecided(self.rule, self.w, 'several loops')
        m = {('sym', 'p'): ('sym', 'p'), ('sym', 'S'): ('sym', 'S')}
        for l in loops.values():
            for s, i in l['init'].items():
                m[i] = s
        for l in loops.values():
            for it in l['iters']:
                if any(e[0] == 'err' for e in it['st'].events):
                    continue
                fin = {k: it['final'].get(v, v) for k, v in m.items()}
                self.cases(it['st'], lambda s: self.step(s, m, None, fin[('sym', 'p')], fin[('sym', 'S')]))
        for o in outs:
            inl = any(e[0] == 'loop' for e in o.st.events)
            mm = m if inl else {k: k for k in m}
            self.out(o, mm)

    def start(self, st, m):
        p = m[('sym', 'p')] if self.m.kind != 'values' else EMPTY
        return self.m.measure(st, p, m[('sym', 'S')])

    def impossible(self, st):
        # the path is at least as long as the prefixes on the stack: they were appended to it
        return any(is_t(t, 'lt0') and v == 1 and contains(t, lambda x: is_t(x, 'fld') and x[3] == 0) for t, v in st.pc)

    def step(self, st, m, item, p, S):
        if self.impossible(st):
            return
        before = self.start(st, m)
        if self.m.kind == 'values':
            p = EMPTY
        after = self.m.measure(st, p, as_seq(S))
        if item is not None:
            after = cat(unit(item), after)
        syms, self.syms = self.syms, self.syms
        self.verdict_e(st, before, after)

    def verdict_e(self, st, before, after):
        if self.unfold(before) == self.unfold(after):
            return self.rep.ok(self.rule, self.w, 'the step yields what is to come')

        def strip(v):
            return substitute(v, lambda x: cat(x[2], x[3]) if is_t(x, 'E') else None)
        if precise(st) and clean(strip(before), self.syms) and clean(strip(after), self.syms) and not self.vague(before, after):
            self.rep.bad(self.rule, self.w, '%s:step' % self.owner, 'a step of the iterator does not yield what is to come\nyielded and left %s\nexpected         %s\npath %s' % (
                show(after), show(before), fact_str(st.pc)))
        else:
            self.rep.undecided(self.rule, self.w, 'step: %s / %s' % (show(after)[:300], show(before)[:300]))

    def unfold(self, x):
        return x

    def vague(self, before, after):
        return False

    def out(self, o, m):
        if o.kind == 'panic':
            if self.impossible(o.st):
                return
            return self.panicked(o, lambda t, v: False)
        if o.kind != 'return':
            return self.rep.undecided(self.rule, self.w, 'path ends with ' + o.kind)
        v = o.st.pure(o.val)
        p, S = self.m.parts(o.st.pure(o.st.mem[SELF]))
        errs = any(e[0] == 'err' for e in o.st.events)
        if errs:
            # a failed iterator is finished
            ok = o.st.decide(eq0(length(S))) == 1
            rule = 'a failed %s is finished' % self.owner
            if ok:
                errors.to(self.rep).ok(rule, self.w, 'nothing is left after an error')
            elif precise(o.st) and is_t(S, 'cat') and any(is_t(x, 'unit') for x in S[2:]) and m_only(self.ctx, self.owner) or precise(o.st) and clean(S, self.syms) and m_only(self.ctx, self.owner):
                errors.to(self.rep).bad(rule, self.w, '%s:goes on after an error' % self.owner, 'after an error the iterator goes on with %s\npath %s' % (show(S), fact_str(o.st.pc)))
            else:
                errors.to(self.rep).undecided(rule, self.w, show(S)[:200])
            return
        if v[0] == 'adt' and v[1] == OPTION and v[2] == 0:
            return self.cases(o.st, lambda s: self.end(s, m))
        if v[0] == 'adt' and v[1] == OPTION and v[3][0][0] == 'adt' and v[3][0][1] == RESULT and v[3][0][2] == 0:
            x = self.item(v[3][0][3][0])
            return self.cases(o.st, lambda s: self.step(s, m, x, p, S))
        self.rep.undecided(self.rule, self.w, 'item ' + show(v)[:200])

    def end(self, st, m):
        if self.impossible(st):
            return
        self.verdict_e(st, self.start(st, m), EMPTY)


def m_only(ctx, owner):
    """the stack is all that says whether the iterator goes on"""
    return set(ctx.fields(owner)) <= {'stack', 'store', 'path', 'descend'}


class IterStart(Table):
    """try_iter, try_values, try_group_by: the first state holds the whole tree"""

    def __init__(self, ctx, rep, name, owner):
        super().__init__(ctx, rep, 'start of ' + name, ctx.method('RadixTree', name))
        self.m = Machine(ctx, owner)

    def run(self):
        ctx = self.ctx
        eng = self.eng = ctx.engine()
        st = State()
        st.mem[SELF] = ctx.tree(a, sa)
        outs = eng.exec_body(st, self.body, [('ref', SELF, ()), fcb][:self.body.argc])
        self.rep.analysed |= eng.analysed
        for o in outs:
            if o.kind != 'return':
                self.rep.undecided(self.rule, self.w, 'path ends with ' + o.kind)
                continue
            v = o.st.pure(o.val)
            if is_t(v, 'map'):
                self.wrapped(o, v[3])
                v = v[2]
            self.cases(o.st, lambda s: self.check(s, v))

    def check(self, st, v):
        p, S = self.m.parts(v, sa)
        got = self.m.measure(st, p, S)
        st0 = EMPTY
        want = self.m.measure(st, st0, seq(seq(a)) if self.m.kind == 'values' else seq(tup(ZERO, some(seq(a)))))
        self.verdict(st, strip_e(got) == strip_e(want), strip_e(got), strip_e(want), 'entries to come', 'a new iterator')

    def wrapped(self, o, f):
        """the items of group_by are trees with the store of the tree"""
        n = ('sym', 'n')
        for r in self.eng.apply(o.st.copy(), f, [ok(n)]):
            v = r.st.pure(r.val) if r.kind == 'return' else ('t', 'undef')
            want = ok(self.ctx.tree(n, sa))
            self.syms = set(self.syms) | {n}
            self.verdict(r.st, v == want, v, want, 'item', 'a group')
        for r in self.eng.apply(o.st.copy(), f, [err(n)]):
            v = r.st.pure(r.val) if r.kind == 'return' else ('t', 'undef')
            self.verdict(r.st, v == err(n), v, err(n), 'item', 'an error')


def bottom(v):
    """finished iterators at the bottom of the whole stack do not matter, nor how much of the path the lowest one owns"""
    def f(x):
        if not is_t(x, 'E') or not is_t(x[3], 'cat') or not all(is_t(y, 'unit') and y[2][0] == 'adt' for y in x[3][2:]):
            return None
        l = list(x[3][2:])
        while l and l[0][2][3][1] == NONE:
            l.pop(0)
        if l:
            l[0] = unit(tup(ZERO, l[0][2][3][1]))
        return ('t', 'E', x[2], cat(*l)) if l else EMPTY
    return substitute(v, f)


def strip_e(v):
    return substitute(v, lambda x: cat(unit(x[2]), x[3]) if is_t(x, 'E') else None)


LOOKUPS = {
    'C06': [('try_get', 'get'), ('try_contains_key', 'contains'), ('try_has_prefix', 'has_prefix')],
    'C07': [('try_scan_prefix', 'scan'), ('try_filter_prefix', 'filter')],
    'C09': [('try_first_value', 'first_value'), ('try_last_value', 'last_value'), ('try_first_entry', 'first_entry'), ('try_last_entry', 'last_entry')],
}


def lookups(prop):
    def g(ctx, rep):
        for n, k in LOOKUPS[prop]:
            Lookup(ctx, rep, n, k).run()
    return g


def iterators(*owners):
    def g(ctx, rep):
        for o in owners:
            IterRule(ctx, rep, o).run()
    return g


def starts(ctx, rep):
    for n, o in (('try_iter', 'KeyValueIter'), ('try_values', 'ValueIter'), ('try_group_by', 'GroupBy')):
        IterStart(ctx, rep, n, o).run()
