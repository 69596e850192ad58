"""Entailment between linear facts: the numeric domain (rational polyhedra with the axioms of
division and remainder by a positive symbol), decided by Fourier-Motzkin elimination."""
from fractions import Fraction
from terms import *


def facts_of(st):
    """[(linear form, kind)] with kind '>=' or '==' from the branch facts of a path"""
    r = []
    for t, v in st.facts.items():
        if t[0] == 't' and t[1] == 'eq' and v in (0, 1) and nonneg_atom(t[2]) and nonneg_atom(t[3]):
            r.append((sub(t[2], t[3]), '==' if v else '!='))
            continue
        if t[0] != 't' or t[1] not in ('eq0', 'lt0') or v not in (0, 1):
            continue
        d = t[2]
        if t[1] == 'eq0':
            if v:
                r.append((d, '=='))
            else:
                r.append((d, '!='))
        elif v:
            r.append((sub(neg(d), ONE), '>='))
        else:
            r.append((d, '>='))
    for t, v in st.vals.items():
        r.append((sub(t, I(v)), '=='))
    return r


def atoms(forms):
    out = set()
    for f in forms:
        out |= set(lin_parts(f)[1])
    return out


def divmods(v, out):
    def see(x):
        if x[0] == 't' and x[1] in ('div', 'mod'):
            out.add((x[2], x[3]))
        return False
    contains(v, see)


def nodiv(f):
    """f >= 0 over quotients by the same divisor as a fact without quotients, None when there is none"""
    c, parts = lin_parts(f)
    ds = {k: x for k, x in parts.items() if is_t(k, 'div') and not is_int(k[3])}
    if not ds:
        return f
    dv = {k[3] for k in ds}
    if len(dv) != 1:
        return None
    (s,) = dv
    r = mul(I(c), s)
    for k, x in parts.items():
        if k in ds:
            r = add(r, mul(I(x), sub(k[2], ('t', 'mod', k[2], s))))
        elif is_int(k):
            return None
        else:
            return None
    return r


def infeasible(rows, limit=6000):
    """rows: list of (const, {var: coef}) meaning const + sum >= 0"""
    rows = [(Fraction(c), {k: Fraction(x) for k, x in d.items() if x}) for c, d in rows]
    while True:
        for c, d in rows:
            if not d and c < 0:
                return True
        rows = [r for r in rows if r[1]]
        if not rows:
            return False
        cnt = {}
        for c, d in rows:
            for k, x in d.items():
                p = cnt.setdefault(k, [0, 0])
                p[x < 0] += 1
        v = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], repr(k)))
        pos = [r for r in rows if r[1].get(v, 0) > 0]
        ngs = [r for r in rows if r[1].get(v, 0) < 0]
        rest = [r for r in rows if not r[1].get(v, 0)]
        seen = {(c, tuple(sorted(((repr(k), x) for k, x in d.items())))) for c, d in rest}
        for c1, d1 in pos:
            for c2, d2 in ngs:
                a, b = -d2[v], d1[v]
                d = {}
                for k in set(d1) | set(d2):
                    x = a * d1.get(k, 0) + b * d2.get(k, 0)
                    if x and k != v:
                        d[k] = x
                c = a * c1 + b * c2
                m = max([abs(x) for x in d.values()] or [1])
                d = {k: x / m for k, x in d.items()}
                c = c / m
                h = (c, tuple(sorted(((repr(k), x) for k, x in d.items()))))
                if h not in seen:
                    seen.add(h)
                    rest.append((c, d))
        rows = rest
        if len(rows) > limit:
            return False


def residue(x, s):
    """x modulo s with whole multiples of s removed"""
    c, parts = lin_parts(x)
    parts = dict(parts)
    for k in list(parts):
        if is_t(k, 'mod') and k[3] == s and parts.get(k, 0):
            n = -parts[k]
            # n * (t - t % s) is a multiple of s
            c2, p2 = lin_parts(k[2])
            if n > 0 and all(parts.get(a, 0) * (1 if b > 0 else -1) >= abs(b) * n for a, b in p2.items()):
                for a, b in p2.items():
                    parts[a] = parts.get(a, 0) - b * n
                c -= c2 * n
                parts[k] = 0
    if s in parts:
        parts[s] = 0
    return lin_make(c, parts)


class Domain:
    """what the facts of one path say about its numbers"""

    def __init__(self, st, extra=(), positive=()):
        self.facts = [(f, k) for f, k in facts_of(st)] + list(extra)
        self.positive = set(positive)
        self.base = None

    def rows(self, goals):
        forms = []
        for f, k in self.facts:
            if k == '!=':
                if nonneg_atom(f):
                    forms.append(sub(f, ONE))
                continue
            forms.append(f)
            if k == '==':
                forms.append(neg(f))
            g = nodiv(f)
            if g is not None and g != f:
                forms.append(g)
                if k == '==':
                    forms.append(neg(g))
        dm = set()
        for f in forms + list(goals):
            divmods(f, dm)
        for x, s in sorted(dm, key=repr):
            m = ('t', 'mod', x, s)
            forms += [m, sub(sub(s, ONE), m)]
            q = ('t', 'div', x, s)
            if is_int(s):
                # x = s q + m
                e = sub(sub(x, mul(s, q)), m)
                forms += [e, neg(e)]
            forms += [sub(x, m)] if surely_nonneg(x) or True else []
        # (a % s) - c = (a - c) % s when a % s >= c
        for x, s in sorted(dm, key=repr):
            r = residue(x, s)
            if r != x:
                e = sub(('t', 'mod', x, s), ZERO if r == ZERO else ('t', 'mod', r, s))
                forms += [e, neg(e)]
        pairs = [(a, b, s) for a, s in dm for b, s2 in dm if s == s2 and a != b]
        for a, b, s in pairs:
            c = sub(a, b)
            if is_int(c) and c[1] > 0:
                ma, mb = ('t', 'mod', a, s), ('t', 'mod', b, s)
                if infeasible([lin_parts(f) for f in forms + [sub(sub(c, ONE), ma)]] + self.pos(forms)):
                    e = sub(sub(ma, c), mb)
                    forms += [e, neg(e)]
        return forms

    def pos(self, forms):
        r = []
        for a in atoms(forms):
            if nonneg_atom(a):
                r.append((0, {a: 1}))
            if a in self.positive:
                r.append((-1, {a: 1}))
        return r

    def ge0(self, d):
        """d >= 0 on this path"""
        if surely_nonneg(d):
            return True
        if is_int(d):
            return d[1] >= 0
        forms = self.rows([d])
        goal = sub(neg(d), ONE)
        return infeasible([lin_parts(f) for f in forms] + [lin_parts(goal)] + self.pos(forms + [goal]))

    def zero(self, d):
        return d == ZERO or self.ge0(d) and self.ge0(neg(d))

    def equal(self, a, b):
        return a == b or self.zero(sub(a, b))

    def contradictory(self):
        return self.ge0(I(-1)) if False else infeasible([lin_parts(f) for f in self.rows([])] + self.pos(self.rows([])))


def concrete(pc, leaves, limit=60000):
    """values of the leaves (term -> candidates) under which every decision of a path is taken: the path is possible
    when each leaf can have any of its candidate values independently of the others. None when none is found."""
    from itertools import product
    used = [l for l in leaves if any(contains(t, lambda x: x == l) for t, v in pc)]
    n = 1
    for l in used:
        n *= len(leaves[l])
    if n > limit:
        return None
    for vals in product(*[leaves[l] for l in used]):
        env = dict(zip(used, vals))
        if all(evalint(t, env) == v for t, v in pc):
            return env
    return None


def lengths_possible(pc, forced=()):
    """lengths under which the decisions of a path about lengths are taken, given that equal contents have equal lengths: a
    witness {length term: number}, or None when none is found. Decisions about anything else are not looked at."""
    group = {}

    def root(x):
        while group.get(x, x) != x:
            x = group[x]
        return x
    leaves, forms, differ, consts = set(), [], [], {0, 1}

    def note(t):
        def f(x):
            if x[0] == 't' and x[1] in ('len', 'hlen'):
                leaves.add(x)
                return True
            if x[0] == 'i' and abs(x[1]) < 1 << 20:
                consts.add(abs(x[1]))
            if x[0] == 't' and x[1] == 'lin' and isinstance(x[2], int):
                consts.add(abs(x[2]))
            return False
        contains(t, f)
    for t, v in tuple(pc) + tuple(forced):
        if t[0] == 't' and t[1] == 'eq' and all(z[0] in ('t', 'sym') for z in t[2:4]):
            a, b = length(t[2]), length(t[3])
            if v == 1:
                note(a)
                note(b)
                if a[0] == 't' and b[0] == 't':
                    group[root(a)] = root(b)
            else:
                differ.append((a, b))
        elif t[0] == 't' and t[1] in ('eq0', 'lt0'):
            note(t)
            forms.append((t, v))
            c, _ = lin_parts(t[2])
            consts.add(abs(c))
    for a, b in differ:
        note(a)
        note(b)
    roots = sorted({root(l) for l in leaves}, key=repr)
    cand = sorted({max(0, c + d) for c in consts for d in (-1, 0, 1)})
    from itertools import product
    if len(cand) ** len(roots) > 200000:
        return None
    for vals in product(cand, repeat=len(roots)):
        m = dict(zip(roots, vals))
        env = {l: m[root(l)] for l in leaves}
        if all(evalint(t, env) == v for t, v in forms) and not any(evalint(a, env) == 0 and evalint(b, env) == 0 for a, b in differ):
            return env
    return None


def rounds(loops, order, pc, env, limit=3000):
    """values of what loops leave behind, given the values of everything before them: env with the symbols of the loops
    added, such that all decisions of the path are taken. Loops are run for these numbers, in the order given; a round or
    an end whose decisions have no value under env is not taken. None when there is no such end."""
    env = dict(env)
    for n, l in enumerate(order):
        rec = loops.get(l)
        if rec is None:
            return None
        syms = {s: evalint(i, env) for s, i in rec['init'].items()}
        syms = {s: v for s, v in syms.items() if v is not None}
        mine = [(t, v) for t, v in pc if contains(t, lambda x: x in rec['init'])]
        later = set()
        for k in order[n + 1:]:
            later |= set(loops[k]['init']) if k in loops else set()
        mine = [(t, v) for t, v in mine if not contains(t, lambda x: x in later)]
        for _ in range(limit):
            env.update(syms)
            if all(evalint(t, env) == v for t, v in mine):
                break
            nxt = None
            for it in rec['iters']:
                if any(e[0] == 'err' for e in it['events']):
                    continue
                if all(evalint(t, env) == v for t, v in it['pc']):
                    nxt = {s: evalint(it['final'].get(s, s), env) for s in syms}
                    break
            if nxt is None or None in nxt.values() or nxt == syms:
                return None
            syms = nxt
        else:
            return None
    return env if all(evalint(t, env) == v for t, v in pc) else None
