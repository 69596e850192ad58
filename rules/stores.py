"""The page file store: what a path through each public operation does to the file, the maps and the lock."""
from common import *
import errors
import storemodels as fm
from linear import Domain, concrete, rounds, evalint

S, L, LAST, ARC, ID = ('sym', 'page_size'), ('sym', 'file_len'), ('sym', 'last_id'), ('sym', 'store'), ('sym', 'id')
DATA, IDB = ('sym', 'data'), ('sym', 'idbytes')
KNOWN_SYMS = {S, L, LAST, DATA, IDB, ID}


def engine(ctx):
    eng = Engine(ctx.prog, fm.S, max_steps=ctx.big)
    eng.sink = ctx.loop_seen
    eng.on_recursion = nm.on_recursion
    eng.templates = {}
    eng.check_sub = True
    return eng


class Run:
    def __init__(self, eng, outs, body):
        self.eng, self.outs, self.body = eng, outs, body
        self.states = []


def execute(ctx, body, args, st=None, templates=None):
    eng = engine(ctx)
    eng.templates = templates or {}
    outs = eng.exec_body(st or State(), body, args)
    return Run(eng, outs, body)


def ops(o, *names):
    return [e for e in o.st.events if e[0] == 'op' and e[1] in names]


def result(o):
    """('ok', value) / ('err', value) / (kind, None)"""
    if o.kind != 'return':
        return o.kind, None
    v = o.st.pure(o.val)
    if v[0] == 'adt' and v[1] == RESULT:
        return ('err' if v[2] else 'ok'), v[3][0]
    return 'val', v


class Paged:
    """the paged file store of the tree, analysed once"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.why = None
        new = ctx.method('PagedFileStore', 'new')
        self.c0, self.l0 = ('sym', 'cursor0'), ('sym', 'len0')
        try:
            st = State()
            st.assume(lt(self.l0, I(2 ** 63)), 1)       # no file is longer
            self.new = execute(ctx, new, [fm.filev(self.c0, self.l0), S], st)
        except TooComplex as e:
            self.why = str(e)
            return
        self.shape()

    def shape(self):
        """the generic state of an open store, from what new() returns"""
        self.H = self.pos = None
        self.inner = None
        oks = [(o, result(o)[1]) for o in self.new.outs if result(o)[0] == 'ok' and precise(o.st)]
        if not oks:
            self.why = 'no analysable way to open a store %s' % ({x for o in self.new.outs for x in o.st.imprecise} or '')
            return
        o, v = oks[-1]
        reads = [e for e in ops(o, 'read') if e[2][1] == I(8) and is_int(e[2][0])]
        if not reads:
            self.why = 'no size record is read'
            return
        self.pos = reads[0][2][0]
        size = ('t', 'be', ('t', 'fbytes', self.pos, I(8)), I(8))
        size = ('t', 'be', ('t', 'fbytes', self.pos, I(8)), 8)
        self.size = size
        mx = self.find_mutex(v)
        if mx is None:
            self.why = 'the store is not a value behind a lock'
            return
        inner = mx[3][0]
        f = find(inner, lambda x: x[0] == 'adt' and x[1] == fm.FILE)
        if f is None:
            self.why = 'no file'
            return
        flen = fm.fpos(f)[1]
        h = sub(flen, size)
        if not is_int(h):
            h2 = [e for x in self.new.outs for e in ops(x, 'set_len') if is_int(e[2][0])]
            if not h2:
                self.why = 'the length of an opened file is %s' % show(flen)
                return
            h = h2[0][2][0]
        self.H = h
        self.flen_after_open = flen
        n = [0]

        def gen(x):
            if x[0] == 'adt' and x[1] == fm.FILE:
                return fm.filev(('sym', 'cursor'), L)
            if x == S:
                return S
            if x == size:
                return LAST
            if x == flen:
                return L
            if x == EMPTY or is_t(x, 'default') and 'Map<' in x[2][1]:
                n[0] += 1
                return ('sym', 'map%d' % n[0])
            if x[0] == 'adt':
                return ('adt', x[1], x[2], tuple(gen(y) for y in x[3]))
            n[0] += 1
            return x if is_int(x) and False else ('sym', 'other%d' % n[0])
        self.inner = gen(inner)
        self.classes = {}
        self.self_val = subst_val(v, mx, ARC)

    def find_mutex(self, v):
        return find(v, lambda x: x[0] == 'adt' and x[1] == 'MUTEX')

    def state(self):
        st = State()
        st.mem[('X', key(ARC))] = self.inner
        st.assume(eq0(S), 0)
        st.facts[lt0(sub(L, self.H))] = 0
        st.facts[lt0(sub(sub(L, self.H), LAST))] = 0
        return st

    def run(self, name, args):
        body = self.ctx.method('PagedFileStore', name, trait='BlobStore' if name in ('read', 'write', 'sync') else None)
        # what the store keeps in its maps is learned from what it puts there
        r = execute(self.ctx, body, [self.self_val] + args, self.state())
        return r

    def get(self, name, args, templates=None):
        body = self.ctx.method('PagedFileStore', name, trait='BlobStore' if name in ('read', 'write', 'sync') else None)
        return execute(self.ctx, body, [self.self_val] + args, self.state(), templates)

    def odd_sizes(self):
        """empty stores with unusual page sizes, as far as a store can be opened with them"""
        r = []
        for n in (1, 2, 4, 7, 8, 12):
            for o in self.new.outs:
                if result(o)[0] == 'ok' and precise(o.st) and \
                        all(evalint(t, {S: n}) == v for t, v in o.st.pc if contains(t, lambda x: x == S)):
                    r.append({S: n, LAST: 0, L: 4096, length(DATA): 0})
                    break
        return r

    def final(self, o):
        """(file value, the inner state) at the end of a path"""
        inner = o.st.mem[('X', key(ARC))]
        return find(inner, lambda x: x[0] == 'adt' and x[1] == fm.FILE), inner

    def domain(self, o, extra=()):
        return Domain(o.st, list(extra), positive=[S])


def find(v, pred):
    if pred(v):
        return v
    if v[0] == 'adt':
        for x in v[3]:
            if isinstance(x, tuple) and x:
                r = find(x, pred)
                if r is not None:
                    return r
    return None


def subst_val(v, a, b):
    if v == a:
        return b
    if v[0] == 'adt':
        return ('adt', v[1], v[2], tuple(subst_val(x, a, b) for x in v[3]))
    return v


# ---- what the rules need to say about numbers ----------------------------------------------------

def loop_limits(run, o):
    """{symbol: value} for file lengths that a padding loop has brought to a known value

    A loop that is left with length >= T and keeps length <= T leaves the length at T.
    """
    r = {}
    for e in o.st.events:
        if e[0] != 'loop':
            continue
        rec = run.eng.loops.get(e[1])
        if rec is None:
            continue
        for sym, init in rec['init'].items():
            for t, v in list(o.st.facts.items()):
                if t[0] != 't' or t[1] != 'lt0' or v != 0:
                    continue
                c, parts = lin_parts(t[2])
                if parts.get(sym) != 1:
                    continue
                target = sub(sym, t[2])
                if contains(target, lambda x: x == sym):
                    continue
                outer = Domain(o.st, positive=[S])
                if not outer.ge0(sub(target, substitute(init, lambda x: r.get(x)))):
                    continue
                if all(Domain(it['st'], positive=[S]).ge0(sub(target, it['final'].get(sym, sym))) for it in rec['iters']):
                    r[sym] = target
        # what moves in step with something that ends at a known value
        for a in list(r):
            if a not in rec['init']:
                continue
            for b in rec['init']:
                if b not in r and rec['iters'] and is_num(rec['init'][b]) and all(
                        a in it['final'] and b in it['final'] and sub(it['final'][b], b) == sub(it['final'][a], a) for it in rec['iters']):
                    r[b] = add(r[a], sub(*(substitute(rec['init'][x], lambda y: r.get(y)) for x in (b, a))))
    return r


def is_num(x):
    return is_int(x) or is_t(x, 'lin') or x in (L, LAST, S)


class Path:
    """one path with its loop results put in and its numbers at hand"""

    def __init__(self, run, o):
        self.o = o
        self.lim = loop_limits(run, o)
        self.d = Domain(o.st, [(sub(s, t), '==') for s, t in self.lim.items()], positive=[S])
        self.ev = [self.sub_event(e) for e in o.st.events]
        self.run = run

    def sub(self, v):
        return substitute(v, lambda x: self.lim.get(x)) if self.lim else v

    def example(self, states, forms=()):
        """one of the given states of the store (and input) that surely leads along this path and leaves one of the forms
        below zero (with no forms: that leads along this path)"""
        maps = [t for t, v in self.o.st.pc if is_t(t, 'discr') and is_t(t[2], 'mget')]
        fixed = {t: v for t, v in self.o.st.pc if t in maps}
        order = [e[1] for e in self.o.st.events if e[0] == 'loop']
        if len(set(order)) != len(order):
            return None
        for s in states:
            env = rounds(self.run.eng.loops, order, self.o.st.pc, dict(s, **{k: v for k, v in fixed.items()}))
            if env and (not forms or any((evalint(f, env) or 0) < 0 for f in forms)):
                return s
        return None

    def sub_event(self, e):
        return tuple(tuple(self.sub(y) if is_term(y) else y for y in x) if isinstance(x, tuple) and not is_term(x)
                     else self.sub(x) if is_term(x) else x for x in e)

    def ops(self, *names):
        return [e for e in self.ev if e[0] == 'op' and e[1] in names]


def is_term(x):
    return isinstance(x, tuple) and len(x) > 0 and isinstance(x[0], str) and x[0] in TAGS


def unknown_terms(v):
    """terms the rules know nothing about"""
    return contains(v, lambda x: x[0] == 'sym' and (x[1].startswith('other') or x[1].startswith('cursor') or '.' in x[1] or x[1].startswith('length'))
                    or x[0] == 't' and x[1] in ('opaque', 'undef', 'const'))


def states():
    """states in which a store can be when a block is written: blocks have filled the last page up to some place, and its
    first blocks were padded with what was left of the page before"""
    r = []
    for size in (16, 24, 1024, 4096, 65536):
        for page in (0, 1, 3):
            for used in sorted({4, 5, 8, 12, 500, size // 2, size - 2048, size - 1025, size - 1024, size - 1023, size - 5, size - 4, size - 1}):
                if 4 <= used < size:
                    for n in sorted({0, 1, size // 2, size - 9, size - 8}):
                        last = page * size + used
                        r.append({S: size, LAST: last, L: last + 4096, length(DATA): n})
        r += [{S: size, LAST: 0, L: 4096, length(DATA): n} for n in (0, 1, size - 8)]
    return r


STATES = states()


class Judge:
    """records one obligation of a path"""

    def __init__(self, rep, rule, body):
        self.rep, self.rule, self.w, self.name = rep, rule, where(body), body.name

    def refused(self, p, key_, msg, cases, pc=None):
        """an error without a failed operation: no value of the leaves that is fine leads here"""
        pc = list(p.o.st.pc) if pc is None else pc
        for valid, leaves in cases:
            leaves = dict(leaves)
            leaves.update({t: (0, 1) for t, v in pc if is_t(t, 'discr') and is_t(t[2], 'mget')})
            env = concrete([(p.sub(t), v) for t, v in pc] + valid, leaves)
            if env:
                return self.rep.bad(self.rule, self.w, '%s: %s' % (self.name, key_), '%s, for example with %s\npath %s' % (
                    msg, ', '.join('%s = %d' % (show(k), v) for k, v in env.items() if not is_t(k, 'discr')), fact_str(p.o.st.pc, 20)))
        self.rep.ok(self.rule, self.w, 'nothing that is fine was found to be refused')

    def need(self, p, good, key_, msg, about=(), what=None, forms=()):
        """forms: terms none of which may be below zero, when that is what good means"""
        if good:
            self.rep.ok(self.rule, self.w, what or msg)
            return good
        env = p.example(p.run.states, forms) if forms and not p.o.st.imprecise else None
        if env:
            self.rep.bad(self.rule, self.w, '%s: %s' % (self.name, key_), '%s: %s\nfor example with %s\npath %s' % (
                msg, ', '.join(show(x)[:200] for x in about), ', '.join('%s = %d' % (show(k), v) for k, v in env.items()),
                fact_str(p.o.st.pc, 20)))
        elif p.o.st.imprecise:
            self.rep.undecided(self.rule, self.w, 'not established on an imprecise path: ' + msg)
        elif any(unknown_terms(p.sub(x)) for x in about if is_term(x)):
            self.rep.undecided(self.rule, self.w, 'not established: %s (%s)' % (msg, ', '.join(show(x)[:120] for x in about)))
        else:
            self.rep.bad(self.rule, self.w, '%s: %s' % (self.name, key_), '%s: %s\npath %s' % (
                msg, ', '.join(show(x)[:200] for x in about), fact_str(p.o.st.pc, 20)))
        return good


def feasible(p):
    return not p.d.contradictory()


def paged(ctx, rep, rule):
    P = ctx.cache.get('paged')
    if P is None:
        P = ctx.cache['paged'] = Paged(ctx)
    if P.why:
        rep.undecided(rule, 'PagedFileStore', P.why)
        return None
    return P


# ---- write ------------------------------------------------------------------------------------

def write_rules(ctx, rep):
    rule = 'writing a block to a page file'
    P = paged(ctx, rep, rule)
    if P is None:
        return
    try:
        run = P.get('write', [DATA])
        run.states = STATES + P.odd_sizes()
    except TooComplex as e:
        return rep.undecided(rule, 'PagedFileStore::write', str(e))
    J = Judge(rep, rule, run.body)
    rep.analysed |= {ctx.prog.bodies[b].path for b in run.eng.analysed if b in ctx.prog.bodies}
    nfine = 0
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if not feasible(p):
            continue
        if kind == 'panic':
            env = p.example(p.run.states) if not o.st.imprecise else None
            if env:
                rep.bad(rule, J.w, J.name + ': panic', 'writing a block panics, for example with %s\npath %s' % (
                    ', '.join('%s = %d' % (show(k), v) for k, v in env.items()), fact_str(o.st.pc, 20)))
            else:
                rep.undecided(rule, J.w, 'a path that panics')
            continue
        file_effects(P, J, p)
        f, inner = P.final(o)
        inner = p.sub(inner)
        records = [(i, e) for i, e in enumerate(p.ev) if size_record(P, e)]
        good = [(i, e) for i, e in records if not is_t(e[2][1], 'some_of')]
        last = field_of(P, inner, LAST)
        for x in last:
            J.need(p, x == LAST or any(p.d.equal(x, e[2][1][2]) for i, e in good), 'last id before commit',
                   'the last id is changed to something that was not recorded in the file', [x],
                   'the last id only changes to a recorded size')
        if kind == 'err' and not any(e[0] == 'err' for e in o.st.events):
            J.refused(p, 'block refused', 'a block that fits into a page is refused', [
                ([(lt0(sub(S, add(length(DATA), I(8)))), 0)], {length(DATA): (0, 1, 100, 500, 1016), S: (1024,), L: (4096, 4596, 8192), LAST: (0, 500, 4096)})])
        if kind != 'ok':
            continue
        nfine += 1
        v = val[2] if is_t(val, 'tobe') else None
        if v is None:
            J.need(p, False, 'id', 'the id is not a number in big endian bytes', [val])
            continue
        # the block: the data and behind it its length, in one piece at the end of the file
        pieces = []
        for i, e in reversed(list(enumerate(p.ev))):
            if e[0] == 'op' and e[1] == 'append':
                if pieces and not p.d.equal(add(e[2][0], length(e[2][1])), pieces[0][1]):
                    break
                pieces.insert(0, (i, e[2][0], e[2][1]))
        start = None
        for k in range(len(pieces) - 1, -1, -1):
            c = cat(*[x[2] for x in pieces[k:]])
            if block_of(p, c):
                start = pieces[k][1]
                break
        if not J.need(p, start is not None, 'block', 'what is appended last is not the data followed by its length',
                      [cat(*[x[2] for x in pieces[-2:]])] if pieces else [], 'the data and its length are appended in one piece'):
            continue
        end = add(pieces[-1][1], length(pieces[-1][2]))
        J.need(p, p.d.equal(add(v, P.H), end), 'id is not the end', 'the id is not the end of the block', [v, end], 'the id is the end of the block')
        # inside one page
        so = sub(start, P.H)
        inside = p.d.ge0(sub(sub(sub(S, ONE), ('t', 'mod', so, S)), sub(v, so)))
        J.need(p, inside, 'page', 'the block is not shown to end inside the page it starts in', [so, v], 'the block lies inside one page',
               [sub(sub(sub(S, ONE), ('t', 'mod', so, S)), sub(v, so))])
        # recorded
        after = [e for i, e in good if i > pieces[-1][0]]
        J.need(p, bool(after) and p.d.equal(after[-1][2][1][2], v), 'commit', 'the id is returned without its size being recorded in the file behind the data',
               [v], 'the size is recorded after the data and before the id is returned')
        J.need(p, all(p.d.equal(x, v) for x in last), 'last id', 'the last id is not the id of the new block', last, 'the last id is the new id')
        for x in field_of(P, inner, L):
            J.need(p, p.d.equal(x, fm.fpos(f)[1]), 'length field', 'a remembered file length is not the length of the file', [x])
        puts(P, J, p, v)
    if not nfine:
        rep.undecided(rule, J.w, 'no path that succeeds')
    for lid, rec in run.eng.loops.items():
        for it in rec['iters']:
            q = Path(run, Out('return', it['st']))
            if feasible(q):
                file_effects(P, J, q)
            stuck(J, run, lid, rec, it)
    errors.check(rep, 'errors of the page file store', run.body, run.eng, run.outs, cleanup=True)


def stuck(J, run, lid, rec, it):
    """a round that leaves everything as it was is taken again and again"""
    if any(e[0] == 'err' for e in it['events']) or it['st'].imprecise:
        return
    same = []
    for s in rec['init']:
        f = it['final'].get(s, s)
        if f != s:
            same.append((eq(f, s), 1))
    order = [e[1] for e in it['st'].events if e[0] == 'loop' and e[1] != lid] + [lid]
    fixed = {t: v for t, v in it['st'].pc if is_t(t, 'discr') and is_t(t[2], 'mget')}
    for s in run.states:
        if len(set(order)) == len(order) and rounds(run.eng.loops, order, tuple(it['st'].pc) + tuple(same), dict(s, **fixed)):
            J.rep.bad(J.rule, J.w, J.name + ': endless', 'a loop never ends, for example with %s\nround %s' % (
                ', '.join('%s = %d' % (show(k), v) for k, v in s.items()), fact_str(it['pc'], 20)))
            return
    J.rep.ok(J.rule, J.w, 'no round of a loop was found that changes nothing')


def size_record(P, e):
    return e[0] == 'op' and e[1] == 'overwrite' and e[2][0] == P.pos


def block_of(p, c):
    """c is the data followed by its length in 4 bytes"""
    parts = list(c[2:]) if is_t(c, 'cat') else [c]
    if len(parts) != 2 or parts[0] != DATA or not is_t(parts[1], 'tobe') or parts[1][3] != 4:
        return False
    n = parts[1][2]
    while is_t(n, 'cast') and n[3] >= 32 and p.d.ge0(sub(I((1 << n[3]) - 1), n[2])):
        n = n[2]
    return p.d.equal(n, length(DATA))


def file_effects(P, J, p):
    """appends are free; of what exists only the size record may be written, never ahead of the data"""
    for e in p.ops('overwrite', 'set_len'):
        if e[1] == 'set_len':
            J.need(p, p.d.ge0(sub(e[2][0], e[2][1])), 'set_len', 'the file is made shorter', list(e[2]), 'the file never gets shorter')
        elif e[2][0] == P.pos:
            x = e[2][1]
            x = x[2] if is_t(x, 'some_of') else x
            J.need(p, is_t(x, 'tobe') and x[3] == 8 and p.d.ge0(sub(e[2][2], add(x[2], P.H))), 'size record',
                   'the recorded size is ahead of the data in the file', [x, e[2][2]], 'a recorded size is covered by the file')
        else:
            J.need(p, False, 'overwrite', 'bytes of the file are overwritten', [e[2][0], e[2][2]])
    for e in p.ops('append'):
        J.rep.ok(J.rule, J.w, 'data is written at the end of the file')


def field_of(P, inner, cls):
    """current values of the fields that hold cls in the generic state"""
    out = []

    def go(g, x):
        if g == cls:
            out.append(x)
        elif g[0] == 'adt' and g[1] != fm.FILE and x[0] == 'adt' and g[1] == x[1]:
            for a, b in zip(g[3], x[3]):
                go(a, b)
    go(P.inner, inner)
    return out


def puts(P, J, p, v):
    for e in p.ops('put'):
        m, k, x = e[2]
        mm = find(x, lambda y: is_t(y, 'mmap'))
        if mm is not None:
            J.need(p, p.d.equal(mm[2], add(mul(k, S), P.H)) and p.d.equal(mm[3], S), 'page map', 'a page is kept under a number it does not have',
                   [k, mm], 'a mapped page is kept under its number')
            fl = [y[2][2] for y in p.ops('mmap') if y[2][0] == mm[2]]
            J.need(p, bool(fl) and all(p.d.ge0(sub(y, add(mm[2], mm[3]))) for y in fl), 'page beyond the end',
                   'a page is mapped that is not completely in the file', [mm] + fl, 'a mapped page lies inside the file', [sub(y, add(mm[2], mm[3])) for y in fl])
        elif contains(x, lambda y: y == DATA):
            b = find(x, lambda y: y[0] == 'adt' and y[1].endswith('::Blob'))
            J.need(p, p.d.equal(k, v) and (b is None or b[3][0] == DATA), 'block cache', 'a block is remembered under an id that is not its own',
                   [k, v], 'the block is remembered under its id')
        else:
            J.rep.undecided(J.rule, J.w, 'something else is remembered: ' + show(x)[:200])


# ---- read --------------------------------------------------------------------------------------

def page_template(x, k):
    """what is kept for page number k, from one value x that is kept for page number div(y, S)"""
    def f(k2):
        if not is_t(k, 'div') or not is_t(k2, 'div'):
            return None
        y, z = k[2], k2[2]

        def leaf(v):
            if v[0] == 'adt':
                return ('adt', v[1], v[2], tuple(leaf(a) for a in v[3]))
            if is_t(v, 'mmap'):
                return ('t', 'mmap', leaf(v[2]), leaf(v[3]))
            if contains(v, lambda a: a == ('t', 'mod', y, S)):
                d = add(sub(v, y), ('t', 'mod', y, S))
                return add(d, sub(z, ('t', 'mod', z, S)))
            return v
        return leaf(x)
    return f


def block_template(P, k):
    n = ('t', 'be', fm.fbytes(sub(add(k, P.H), I(4)), I(4)), 4)
    return fm.fbytes(sub(sub(add(k, P.H), I(4)), n), n), n


def read_rules(ctx, rep, panics=True):
    rule = 'reading a block from a page file'
    P = paged(ctx, rep, rule)
    if P is None:
        return
    try:
        first = P.get('read', [IDB])
        t = {}
        for o in first.outs:
            for e in ops(o, 'put'):
                m, k, x = e[2]
                if find(x, lambda y: is_t(y, 'mmap')) is not None:
                    t[m] = page_template(x, k)
                elif k == ('t', 'be', IDB, 8):
                    b = find(x, lambda y: y[0] == 'adt' and y[1].endswith('::Blob'))
                    if b is not None:
                        t[m] = lambda k2, x=x, b=b: subst_val(x, b, ('adt', b[1], b[2], tuple(
                            block_template(P, k2)[0] if y == b[3][0] else some(block_template(P, k2)[0]) if y == some(b[3][0]) else y for y in b[3])))
        run = P.get('read', [IDB], t)
    except TooComplex as e:
        return rep.undecided(rule, 'PagedFileStore::read', str(e))
    J = Judge(rep, rule, run.body)
    rep.analysed |= {ctx.prog.bodies[b].path for b in run.eng.analysed if b in ctx.prog.bodies}
    idn = ('t', 'be', IDB, 8)
    want, n4 = block_template(P, idn)
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if not feasible(p):
            continue
        if kind == 'panic':
            if panics:
                e = [e for e in o.st.events if e[0] == 'panic']
                J.need(p, False, 'panic', 'reading can panic (%s)' % (e[-1][1:] if e else '',))
            continue
        for e in p.ops('append', 'overwrite', 'set_len'):
            J.need(p, False, 'read writes', 'reading a block changes the file', [e[2][0]])
        f, inner = P.final(o)
        J.need(p, all(x == LAST for x in field_of(P, inner, LAST)) and fm.fpos(f)[1] == L, 'read state',
               'reading a block changes the recorded end', [fm.fpos(f)[1]], 'reading leaves the end of the data alone')
        for e in p.ops('read'):
            J.need(p, p.d.ge0(sub(e[2][0], P.H)) and p.d.ge0(sub(add(LAST, P.H), add(e[2][0], e[2][1]))), 'read outside',
                   'bytes outside of the blocks are read', [], 'only bytes of the blocks are read')
        for e in p.ops('mmap'):
            J.need(p, p.d.ge0(sub(add(LAST, P.H), add(e[2][0], e[2][1]))), 'map beyond commit', 'a page is mapped that is not completely written',
                   list(e[2]), 'only complete pages are mapped')
        for e in p.ops('put'):
            m, k, x = e[2]
            mm = find(x, lambda y: is_t(y, 'mmap'))
            if mm is not None:
                J.need(p, p.d.equal(mm[2], add(mul(k, S), P.H)) and p.d.equal(mm[3], S), 'page map', 'a page is kept under a number it does not have',
                       [k, mm], 'a mapped page is kept under its number')
            else:
                b = find(x, lambda y: y[0] == 'adt' and y[1].endswith('::Blob'))
                w, n = block_template(P, k)
                J.need(p, b is not None and same_bytes(P, p, b[3][0], w, n), 'block cache', 'something other than the block is remembered under an id',
                       [k, b[3][0] if b else x], 'a block is remembered under its id')
        if kind != 'ok':
            if kind == 'err':
                rep.ok(rule, J.w, 'an error is reported')
                if not any(e[0] == 'err' for e in o.st.events):
                    not_refused(P, J, p, idn, n4)
            continue
        b = find(val, lambda y: y[0] == 'adt' and y[1].endswith('::Blob'))
        got = b[3][0] if b else val
        J.need(p, p.d.ge0(sub(LAST, idn)), 'id beyond the end', 'an id behind the last block is accepted', [], 'only ids up to the last block are read')
        J.need(p, o.st.decide(eq(length(IDB), I(8))) == 1, 'id length', 'an id of another length than 8 is accepted', [], 'only ids of 8 bytes are read')
        J.need(p, same_bytes(P, p, got, want, n4), 'wrong bytes', 'the bytes returned are not the block that ends at the id', [got],
               'the block that ends at the id is returned')
    errors.check(rep, 'errors of the page file store', run.body, run.eng, run.outs, cleanup=True)


def not_refused(P, J, p, idn, n4):
    """without a failed operation, the id of a block that was written is not refused. Blocks lie inside one page."""
    m = ('t', 'mod', idn, S)
    free = [(lt0(sub(LAST, idn)), 0), (lt0(sub(m, add(n4, I(4)))), 0), (eq0(S), 0)]
    pc = [(t if is_t(t, 'discr') else same_length(p, t, n4), v) for t, v in p.o.st.pc]
    d = Domain(p.o.st, [(sub(LAST, idn), '>='), (sub(m, add(n4, I(4))), '>='), (n4, '>=')] + linear_facts(pc), positive=[S])
    if d.contradictory() or p.o.st.decide(eq(length(IDB), I(8))) == 0:
        return J.rep.ok(J.rule, J.w, 'only what is not the id of a block is refused')
    leaves = {idn: (4, 5, 9, 12, 20, 24, 31, 36), n4: (0, 1, 4, 11), S: (16,), LAST: (4, 5, 12, 20, 36), length(IDB): (8,)}
    leaves.update({t: (0, 1) for t, v in pc if is_t(t, 'discr')})
    env = concrete(pc + free, leaves)
    if env:
        J.rep.bad(J.rule, J.w, J.name + ': block refused', 'the id of a block is refused, for example: %s\npath %s' % (
            ', '.join('%s = %d' % (show(k), v) for k, v in env.items() if not is_t(k, 'discr')), fact_str(p.o.st.pc, 20)))
    else:
        J.rep.undecided(J.rule, J.w, 'an id is refused with %s' % fact_str(pc))


def linear_facts(pc):
    r = []
    for t, v in pc:
        if is_t(t, 'lt0'):
            r.append((sub(neg(t[2]), ONE), '>=') if v else (t[2], '>='))
        elif is_t(t, 'eq0') and v:
            r.append((t[2], '=='))
    return r


def same_length(p, t, n4):
    pos4 = n4[2][2]

    def f(x):
        if is_t(x, 'be') and x != n4 and x[3] == 4:
            y = x[2]
            if is_t(y, 'take') and is_t(y[2], 'drop') and is_t(y[2][2], 'mmap') and y[3] == I(4):
                y = fm.fbytes(add(y[2][2][2], y[2][3]), y[3])
            if is_t(y, 'fbytes') and y[3] == I(4) and p.d.equal(y[2], pos4):
                return n4
        return None
    return substitute(t, f)


def same_bytes(P, p, got, want, n4):
    """got and want are the same bytes of the file on this path"""
    def flat(x):
        if is_t(x, 'take') and is_t(x[2], 'drop') and is_t(x[2][2], 'mmap'):
            return fm.fbytes(add(x[2][2][2], x[2][3]), x[3])
        if is_t(x, 'take') and is_t(x[2], 'mmap'):
            return fm.fbytes(x[2][2], x[3])
        return None
    got = substitute(got, flat)
    # the length field
    pos4 = n4[2][2]

    def lenfield(x):
        if is_t(x, 'be') and is_t(x[2], 'fbytes') and x != n4 and p.d.equal(x[2][2], pos4) and x[2][3] == I(4) and x[3] == 4:
            return n4
        return None
    got = substitute(got, lenfield)
    if got == EMPTY:
        return p.d.equal(n4, ZERO)
    if not is_t(got, 'fbytes'):
        return False
    return p.d.equal(got[2], want[2]) and p.d.equal(got[3], want[3])


# ---- open ---------------------------------------------------------------------------------------

def open_rules(ctx, rep):
    rule = 'opening a page file'
    P = paged(ctx, rep, rule)
    if P is None:
        return
    run = P.new
    J = Judge(rep, rule, run.body)
    rep.analysed |= {ctx.prog.bodies[b].path for b in run.eng.analysed if b in ctx.prog.bodies}
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if not feasible(p):
            continue
        if kind == 'panic':
            J.need(p, False, 'panic', 'opening a file can panic')
            continue
        fresh = p.d.zero(P.l0)
        change = p.ops('append', 'overwrite', 'set_len')
        if kind == 'err':
            io = [e for e in o.st.events if e[0] == 'err']
            J.need(p, io or fresh or not change, 'rejected file changed', 'a file is changed although it is rejected',
                   [e[2][0] for e in change], 'a rejected file is left alone')
            if not io:
                kept = [(lt0(sub(sub(P.l0, P.H), P.size)), 0)]
                J.refused(p, 'file refused', 'a file of the store is refused', [
                    (kept, {P.l0: (4096, 4106, 5120, 8192), P.size: (0, 10, 1024, 4096), S: (1024,)}), ([], {P.l0: (0,), P.size: (0,), S: (1024,)})])
            continue
        if kind != 'ok':
            rep.undecided(rule, J.w, 'result ' + kind)
            continue
        J.need(p, Domain(o.st).ge0(sub(S, ONE)), 'page size', 'a page size of 0 is accepted', [], 'the page size is positive')
        mx = P.find_mutex(val)
        inner = mx[3][0] if mx is not None else None
        f = find(inner, lambda x: x[0] == 'adt' and x[1] == fm.FILE) if inner is not None else None
        if f is None:
            rep.undecided(rule, J.w, 'no file in the result')
            continue
        J.need(p, p.d.equal(fm.fpos(f)[1], add(P.size, P.H)), 'end of the file', 'the opened file does not end where the last commit ended',
               [fm.fpos(f)[1], P.size], 'the file ends where the last commit ended')
        last = field_of(P, inner, LAST)
        J.need(p, all(p.d.equal(x, P.size) for x in last) and len(last) > 0, 'last id', 'the last id of an opened file is not the recorded size', last,
               'the last id is the recorded size')
        if not fresh:
            J.need(p, p.d.ge0(sub(sub(P.l0, P.H), P.size)), 'short file', 'a file that is shorter than its recorded size is accepted', [P.size],
                   'a file that lost data is rejected')
            for e in change:
                if e[1] == 'overwrite' or e[1] == 'append':
                    J.need(p, False, 'open writes', 'opening an existing file writes to it', [e[2][0]])
        maps = [x for x in field_maps(P, inner)]
        J.need(p, all(x == EMPTY or is_t(x, 'default') for x in maps), 'maps', 'something is remembered for a file that was just opened', maps)
    errors.check(rep, 'errors of the page file store', run.body, run.eng, run.outs, cleanup=True)


def field_maps(P, inner):
    r = []

    def go(g, x):
        if g[0] == 'sym' and g[1].startswith('map'):
            r.append(x)
        elif g[0] == 'adt' and g[1] != fm.FILE and x[0] == 'adt':
            for a, b in zip(g[3], x[3]):
                go(a, b)
    go(P.inner, inner)
    return r


# ---- sync and last_id ---------------------------------------------------------------------------

def sync_rules(ctx, rep):
    rule = 'syncing a page file'
    P = paged(ctx, rep, rule)
    if P is None:
        return
    run = P.get('sync', [])
    J = Judge(rep, rule, run.body)
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if kind == 'ok':
            J.need(p, bool(p.ops('sync_all', 'sync_data')), 'no sync', 'the file is not synced to disk', [], 'the file is synced to disk')
            for e in p.ops('append', 'overwrite', 'set_len'):
                J.need(p, False, 'sync writes', 'syncing changes the file', [e[2][0]])
        elif kind == 'panic':
            J.need(p, False, 'panic', 'syncing can panic')
    errors.check(rep, 'errors of the page file store', run.body, run.eng, run.outs, cleanup=True)


def last_id_rules(ctx, rep):
    rule = 'last id of a page file'
    P = paged(ctx, rep, rule)
    if P is None:
        return
    run = P.get('last_id', [])
    J = Judge(rep, rule, run.body)
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if kind != 'val' or val[0] != 'adt' or val[1] != OPTION:
            rep.undecided(rule, J.w, 'result ' + kind)
            continue
        if val[2] == 0:
            J.need(p, p.d.zero(LAST), 'none', 'no last id is reported for a store with blocks', [], 'no last id exactly for an empty store')
        else:
            J.need(p, val[3][0] == ('t', 'tobe', LAST, 8) and o.st.decide(eq0(LAST)) == 0, 'value', 'the last id is not the last block', [val],
                   'the last id is the last block')
