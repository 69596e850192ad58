"""Path partitioned abstract interpretation of MIR bodies.

Every abstract path carries the branch facts that select it, the abstract memory and the
calls to things outside the analysed code (events). Loops are not unrolled: the places a loop
changes are replaced by unknowns at its header until that is stable, and the paths through one
generic iteration form the loop's summary. Local helper functions are analysed at their call
sites; recursion is cut at the first re-entered function. No solver is involved: branches whose
condition is not decided by the facts collected so far are followed both ways.
"""
import re
from terms import *


class TooComplex(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'vals', 'pc', 'events', 'loops', 'stack', 'imprecise', 'n')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.vals = {}
        self.pc = ()
        self.events = ()
        self.loops = ()
        self.stack = ()
        self.imprecise = ()
        self.n = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.vals = dict(self.vals)
        s.pc = self.pc
        s.events = self.events
        s.loops = self.loops
        s.stack = self.stack
        s.imprecise = self.imprecise
        s.n = self.n
        return s

    # ---- memory ------------------------------------------------------
    def root(self, r):
        v = self.mem.get(r)
        if v is None:
            if r[0] == 'D':
                return r[1]
            return ('t', 'undef')
        return v

    def read(self, addr):
        r, projs = addr
        v = self.root(r)
        for p in projs:
            v = project(v, p)
        return v

    def write(self, addr, val):
        r, projs = addr
        self.mem[r] = store(self.root(r), projs, val) if projs else val

    def deref(self, v):
        """the value behind any number of references"""
        while v[0] == 'ref':
            v = self.read((v[1], v[2]))
        return v

    def pure(self, v, depth=0):
        """v without references into memory"""
        if v[0] == 'ref':
            return self.pure(self.deref(v), depth + 1)
        if v[0] == 'adt' and v[3]:
            f = tuple(self.pure(x, depth + 1) for x in v[3])
            return v if f == v[3] else ('adt', v[1], v[2], f)
        if v[0] == 'clo' and v[2]:
            return ('clo', v[1], tuple(self.pure(x, depth + 1) for x in v[2]))
        if v[0] == 't' and v[1] in ('cat', 'unit', 'upd', 'map'):
            if contains(v, lambda x: x[0] == 'ref'):
                return substitute(v, lambda x: self.pure(x, depth + 1) if x[0] == 'ref' else None)
        return v

    def event(self, *e):
        self.events = self.events + (e,)

    # ---- facts -------------------------------------------------------
    def decide(self, t):
        if t[0] == 'int':
            return t[1]
        if is_t(t, 'not'):
            r = self.decide(t[2])
            return None if r is None else 1 - r
        f = self.facts
        r = f.get(t)
        if r is not None:
            return r
        if t[0] != 't':
            return self.vals.get(t)
        op = t[1]
        if op in ('eq0', 'lt0'):
            d = self.subst(t[2])
            if d != t[2]:
                return self.decide(eq0(d) if op == 'eq0' else lt0(d))
            return self.decide_lin(op, d)
        if op == 'discr' and is_t(t[2], 'cmp'):
            a, b = t[2][2], t[2][3]
            x = self.decide(discr(('t', 'cmp', b, a))) if ('t', 'discr', ('t', 'cmp', b, a)) in f else None
            if x is not None:
                return -x
            if self.decide(eq(a, b)) == 1:
                return 0
            if not has_struct(a) and not has_struct(b):
                if self.decide(lt(a, b)) == 1:
                    return -1
                if self.decide(lt(b, a)) == 1:
                    return 1
        if op == 'eq':
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                c = f.get(('t', 'discr', ('t', 'cmp', x, y)))
                if c is not None:
                    return int(c == 0)
            ra, rb = self.resolve(a), self.resolve(b)
            if (ra, rb) != (a, b):
                e = eq(ra, rb)
                if e != t:
                    return self.decide(e)
        if op in ('min', 'and', 'or', 'cast', 'mod', 'div'):
            return self.vals.get(t)
        return None

    def resolve(self, v):
        """replaces an unknown enum value by the variant the facts give"""
        if v[0] in ('t', 'sym'):
            k = self.facts.get(('t', 'discr', v))
            if k is not None and k == 0 and not is_t(v, 'cmp') and looks_option(v):
                return NONE
        return v

    def subst(self, d):
        if not self.vals:
            return d
        c, parts = lin_parts(d)
        ch = False
        out = {}
        for k, x in parts.items():
            if k in self.vals:
                c += x * self.vals[k]
                ch = True
            else:
                out[k] = x
        return lin_make(c, out) if ch else d

    def decide_lin(self, op, d):
        f = self.facts
        c, parts = lin_parts(d)
        body = lin_make(0, parts)
        nbody = neg(body)
        lo, hi = None, None     # bounds of the non constant part
        ne = []
        for t, r in f.items():
            if t[0] != 't' or t[1] not in ('eq0', 'lt0'):
                continue
            c2, p2 = lin_parts(t[2])
            b2 = lin_make(0, p2)
            if b2 == body:
                s = 1
            elif b2 == nbody:
                s = -1
            else:
                continue
            if t[1] == 'eq0':
                v = -c2 * s
                if r:
                    lo = v if lo is None else max(lo, v)
                    hi = v if hi is None else min(hi, v)
                else:
                    ne.append(v)
            else:
                # s*body + c2 < 0 is r
                if s == 1:
                    if r:
                        hi = -c2 - 1 if hi is None else min(hi, -c2 - 1)
                    else:
                        lo = -c2 if lo is None else max(lo, -c2)
                else:
                    if r:
                        lo = c2 + 1 if lo is None else max(lo, c2 + 1)
                    else:
                        hi = c2 if hi is None else min(hi, c2)
        if lo is None and surely_nonneg(body):
            lo = 0
        elif lo is not None and surely_nonneg(body):
            lo = max(lo, 0)
        if surely_nonneg(nbody):
            hi = 0 if hi is None else min(hi, 0)
        if eq0(body) == ZERO:
            ne.append(0)
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        if op == 'eq0':
            v = -c
            if lo is not None and hi is not None and lo == hi == v:
                return 1
            if lo is not None and v < lo or hi is not None and v > hi or v in ne:
                return 0
            return None
        # body + c < 0
        if hi is not None and hi + c < 0:
            return 1
        if lo is not None and lo + c >= 0:
            return 0
        return None

    def assume(self, t, val):
        """adds t == val, False when that contradicts the facts"""
        if is_t(t, 'not'):
            return self.assume(t[2], 1 - val)
        r = self.decide(t)
        if r is not None:
            return r == val
        if val == 0 and is_t(t, 'discr') and is_t(t[2], 'cmp') and self.decide(eq(t[2][2], t[2][3])) == 0:
            return False
        self.facts[t] = val
        self.pc = self.pc + ((t, val),)
        if t[0] == 't' and t[1] == 'eq0' and val == 1:
            c, parts = lin_parts(t[2])
            if len(parts) == 1:
                (k, x), = parts.items()
                if abs(x) == 1:
                    self.vals[k] = -c * x
        elif t[0] == 'sym' or t[0] == 't' and t[1] not in ('eq0', 'lt0', 'discr', 'eq'):
            self.vals[t] = val
        return True


def looks_option(v):
    return True


def has_struct(v):
    return v[0] in ('adt', 'clo') or is_t(v, 'cat')


def discr(v):
    if v[0] == 'adt':
        return I(v[2] - 1 if v[1] == ORDERING else v[2])
    if is_t(v, 'cmp'):
        a, b = v[2], v[3]
        if a == b:
            return ZERO
        if is_int(a) and is_int(b):
            return I((a[1] > b[1]) - (a[1] < b[1]))
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] == OPTION:
            if a[2] != b[2]:
                return I(-1 if a[2] < b[2] else 1)
            if a[2] == 1:
                return discr(('t', 'cmp', a[3][0], b[3][0]))
            return ZERO
    return ('t', 'discr', v)


BUILDERS['discr'] = discr

CORE_VARIANTS = {OPTION: 2, RESULT: 2, CFLOW: 2}


class Call:
    __slots__ = ('info', 'key', 'ty', 'span', 'body', 'fid', 'dest', 'argtys', 'trait')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Out:
    """one way a function or region can end"""
    __slots__ = ('kind', 'st', 'val', 'block')

    def __init__(self, kind, st, val=None, block=None):
        self.kind, self.st, self.val, self.block = kind, st, val, block


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').strip(':')


def path_key(path):
    """'std::vec::Vec::<T, A>::push' -> 'Vec::push', 'core::slice::<impl [T]>::len' -> 'slice::len'"""
    m = re.search(r'<impl (?:[^<>]|<[^<>]*>)*?\bfor (.+)>::(\w+)$', path)
    if m:
        return strip_generics(m.group(1)).split('::')[-1] + '::' + m.group(2)
    m = re.search(r'<impl ([^>]+)>::(\w+)$', path)
    if m:
        t = m.group(1)
        if t.startswith('['):
            return 'slice::' + m.group(2)
        return strip_generics(t).split('::')[-1] + '::' + m.group(2)
    m = re.match(r'<(.+) as (.+)>::(\w+)$', path)
    if m:
        return strip_generics(m.group(2)).split('::')[-1] + '::' + m.group(3)
    parts = strip_generics(path).split('::')
    return '::'.join(parts[-2:])


class Engine:
    def __init__(self, prog, models, max_steps=400000, track_drops=False):
        self.prog = prog
        self.models = models
        self.steps = 0
        self.max_steps = max_steps
        self.fid = 0
        self.loops = {}
        self.sink = None
        self.uid = 0
        self.track_drops = track_drops
        self.analysed = set()
        self.unknown = {}
        self.fns = {}
        self.rec_roles = {}
        self.on_recursion = None
        self.const_cache = {}
        self.max_depth = 60
        self._bodykey = {}
        self.notes = set()
        self.trace_entries = None
        self.mark_ext = False       # note extended lifetimes as events
        self.check_sub = False      # subtractions may go below zero
        self.check_add = False      # sums may exceed the largest index

    # ---- names ---------------------------------------------------------
    def body_key(self, b):
        k = self._bodykey.get(b.id)
        if k is None:
            sa = self.prog.self_adt(b)
            if b.kind in ('Closure', 'closure') or '{closure' in b.id.split('::')[-1]:
                k = b.id
            elif sa:
                t = sa.split('::')[-1]
                t = strip_generics(t)
                k = t + '::' + b.name
            elif b.impl:
                k = 'impl::' + b.name
            else:
                k = b.name
            self._bodykey[b.id] = k
        return k

    def new(self, prefix):
        self.uid += 1
        return '%s%d' % (prefix, self.uid)

    # ---- places ----------------------------------------------------------
    def addr(self, st, fr, place):
        r, projs = ('L', fr[1], place[0]), ()
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = st.read((r, projs))
                if v[0] == 'ref':
                    r, projs = v[1], v[2]
                else:
                    projs = projs + (('*',),)
            elif k == 'f':
                if r[0] == 'B' and not projs and e[2] == 'value':
                    continue        # MaybeUninit { value: ManuallyDrop { value } } of a new box
                projs = projs + (('f', e[1]),)
            elif k == 'v':
                projs = projs + (('v', e[1]),)
            elif k == 'i':
                projs = projs + (('i', st.read((('L', fr[1], e[1]), ()))),)
            elif k == 'ci':
                # ["ci", offset, min_length, from_end]
                i = e[1]
                fe = e[3] if len(e) > 3 else False
                v = as_seq(st.read((r, projs)))
                projs = projs + (('i', sub(length(v), I(i)) if fe else I(i)),)
            elif k == 'sub':
                # subslice [from, to, from_end]
                v = as_seq(st.read((r, projs)))
                a, b, fe = e[1], e[2], e[3]
                end = sub(length(v), I(b)) if fe else I(b)
                nr = ('T', self.new('sub'))
                st.mem[nr] = take(drop(v, I(a)), sub(end, I(a)))
                r, projs = nr, ()
            else:
                projs = projs + ((k,),)
        return r, tuple(p for p in projs if p[0] != '*')

    def place_ty(self, fr, place):
        body = fr[0]
        t = body.locals[place[0]][0]
        for e in place[1]:
            if e[0] == '*':
                ty = self.prog.ty(t)
                if ty['k'] in ('ref', 'ptr'):
                    t = ty['to']
                elif ty.get('args'):
                    t = ty['args'][0]
            elif e[0] == 'f':
                t = e[3]
            elif e[0] in ('i', 'ci'):
                ty = self.prog.ty(t)
                t = ty.get('of', t)
        return t

    # ---- operands ----------------------------------------------------------
    def operand(self, st, fr, o):
        if o[0] in ('c', 'm') and o[0] != 'k':
            return st.read(self.addr(st, fr, o[1]))
        return self.constant(st, fr, o[1])

    def constant(self, st, fr, c):
        if 'fn' in c:
            i = c['fn']
            r = i.get('res') or {}
            k = ('fn', r.get('id') or i['id'], i['path'])
            self.fns[k] = i
            return k
        if 'val' in c:
            ty = self.prog.ty(c['ty'])
            v = I(c['val'])
            if ty['k'] == 'adt':
                a = self.prog.adts.get(ty['id'])
                if a and a['kind'] == 'Struct' and len(a['variants'][0][1]) == 1:
                    return ('adt', ty['id'], 0, (v,))
                if c.get('uneval') is None:
                    return self.enum_const(ty, c['val'])
            else:
                return v
        if 'str' in c:
            return ('str', c['str'])
        if 'uneval' in c:
            return self.uneval(st, c)
        if c.get('zst'):
            ty = self.prog.ty(c['ty'])
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'adt':
                return ('adt', ty['id'], 0, ())
            if ty['k'] == 'closure':
                return ('clo', ty['id'], ())
            if ty['k'] == 'array':
                return ('adt', 'array', 0, ())
            return ('t', 'zst', ('str', ty['s']))
        d = c.get('dbg', '')
        if d.startswith('b"') or d.startswith('&[') or d.startswith('[') or d.startswith('*b"'):
            return ('t', 'bytes', ('str', d))
        return ('t', 'const', ('str', d))

    def enum_const(self, ty, val):
        if ty['id'] == ORDERING:
            n = val if val < 128 else val - 256
            return ordering(n)
        return ('adt', ty['id'], val, ())

    def uneval(self, st, c):
        b = self.prog.bodies.get(c['uneval'])
        if b is not None and 'promoted' in c and c['promoted'] is not None:
            b = b.promoted[c['promoted']] if c['promoted'] < len(b.promoted) else None
        if b is None:
            return ('t', 'const', ('str', c.get('dbg', c['uneval'])))
        if b.id in self.const_cache:
            return self.const_cache[b.id]
        m = self.models.get('const:' + self.body_key(b))
        if m is not None:
            return m
        s = State()
        s.stack = st.stack
        outs = [o for o in self.exec_body(s, b, []) if o.kind == 'return']
        if len(outs) != 1:
            v = ('t', 'const', ('str', c.get('dbg', c['uneval'])))
        else:
            v = outs[0].st.pure(outs[0].val)
        self.const_cache[b.id] = v
        return v

    # ---- rvalues ------------------------------------------------------------
    def rvalue(self, st, fr, rv, dest_ty=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            a = self.addr(st, fr, rv[2])
            mutable = rv[1] is True or rv[1] == 'Mut'
            if mutable:
                return ('ref', a[0], a[1])
            v = st.read(a)
            if v[0] == 'ref':
                return v
            return v
        if k == 'cast':
            return self.cast(st, fr, rv)
        if k == 'bin':
            a, b = self.num(st, self.operand(st, fr, rv[2])), self.num(st, self.operand(st, fr, rv[3]))
            bits = self.NARROW.get(self.op_ty(fr, rv[2]))
            if bits and rv[1][:3] in ('Add', 'Sub', 'Mul'):
                return self.narrow(st, rv[1], a, b, bits)
            return self.binop(rv[1], a, b)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                ty = self.op_ty(fr, rv[2])
                if ty == 'bool':
                    return boolnot(v)
                if is_int(v) and v[1] >= 0 and ty in self.BITS:
                    return I(v[1] ^ ((1 << self.BITS[ty]) - 1))
                return ('t', 'bitnot', v)
            if rv[1] == 'PtrMetadata':
                return length(st.deref(v))
            if rv[1] == 'Neg':
                return neg(v)
            return ('t', rv[1], v)
        if k == 'discr':
            v = st.deref(st.read(self.addr(st, fr, rv[1])))
            return discr(v)
        if k == 'agg':
            return self.aggregate(st, fr, rv)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int):
                if n <= 16:
                    return ('adt', 'array', 0, (v,) * n)
                return ('t', 'rep', v, I(n))
            return ('t', 'rep', v, ('sym', str(n)))
        if k == 'len':
            return length(st.read(self.addr(st, fr, rv[1])))
        return ('t', 'opaque', ('str', str(k)))

    def num(self, st, v):
        return st.deref(v)

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.prog.tys_s(self.place_ty(fr, o[1]))
        return self.prog.tys_s(o[1]['ty'])

    BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'bool': 1, 'u128': 128, 'char': 32}

    def cast(self, st, fr, rv):
        kind, o, ty = rv[1], rv[2], rv[3]
        v = self.operand(st, fr, o)
        if kind == 'IntToInt':
            sty, dty = self.op_ty(fr, o) or '', self.prog.tys_s(ty)
            src = self.BITS.get(sty, 64)
            dst = self.BITS.get(dty, 64)
            if is_t(v, 'signed') and dst <= v[3]:
                v, src = v[2], v[3]
            if dty.startswith('i') and dst <= src and not is_int(v) and not sty.startswith('i'):
                if dst < src and st.decide(lt(v, I(1 << dst))) != 1:
                    v = ('t', 'cast', v, dst)
                return v if st.decide(lt(v, I(1 << (dst - 1)))) == 1 else ('t', 'signed', v, dst)
            if dty.startswith('i') and dst <= src and is_int(v):
                x = v[1] & ((1 << dst) - 1)
                return I(x - (1 << dst) if x >> (dst - 1) else x)
            if dst < src:
                if is_int(v):
                    return I(v[1] & ((1 << dst) - 1))
                return v if st.decide(lt(v, I(1 << dst))) == 1 else ('t', 'cast', v, dst)
            return v
        if kind.startswith('PointerExpose'):
            return ('t', 'ptraddr', st.pure(v))
        if kind.startswith('PointerWithExposed'):
            return v
        if kind == 'Transmute' and self.mark_ext and self.prog.tys_s(ty).startswith('&'):
            st.event('ext', st.pure(v))
        if kind == 'BoxDerefTransmute':
            while is_t(v, 'fld'):
                v = v[2]
        return v

    NARROW = {'u8': 8, 'u16': 16, 'u32': 32}

    def narrow(self, st, op, a, b, bits):
        """arithmetic of a type in which numbers run over"""
        r = {'Add': add, 'Sub': sub, 'Mul': mul}[op[:3]](a, b)
        over = lt(a, b) if op[:3] == 'Sub' else lt(I((1 << bits) - 1), r)
        k = st.decide(over) if not is_int(over) else over[1]
        if op.endswith('Overflow'):
            return tup(r, over if k is None else I(k))
        if k == 0:
            return r
        return I(r[1] & ((1 << bits) - 1)) if is_int(r) else ('t', 'cast', r, bits)

    def binop(self, op, a, b):
        if op in ('Eq', 'Ne'):
            r = eq(a, b)
            return r if op == 'Eq' else boolnot(r)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Le':
            return boolnot(lt(b, a))
        if op == 'Ge':
            return boolnot(lt(a, b))
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            r = add(a, b)
            return tup(r, lt(I(2 ** 64 - 1), r) if self.check_add else ZERO) if op.endswith('Overflow') else r
        if op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
            r = sub(a, b)
            return tup(r, lt(a, b) if self.check_sub else ZERO) if op.endswith('Overflow') else r
        if op in ('Mul', 'MulWithOverflow', 'MulUnchecked'):
            r = mul(a, b)
            return tup(r, ZERO) if op.endswith('Overflow') else r
        o = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Rem': 'mod', 'Div': 'div', 'Shl': 'shl', 'Shr': 'shr'}.get(op)
        if o:
            if o in ('and', 'or', 'xor') and key(b) < key(a):
                a, b = b, a
            t = ('t', o, a, b)
            e = evalint(t, {})
            if e is not None:
                return I(e)
            # booleans
            if o == 'and' and ZERO in (a, b):
                return ZERO
            if o == 'or' and a == ZERO:
                return b
            if o == 'or' and b == ZERO:
                return a
            return t
        return ('t', 'bin' + op, a, b)

    def aggregate(self, st, fr, rv):
        kind, info, ops = rv[1], rv[2], rv[3]
        vals = tuple(self.operand(st, fr, o) for o in ops)
        if kind == 'tuple':
            return ('adt', 'tuple', 0, vals)
        if kind == 'array':
            return ('adt', 'array', 0, vals)
        if kind == 'closure':
            return ('clo', info, vals)
        if kind == 'adt':
            a = self.prog.adts.get(info['id'])
            if a and a['kind'] == 'Union':
                return ('adt', info['id'], 'u:%d' % info['active'], vals)
            v = ('adt', info['id'], info['variant'], vals)
            h = self.models.get('agg:' + info['id'].split('::')[-1])
            if h:
                r = h(self, st, v)
                if r is not None:
                    return r
            return v
        return ('t', 'agg') + vals

    # ---- execution --------------------------------------------------------
    def exec_body(self, st, body, args):
        """all ends of body for the given arguments; the state is consumed"""
        self.fid += 1
        fid = self.fid
        self.analysed.add(body.id)
        if self.trace_entries is not None and body.id not in self.trace_entries:
            self.trace_entries[body.id] = (st.copy(), list(args), tuple(st.pure(x) for x in args))
        st = st.copy()
        st.stack = st.stack + (body.id,)
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        outs = []
        for o in self.run(st, (body, fid), 0, None, None):
            if o.kind == 'return':
                o.val = o.st.root(('L', fid, 0))
                for k in [k for k in o.st.mem if k[0] == 'L' and k[1] == fid]:
                    del o.st.mem[k]
                o.st.stack = o.st.stack[:-1]
            outs.append(o)
        return outs

    def run(self, st, fr, block, region, header):
        body, fid = fr
        headers = body.headers()
        ends = []
        work = [(st, block, True)]
        while work:
            st, b, first = work.pop()
            while True:
                if region is not None and b not in region:
                    ends.append(Out('exit', st, block=b))
                    break
                if not first and b == header:
                    ends.append(Out('back', st))
                    break
                if b in headers and not (first and b == header):
                    for o in self.loop(st, fr, b):
                        if o.kind == 'exit':
                            work.append((o.st, o.block, False))
                        else:
                            ends.append(o)
                    break
                first = False
                self.steps += 1
                if self.steps > self.max_steps:
                    raise TooComplex('more than %d steps' % self.max_steps)
                cleanup, stmts, term = body.blocks[b]
                for s in stmts:
                    if s[0] == '=':
                        v = self.rvalue(st, fr, s[2])
                        st.write(self.addr(st, fr, s[1]), v)
                    elif s[0] == 'setdiscr':
                        a = self.addr(st, fr, s[1])
                        st.write(a, ('t', 'setdiscr', st.read(a), I(s[2])))
                k = term[0]
                if k == 'goto':
                    b = term[1]
                    continue
                if k == 'ret':
                    ends.append(Out('return', st))
                    break
                if k == 'unreachable':
                    break
                if k == 'switch':
                    nxt = self.switch(st, fr, term)
                    if not nxt:
                        break
                    st, b = nxt[0]
                    for x in nxt[1:]:
                        work.append((x[0], x[1], False))
                    continue
                if k == 'drop':
                    r = self.drop(st, fr, term)
                    b = term[2]
                    if r is not None:
                        if not r:
                            break
                        for x in r[1:]:
                            if x.kind == 'return':
                                work.append((x.st, b, False))
                            else:
                                ends.append(x)
                        if r[0].kind != 'return':
                            ends.append(r[0])
                            break
                        st = r[0].st
                    continue
                if k == 'assert':
                    c = self.operand(st, fr, term[1])
                    want = 1 if term[2] else 0
                    d = st.decide(c)
                    if d is None:
                        s2 = st.copy()
                        if s2.assume(c, 1 - want):
                            s2.event('panic', 'assert', str(term[3][0]), body.id)
                            ends.append(Out('panic', s2))
                        if not st.assume(c, want):
                            break
                    elif d != want:
                        st.event('panic', 'assert', str(term[3][0]), body.id)
                        ends.append(Out('panic', st))
                        break
                    b = term[4]
                    continue
                if k == 'call':
                    res = self.call_term(st, fr, term)
                    nxt = []
                    for o in res:
                        if o.kind != 'return' or term[4] is None:
                            if o.kind == 'return':
                                o.st.event('panic', 'diverges', body.id)
                                o = Out('panic', o.st)
                            ends.append(o)
                            continue
                        o.st.write(self.addr(o.st, fr, term[3]), o.val)
                        nxt.append(o.st)
                    if not nxt:
                        break
                    for s2 in nxt[1:]:
                        work.append((s2, term[4], False))
                    st, b = nxt[0], term[4]
                    continue
                if k in ('resume', 'abort', 'terminate'):
                    break
                raise TooComplex('terminator %s' % k)
        return ends

    def switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        targets, other = term[3], term[4]
        d = st.decide(v)
        body = fr[0]
        signed = is_t(v, 'discr') and is_t(v[2], 'cmp') or v[0] == 'int' and v[1] < 0

        def norm(x):
            x = int(x)
            if signed or is_t(v, 'discr'):
                for bits in (8, 64, 128):
                    if x == (1 << bits) - 1:
                        return -1
            return x
        if d is not None:
            for x, t in targets:
                if norm(x) == d:
                    return [(st, t)]
            return [(st, other)]
        res = []
        seen = []
        boolean = self.op_ty(fr, term[1]) == 'bool'
        if is_t(v, 'discr') and not is_t(v[2], 'cmp'):
            n = self.nvariants(fr, term)
            vals = list(range(n)) if n else [norm(x) for x, _ in targets]
        elif is_t(v, 'discr'):
            vals = [-1, 0, 1]
        elif boolean:
            vals = [0, 1]
        else:
            vals = None
        tm = {norm(x): t for x, t in targets}
        if vals is not None:
            for x in vals:
                t = tm.get(x, other)
                s2 = st.copy()
                if s2.assume(v, x):
                    self.on_fact(s2, v, x)
                    res.append((s2, t))
            if is_t(v, 'discr') and not is_t(v[2], 'cmp') and not self.nvariants(fr, term):
                s2 = st.copy()
                if not self.is_unreachable(body, other):
                    res.append((s2, other))
            return [r for r in res if not self.is_unreachable(body, r[1])]
        # an integer
        rest = st
        for x, t in tm.items():
            s2 = rest.copy()
            c = eq(v, I(x))
            if s2.assume(c, 1):
                res.append((s2, t))
            rest = rest.copy()
            if not rest.assume(c, 0):
                rest = None
                break
        if rest is not None:
            res.append((rest, other))
        return [r for r in res if not self.is_unreachable(body, r[1])]

    def on_fact(self, st, v, x):
        """consequences of deciding an ordering"""
        if is_t(v, 'discr') and is_t(v[2], 'cmp'):
            a, b = v[2][2], v[2][3]
            if not has_struct(a) and not has_struct(b):
                e = eq(a, b)
                if e[0] == 't' and st.decide(e) is None:
                    st.facts[e] = int(x == 0)
                for p, q, w in ((a, b, -1), (b, a, 1)):
                    l = lt(p, q)
                    if l[0] == 't' and st.decide(l) is None:
                        st.facts[l if not is_t(l, 'not') else l[2]] = int(x == w) if not is_t(l, 'not') else 1 - int(x == w)

    def is_unreachable(self, body, b):
        _, st, t = body.blocks[b]
        return t[0] == 'unreachable' and not st

    def nvariants(self, fr, term):
        """number of variants of the enum whose discriminant is switched on"""
        o = term[1]
        if o[0] not in ('c', 'm'):
            return 0
        body = fr[0]
        loc = o[1][0]
        cache = body.__dict__.setdefault('_disc', None)
        if cache is None:
            cache = {}
            for c, st, t in body.blocks:
                for s in st:
                    if s[0] == '=' and s[2][0] == 'discr' and not s[1][1]:
                        cache[s[1][0]] = s[2][1]
            body._disc = cache
        pl = cache.get(loc)
        if pl is None:
            return 0
        ty = self.prog.ty(self.place_ty(fr, pl))
        while ty['k'] in ('ref', 'ptr'):
            ty = self.prog.ty(ty['to'])
        if ty['k'] != 'adt':
            return 0
        if ty['id'] in CORE_VARIANTS:
            return CORE_VARIANTS[ty['id']]
        a = self.prog.adts.get(ty['id'])
        if a and a['kind'] == 'Enum':
            return len(a['variants'])
        return 0

    # ---- loops --------------------------------------------------------------
    def loop(self, st, fr, h):
        body, fid = fr
        region = body.loop_blocks(h)
        lid = self.new('loop')
        havoc = {}
        base = st
        roots = list(base.mem)
        for rnd in range(12):
            s = base.copy()
            for (r, projs), sym in havoc.items():
                s.write((r, projs), sym)
            s.loops = s.loops + (lid,)
            s.event('loop', lid)
            ev0 = len(s.events)
            pc0 = len(s.pc)
            start = s.copy()
            ends = self.run(s, fr, h, region, h)
            changed = set()
            for o in ends:
                if o.kind == 'back':
                    for r in roots:
                        if o.st.mem.get(r) is None:
                            continue
                        a, b = start.mem[r], o.st.mem[r]
                        if a is not b and a != b:
                            diff(a, b, (), r, changed)
            new = [c for c in changed if not any(c[0] == r and c[1][:len(p)] == p for r, p in havoc)]
            if not new:
                break
            for r, p in sorted(new, key=repr):
                for k in [k for k in havoc if k[0] == r and k[1][:len(p)] == p]:
                    del havoc[k]
                havoc[(r, p)] = ('sym', '%s.%d' % (lid, len(havoc) + 100 * rnd))
        else:
            raise TooComplex('loop does not stabilise')
        rec = {'id': lid, 'body': body.id, 'header': h, 'init': {}, 'iters': [], 'exits': [], 'sym': {}, 'span': body.span, 'fid': fid}
        for (r, p), sym in havoc.items():
            rec['init'][sym] = base.pure(base.read((r, p)))
            rec['sym'][sym] = (r, p)
        res = []
        for o in ends:
            if o.kind == 'back':
                fin = {}
                for (r, p), sym in havoc.items():
                    fin[sym] = o.st.pure(o.st.read((r, p)))
                rec['iters'].append({'pc': o.st.pc[pc0:], 'facts': o.st.facts, 'st': o.st, 'final': fin, 'events': o.st.events[ev0:]})
            else:
                if o.kind == 'exit':
                    rec['exits'].append({'pc': o.st.pc[pc0:], 'st': o.st, 'block': o.block, 'events': o.st.events[ev0:]})
                res.append(o)
        self.loops[lid] = rec
        self.progress(rec, ends, start, pc0, ev0)
        return res

    def progress(self, rec, ends, start, pc0, ev0):
        """records the rounds after which everything that the loop's decisions depend on is unchanged:
        the next round takes the same path, for ever"""
        if self.sink is None:
            return
        havoc = rec['sym']

        def syms(t, into):
            contains(t, lambda y: into.add(y) if y[0] == 'sym' else False)
        live = set()
        for o in ends:
            for t, v in o.st.pc[pc0:]:
                syms(t, live)
        while True:
            n = len(live)
            for it in rec['iters']:
                for s in havoc:
                    if s in live:
                        syms(it['final'][s], live)
            if len(live) == n:
                break
        def same(st, a, s):
            # unchanged, or an empty sequence before and after
            return a == s or st.decide(eq0(length(s))) == 1 and (length(a) == ZERO or st.decide(eq0(length(a))) == 1)
        stuck = []
        for it in rec['iters']:
            if any(not same(it['st'], it['final'][s], s) for s in havoc if s in live):
                continue
            # something outside the state may have changed
            if any(e[0] not in ('loop', 'maybe', 'tag', 'drop', 'release', 'moved') for e in it['events']):
                continue
            stuck.append(it)
        self.sink(rec, stuck)

    # ---- calls ---------------------------------------------------------------
    def call_term(self, st, fr, term):
        _, func, args, dest, target, unwind, span = term[:7]
        f = self.operand(st, fr, func)
        vals = [self.operand(st, fr, a) for a in args]
        call = Call(info=None, ty=self.place_ty(fr, dest), span=span, body=fr[0], fid=fr[1],
                    argtys=[self.op_tyi(fr, a) for a in args])
        return self.call_fn(st, f, vals, call)

    def op_tyi(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        return o[1]['ty']

    def call_fn(self, st, f, vals, call=None):
        """calls a function item, closure or unknown function value"""
        f = st.deref(f)
        call = call or Call()
        if f[0] == 'clo':
            b = self.prog.bodies.get(f[1])
            if b is not None:
                # call operator: (self, args...) with args spread
                return self.enter(st, b, [f] + list(vals), call)
        if f[0] == 'fn':
            info = self.fns.get(f)
            if info is not None:
                return self.call_item(st, info, vals, call)
        r = self.models.get('indirect')
        if r:
            x = r(self, st, [f] + list(vals), call)
            if x is not None:
                return self.outs(st, x)
        return self.unknown_call(st, 'indirect', [f] + list(vals), call)

    def call_item(self, st, info, vals, call):
        res = info.get('res')
        call.info = info
        tr = info.get('trait')
        call.trait = tr
        rid = (res or {}).get('id') or info['id']
        body = self.prog.bodies.get(rid)
        if body is not None and len(vals) == 2 and path_key(info['path']) in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
            # the arguments of a closure come as a tuple
            v = vals[1]
            return self.apply(st, vals[0], v[3] if v[0] == 'adt' and v[1] == 'tuple' else [v], call)
        if rid.endswith('::{constructor#0}'):
            v = self.construct(st, rid[:-len('::{constructor#0}')], vals)
            if v is not None:
                return self.outs(st, v)
        if body is not None and tr and (res is None or res.get('kind') == 'virtual'):
            body = None     # the default body of a trait method, not necessarily what is called
        if body is not None:
            k = self.body_key(body)
            call.key = k
            m = self.models.get(k)
            if m:
                x = m(self, st, vals, call)
                if x is not None:
                    return self.outs(st, x)
            # trait methods of local types may be modelled by trait
            return self.enter(st, body, vals, call)
        # a trait method of a local trait, or anything outside the crate
        k = path_key(info['path'])
        call.key = k
        cands = [k]
        if res and res.get('path') and res['path'] != info['path']:
            rk = path_key(res['path'])
            if rk != k:
                cands.insert(0, rk)
            m = re.match(r'<(.+) as (.+)>::(\w+)$', res['path'])
            if m:
                cands.insert(0, strip_generics(m.group(1)).split('::')[-1] + '::' + m.group(3))
        for c in cands:
            m = self.models.get(c)
            if m:
                x = m(self, st, vals, call)
                if x is not None:
                    return self.outs(st, x)
        b = self.dispatch(st, info, vals)
        if b is not None:
            kk = self.body_key(b)
            call.key = kk
            m = self.models.get(kk)
            if m:
                x = m(self, st, vals, call)
                if x is not None:
                    return self.outs(st, x)
            return self.enter(st, b, vals, call)
        return self.unknown_call(st, k, vals, call)

    def construct(self, st, id_, vals):
        """a constructor used as a function"""
        owner, name = id_.rsplit('::', 1)
        std = {'Some': (OPTION, 1), 'Ok': (RESULT, 0), 'Err': (RESULT, 1)}.get(name) if id_.startswith(('core::', 'std::')) else None
        if std:
            return ('adt', std[0], std[1], tuple(vals))
        if id_ in self.prog.adts:
            adt, variant = id_, 0
        elif owner in self.prog.adts:
            adt = owner
            variant = [v[0] for v in self.prog.adts[owner]['variants']].index(name)
        else:
            return None
        v = ('adt', adt, variant, tuple(vals))
        h = self.models.get('agg:' + adt.split('::')[-1])
        r = h(self, st, v) if h else None
        return v if r is None else r

    def dispatch(self, st, info, vals):
        """resolves a trait method by the type of an analysed receiver"""
        if not vals:
            return None
        v = st.deref(vals[0])
        name = info['path'].split('::')[-1]
        if v[0] == 'adt' and v[1] in self.prog.adts:
            path = self.prog.adts[v[1]]['path']
            trait = info['path'].split('::')[-2]
            c = [b for b in self.prog.by_name(name) if b.impl and 'self' in b.impl and self.prog.self_adt(b) == path
                 and (b.impl.get('trait') or [''])[0].split('::')[-1].split('<')[0] == trait]
            if len(c) == 1:
                return c[0]
        return None

    def enter(self, st, body, vals, call):
        if body.id in st.stack:
            return self.recursion(st, body, vals, call)
        if len(st.stack) > self.max_depth:
            raise TooComplex('call depth')
        # closures get their arguments as one tuple in MIR calls through Fn traits
        if body.argc != len(vals):
            if body.argc >= 2 and len(vals) == 2 and vals[1][0] == 'adt' and vals[1][1] == 'tuple' and len(vals[1][3]) == body.argc - 1:
                vals = [vals[0]] + list(vals[1][3])
            elif len(vals) == 2 and body.argc == 1 and vals[1] == UNIT:
                vals = [vals[0]]
            else:
                return self.unknown_call(st, 'arity ' + body.id, vals, call)
        return self.exec_body(st, body, vals)

    def recursion(self, st, body, vals, call):
        if self.on_recursion:
            x = self.on_recursion(self, st, body, vals, call)
            if x is not None:
                return self.outs(st, x)
        args = tuple(st.pure(v) for v in vals)
        st.event('rec', body.id, args)
        for i, v in enumerate(vals):
            if v[0] == 'ref':
                st.write((v[1], v[2]), ('t', 'recm', ('str', body.id), I(i)) + args)
        return [Out('return', st, ('t', 'rec', ('str', body.id)) + args)]

    def outs(self, st, x):
        if isinstance(x, list):
            return [o if isinstance(o, Out) else Out('return', o[0], o[1]) for o in x]
        if isinstance(x, Out):
            return [x]
        return [Out('return', st, x)]

    def unknown_call(self, st, key_, vals, call):
        self.unknown[key_] = self.unknown.get(key_, 0) + 1
        args = tuple(st.pure(v) for v in vals)
        st.imprecise = st.imprecise + (key_,)
        u = self.new('u')
        for i, v in enumerate(vals):
            if v[0] == 'ref':
                st.write((v[1], v[2]), ('t', 'opaque', ('str', '%s/%s/%d' % (key_, u, i))))
        st.event('unknown', key_, args)
        return [Out('return', st, ('t', 'opaque', ('str', key_ + '/' + u)) + args)]

    def apply(self, st, f, args, call=None):
        """calls a function value with a list of arguments (used by models), list of Out"""
        f0 = st.deref(f)
        if f0[0] == 'clo':
            b = self.prog.bodies.get(f0[1])
            if b is not None:
                m = self.models.get(b.id)
                if b.argc == len(args) + 1:
                    # by reference closures take a reference to themselves
                    selfv = f if f[0] == 'ref' else f0
                    return self.enter(st, b, [selfv] + list(args), call or Call())
        if f0[0] == 'fn':
            info = self.fns.get(f0)
            if info is not None:
                c = Call()
                return self.call_item(st, info, list(args), c)
            return self.unknown_call(st, f0[2], list(args), Call())
        m = self.models.get('callback')
        if m:
            x = m(self, st, [f0] + list(args), call or Call())
            if x is not None:
                return self.outs(st, x)
        return self.unknown_call(st, 'callback', [f0] + list(args), call or Call())

    # ---- drops -------------------------------------------------------------
    def drop(self, st, fr, term):
        a = self.addr(st, fr, term[1])
        ty = self.prog.ty(self.place_ty(fr, term[1]))
        v = st.read(a)
        if ty['k'] == 'adt':
            m = self.models.get('drop:' + ty['id'].split('::')[-1])
            if m:
                return m(self, st, a, v)
        if self.track_drops:
            st.event('drop', ty['s'], st.pure(v))
        return None


def diff(a, b, projs, root, out):
    if a == b:
        return
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and a[1] != 'array':
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            diff(x, y, projs + (('f', i),), root, out)
        return
    if is_t(a, 'node') or is_t(b, 'node'):
        for k in 'PVC':
            diff(project(a, ('n', k)), project(b, ('n', k)), projs + (('n', k),), root, out)
        return
    if is_t(b, 'upd') and not is_t(a, 'upd') and b[2] == a:
        for p, x in b[3]:
            diff(project(a, p), x, projs + (p,), root, out)
        return
    if is_t(b, 'upd') and is_t(a, 'upd') and a[2] == b[2]:
        ps = {p for p, _ in a[3]} | {p for p, _ in b[3]}
        for p in ps:
            diff(project(a, p), project(b, p), projs + (p,), root, out)
        return
    if a[0] == 'ref' and b[0] == 'ref':
        # a reference moved to another place: not modelled, keep the later one unknown
        out.add((root, projs))
        return
    out.add((root, projs))
