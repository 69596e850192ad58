"""Modifying a tree does not change what shares its nodes (C16).

Nodes, values and keys are shared through Arc. Safe code gets mutable access to what an Arc holds only through functions that make sure
nobody else has it (make_mut, get_mut, try_unwrap). What is left is unsafe code that makes a mutable pointer out of a shared one, and
duplicates of an Arc that are not counted; the first is enumerated here, the second is what the memory rules of the node layer decide."""
from common import *


def mutable(t):
    return t['k'] in ('ref', 'ptr') and t.get('mut')


def shared(t):
    return t['k'] in ('ref', 'ptr') and not t.get('mut')


UNCOUNTED = ('ptr::read', 'transmute_copy', 'ManuallyDrop::<T>::take', 'Arc::<T>::from_raw', 'Box::<T>::from_raw', 'get_mut_unchecked', 'decrement_strong_count', 'UnsafeCell', 'ptr::write',
             'ptr::copy', 'slice::from_raw_parts_mut', 'ptr::replace', 'ptr::swap', 'unsync')
WRITES = ('get_mut_unchecked', 'ptr::write', 'ptr::copy', 'ptr::replace', 'ptr::swap')


def constructs(ctx, b):
    """(what, certain, block) for everything in the function that could write to shared data or duplicate an owner"""
    p = ctx.prog
    for i, (c, stm, t) in enumerate(b.blocks):
        if c:
            continue
        for s in stm:
            if s[0] != '=':
                continue
            rv = s[2]
            if rv[0] == 'cast':
                src, dst = p.ty(rv[4]), p.ty(rv[3])
                if shared(src) and mutable(dst):
                    yield 'a mutable pointer from a shared one (%s)' % p.tys_s(rv[3])[:80], True, i
                elif 'Provenance' in rv[1] and mutable(dst) and 'Box' not in rv[1]:
                    yield 'a mutable pointer from an address', False, i
            elif rv[0] in ('ref', 'rawptr'):
                mut = rv[1] is True or rv[0] == 'rawptr' and rv[1] == 'Mut'
                if mut and through_shared(ctx, b, rv[2]):
                    yield 'a mutable borrow through a shared reference', True, i
        if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
            f = t[1][1]['fn']['path']
            if any(x in f for x in UNCOUNTED):
                yield 'a call of ' + f, any(x in f for x in WRITES), i


def through_shared(ctx, b, place):
    """the place goes through a deref of a shared reference or of a const pointer"""
    t = b.locals[place[0]][0]
    for e in place[1]:
        ty = ctx.prog.ty(t)
        if e[0] == '*':
            if ty['k'] in ('ref', 'ptr'):
                if not ty.get('mut'):
                    return True
                t = ty['to']
            else:
                return False
        elif e[0] == 'f':
            t = e[3]
        else:
            return False
    return False


def local(op):
    """the local that an operand reads as a whole"""
    return op[1][0] if op[0] in ('c', 'm') and not op[1][1] else None


def constant(op):
    return int(op[1]['val']) if op[0] == 'k' and isinstance(op[1].get('val'), int) else None


TRUTH = {'Eq': lambda n, k: n == k, 'Ne': lambda n, k: n != k, 'Lt': lambda n, k: n < k, 'Le': lambda n, k: n <= k, 'Gt': lambda n, k: n > k, 'Ge': lambda n, k: n >= k}
SWAP = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}


def unguarded(ctx, b):
    """blocks that are reached although others may use the data. None when the function asks in a way that is not understood"""
    counts, tests = set(), {}
    asked = False
    for blk, t in b.calls():
        f = t[1][1].get('fn') if t[1][0] == 'k' else None
        if not f:
            continue
        if 'strong_count' in f['path']:
            counts.add(t[3][0])
        elif 'is_unique' in f['path']:
            tests[t[3][0]] = {1}
        elif f['path'].endswith('::get_mut') and 'Arc' in f['path']:
            asked = True
    for _ in range(4):
        for c, stm, t in b.blocks:
            for s in stm:
                if s[0] != '=' or s[1][1]:
                    continue
                to, rv = s[1][0], s[2]
                if rv[0] == 'use' and local(rv[1]) in counts:
                    counts.add(to)
                elif rv[0] == 'use' and local(rv[1]) in tests:
                    tests[to] = tests[local(rv[1])]
                elif rv[0] == 'un' and rv[1] == 'Not' and local(rv[2]) in tests:
                    tests[to] = {1 - x for x in (0, 1) if x in tests[local(rv[2])]}
                elif rv[0] == 'bin' and rv[1] in TRUTH:
                    x, y, op = rv[2], rv[3], rv[1]
                    if local(y) in counts:
                        x, y, op = y, x, SWAP[op]
                    k = constant(y)
                    if local(x) in counts and k is not None:
                        # the answers after which the count can only be one
                        more = {int(TRUTH[op](n, k)) for n in range(2, max(k, 2) + 3)}
                        tests[to] = {v for v in (0, 1) if v not in more}
    if asked:
        return None
    used = set()
    seen, work = {0}, [0]
    while work:
        i = work.pop()
        t = b.blocks[i][2]
        nxt = b.succ(i)
        if t[0] == 'switch':
            l = local(t[1])
            if l in tests or l in counts:
                used.add(l)
                vals = [int(x) for x, _ in t[3]]
                one = tests[l] if l in tests else {0, 1}
                nxt = [x for v, x in t[3] if int(v) not in one]
                rest = {0, 1} - set(vals) if l in tests else None
                if rest is None or rest - one:
                    nxt.append(t[4])
        for x in nxt:
            if x not in seen:
                seen.add(x)
                work.append(x)
    if counts and not used:
        return None
    return seen


def writes(ctx, rep):
    rule = 'shared data is never written through a shared pointer'
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.path):
        w = where(b)
        rep.analysed.add(b.id)
        n = 0
        free = unguarded(ctx, b)
        for what, certain, i in constructs(ctx, b):
            n += 1
            if certain and free is not None and i in free:
                rep.bad(rule, w, '%s:%s' % (b.name, what), 'the function makes %s' % what)
            else:
                rep.undecided(rule, w, what)
        if not n:
            rep.ok(rule, w, 'no mutable access to shared data')
