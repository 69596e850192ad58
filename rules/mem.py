"""The memory store, the dynamic store and the way stores use their lock."""
from common import *
import errors
import stores
import storemodels as fm
from stores import DATA, IDB, Judge, Path, find, ops, result
from linear import Domain


def self_value(ctx, name):
    """a value of the type whose fields are unknown"""
    a = ctx.adt(name)
    return ('adt', a['id'], 0, tuple(('sym', 'field_%s' % f[0]) for f in a['variants'][0][1]))


def execute(ctx, body, args, models=None, st=None):
    eng = Engine(ctx.prog, models or fm.S, max_steps=ctx.big)
    eng.sink = ctx.loop_seen
    eng.on_recursion = nm.on_recursion
    eng.templates = {}
    eng.check_sub = True
    outs = eng.exec_body(st or State(), body, args)
    return stores.Run(eng, outs, body)


def blob_data(v):
    b = find(v, lambda y: y[0] == 'adt' and y[1].endswith('::Blob'))
    return b[3][0] if b is not None else None


def keys_known(v):
    """built from the largest key, the number of entries, the data and constants"""
    return not contains(v, lambda x: x[0] == 'sym' and x != DATA and not x[1].startswith('field_') or
                        x[0] == 't' and x[1] not in ('mlast', 'mlen', 'lin', 'fld', 'as', 'len', 'cast', 'content', 'mget'))


# ---- C26 ----------------------------------------------------------------------------------------

def mem_methods(ctx):
    return [b for b in ctx.prog.bodies.values() if b.kind == 'AssocFn' and (ctx.prog.self_adt(b) or '').split('::')[-1] == 'MemStore'
            and b.argc >= 1]


def mem_write(ctx, rep):
    rule = 'writing to the memory store'
    body = ctx.method('MemStore', 'write', trait='BlobStore')
    try:
        run = execute(ctx, body, [self_value(ctx, 'MemStore'), DATA])
    except TooComplex as e:
        return rep.undecided(rule, where(body), str(e))
    J = Judge(rep, rule, body)
    rep.analysed |= {ctx.prog.bodies[b].path for b in run.eng.analysed if b in ctx.prog.bodies}
    removes = removals(ctx)
    fine = 0
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if kind == 'panic' or stores.feasible(p) is False:
            continue
        for e in p.ops('remove', 'retain'):
            J.need(p, False, 'remove', 'writing removes blocks', list(e[2][:1]))
        puts = p.ops('put')
        if kind == 'err':
            J.need(p, not puts, 'failed write', 'a failed write stores a block', [], 'a failed write stores nothing')
            continue
        if kind != 'ok':
            rep.undecided(rule, J.w, 'result ' + kind)
            continue
        fine += 1
        v = val[2] if is_t(val, 'tobe') and val[3] == 8 else None
        if v is None:
            J.need(p, False, 'id', 'the id is not an 8 byte big endian number', [val])
            continue
        mine = [e for e in puts if p.d.equal(e[2][1], v) or e[2][1] == v]
        if not J.need(p, bool(mine), 'not stored', 'no block is stored under the returned id', [v] + [e[2][1] for e in puts],
                      'a block is stored under the returned id'):
            continue
        J.need(p, len(puts) == 1, 'more than one', 'more than one entry is written', [e[2][1] for e in puts], 'exactly one entry is written')
        J.need(p, mine[-1][2][2] == DATA, 'content', 'what is stored is not the data', [mine[-1][2][2]], 'the data is stored')
        # the id was not in use
        m = mine[-1][2][0]
        k = ('t', 'mlast', m)
        known = o.st.decide(discr(k))
        if known == 0 or o.st.decide(eq0(('t', 'mlen', m))) == 1:
            rep.ok(rule, J.w, 'any id is new in an empty store')
            continue
        got = [h for h, val_ in o.st.facts.items() if h == eq(discr(('t', 'mget', m, v)), ZERO) and val_ == 1]
        absent = o.st.decide(discr(('t', 'mget', m, v))) == 0
        above = p.d.ge0(sub(sub(v, payload(k)), ONE)) and known == 1
        dense = is_int(sub(v, ('t', 'mlen', m))) and sub(v, ('t', 'mlen', m))[1] >= 0 and not removes
        if above or dense or absent or got:
            rep.ok(rule, J.w, 'the id is new: it is larger than every id in use' if above else 'the id is new')
        elif is_t(v, 'mkey') and v[2] == m:
            rep.bad(rule, J.w, 'id of another block', 'a write can hand out the id of a block that is there: %s\npath %s' % (show(v), fact_str(o.st.pc)))
        elif keys_known(v) and precise(o.st):
            rep.bad(rule, J.w, 'id may be in use', 'a write can hand out an id that is already in use: %s with the largest id %s\npath %s' % (
                show(v), show(payload(k)), fact_str(o.st.pc)))
        else:
            rep.undecided(rule, J.w, 'whether the id is new: ' + show(v))
    if not fine:
        rep.undecided(rule, J.w, 'no path that succeeds')


def payload(t):
    return ('t', 'fld', ('t', 'as', t, 1), 0)


def removals(ctx):
    r = []
    for b in mem_methods(ctx):
        for _, t in b.calls():
            f = t[1]
            if f[0] == 'k' and 'fn' in f[1]:
                n = f[1]['fn']['path'].split('::')
                if n[-1] in ('remove', 'clear', 'retain', 'pop_first', 'pop_last', 'split_off', 'drain', 'remove_entry', 'take', 'entry') and any(
                        'Map' in x for x in n):
                    r.append((b, f[1]['fn']['path']))
    return r


def mem_unchanged(ctx, rep):
    """no operation removes or replaces blocks, and only write adds any"""
    rule = 'blocks of the memory store stay'
    for b in mem_methods(ctx):
        if b.name in ('write', 'fmt', 'default') or b.kind != 'AssocFn':
            continue
        try:
            run = execute(ctx, b, [self_value(ctx, 'MemStore')] + [IDB if b.name == 'read' else ('sym', 'arg%d' % i) for i in range(1, b.argc)])
        except TooComplex as e:
            rep.undecided(rule, where(b), str(e))
            continue
        J = Judge(rep, rule, b)
        for o in run.outs:
            p = Path(run, o)
            for e in p.ops('remove', 'retain', 'put'):
                J.need(p, False, 'changes', 'blocks of the store are changed', [])
            rep.ok(rule, where(b), 'the blocks stay as they are')


def mem_read(ctx, rep, lookup=True, panics=True):
    rule = 'reading from the memory store'
    body = ctx.method('MemStore', 'read', trait='BlobStore')
    try:
        run = execute(ctx, body, [self_value(ctx, 'MemStore'), IDB])
    except TooComplex as e:
        return rep.undecided(rule, where(body), str(e))
    J = Judge(rep, rule, body)
    rep.analysed |= {ctx.prog.bodies[b].path for b in run.eng.analysed if b in ctx.prog.bodies}
    idn = ('t', 'be', IDB, 8)
    fine = 0
    for o in run.outs:
        kind, val = result(o)
        p = Path(run, o)
        if not stores.feasible(p):
            continue
        if kind == 'panic':
            e = [e for e in o.st.events if e[0] == 'panic']
            J.need(p, False, 'panic', 'reading can panic (%s)' % (e[-1][1:] if e else '',))
            continue
        maps = [t for t in o.st.facts if t[0] == 't' and contains(t, lambda x: is_t(x, 'mget'))]
        found = [(t, v) for t, v in o.st.facts.items() if is_t(t, 'discr') and is_t(t[2], 'mget') and t[2][3] == idn]
        if kind == 'err':
            bad = [t for t, v in found if v == 1]
            J.need(p, not bad, 'block lost', 'reading fails although the block is there', bad, 'an error is only reported for ids that are not there')
            if not found and not any(e[0] == 'err' for e in o.st.events):
                bytes_ = {index(IDB, I(i)): (0, 1, 255) for i in range(8)}
                J.refused(p, 'id refused', 'an id is refused without looking for its block', [
                    ([], {**bytes_, length(IDB): (8,)}), ([], {length(IDB): (8,), idn: (1, 2, 255, 256, 2 ** 32 + 7)})])
            continue
        if kind != 'ok':
            rep.undecided(rule, J.w, 'result ' + kind)
            continue
        fine += 1
        J.need(p, o.st.decide(eq(length(IDB), I(8))) == 1, 'id length', 'an id of another length than 8 is accepted', [], 'only ids of 8 bytes are read')
        d = blob_data(val)
        want = [payload(t[2]) for t, v in found if v == 1]
        if d is None:
            rep.undecided(rule, J.w, 'result ' + show(val)[:200])
            continue
        unknown = contains(d, lambda x: x[0] == 't' and x[1] == 'opaque')
        if d in want:
            rep.ok(rule, J.w, 'the block stored under the id is returned')
        elif unknown or not precise(o.st):
            rep.undecided(rule, J.w, 'whether the block of the id is returned: ' + show(d)[:200])
        else:
            rep.bad(rule, J.w, 'read: wrong block', 'the result is not the block that is stored under the id: %s\npath %s' % (show(d)[:300], fact_str(o.st.pc)))
    if not fine:
        rep.undecided(rule, J.w, 'no path that succeeds')


def mem_clone(ctx, rep):
    rule = 'clones share the blocks'
    body = ctx.method('MemStore', 'clone', trait='Clone')
    sv = self_value(ctx, 'MemStore')
    run = execute(ctx, body, [sv])
    for o in run.outs:
        v = o.st.pure(o.val) if o.kind == 'return' else None
        if v == sv:
            rep.ok(rule, where(body), 'a clone is the same store')
        elif not precise(o.st) or v is None or contains(v, lambda x: is_t(x, 'opaque')):
            rep.undecided(rule, where(body), 'clone is %s' % (show(v) if v else o.kind))
        else:
            rep.bad(rule, where(body), 'clone: not shared', 'a clone of the memory store does not share its blocks: ' + show(v)[:300])
    # the type of the fields must be shared by a clone
    a = ctx.adt('MemStore')
    for n, ty in [(f[0], f[1]) for f in a['variants'][0][1]]:
        t = ctx.prog.tys_s(ty) if isinstance(ty, int) else str(ty)
        shared = t.startswith(('std::sync::Arc<', 'std::rc::Rc<', '&')) or 'PhantomData' in t
        if shared:
            rep.ok(rule, 'MemStore', 'field %s is a shared pointer' % n)
        elif t.split('<')[0].split('::')[-1] in ('Mutex', 'RwLock', 'BTreeMap', 'HashMap', 'Vec', 'AtomicU64', 'AtomicUsize', 'RefCell', 'Cell', 'u64', 'usize'):
            rep.bad(rule, 'MemStore', 'field not shared', 'the field %s of type %s is not shared by clones of the store' % (n, t))
        else:
            rep.undecided(rule, 'MemStore', 'whether the field %s of type %s is shared by clones' % (n, t))


# ---- C27: the lock ---------------------------------------------------------------------------------

QUIET = {'fmt'}


def lock_bodies(ctx, names=('MemStore', 'PagedFileStore')):
    for n in names:
        if not [a for a in ctx.prog.adts.values() if a['path'].split('::')[-1] == n]:
            continue
        for b in ctx.prog.bodies.values():
            sa = ctx.prog.self_adt(b) or ''
            if b.kind == 'AssocFn' and sa.split('<')[0].split('::')[-1] == n and b.argc >= 1:
                ty = ctx.prog.tys_s(b.locals[1][0])
                if n in ty and ty.startswith('&'):
                    yield n, b


def locks_of(*names):
    return lambda ctx, rep: locks(ctx, rep, names)


def locks(ctx, rep, names=('MemStore', 'PagedFileStore')):
    rule = 'one hold of the lock for each operation'
    for n, b in lock_bodies(ctx, names):
        st = State()
        sv = self_value(ctx, n)
        if n == 'PagedFileStore':
            P = stores.paged(ctx, rep, rule)
            if P is not None:
                sv, st = P.self_val, P.state()
        args = [IDB if b.name == 'read' else DATA if b.name == 'write' else ('sym', 'arg%d' % i) for i in range(1, b.argc)]
        try:
            run = execute(ctx, b, [sv] + args, st=st)
        except TooComplex as e:
            rep.undecided(rule, where(b), str(e))
            continue
        rep.analysed.add(b.path)
        for o in run.outs:
            one_hold(rep, rule, b, o)
        for l in run.eng.loops.values():
            for it in l['iters']:
                nested(rep, rule, b, it['st'])


def nested(rep, rule, b, st):
    held = None
    for e in st.events:
        if e[0] == 'lock' and e[1] == 'lock':
            if held is not None and held == e[2]:
                rep.bad(rule, where(b), '%s: deadlock' % b.name, 'the lock is taken while it is already held\npath %s' % fact_str(st.pc))
                return
            held = e[2]
        elif e[0] == 'lock' and e[1] == 'unlock':
            held = None


def one_hold(rep, rule, b, o):
    st = o.st
    held, holds = None, 0
    for e in st.events:
        if e[0] == 'lock' and e[1] == 'lock':
            if held is not None:
                if held == e[2]:
                    rep.bad(rule, where(b), '%s: deadlock' % b.name, 'the lock is taken while it is already held\npath %s' % fact_str(st.pc))
                else:
                    rep.undecided(rule, where(b), 'two locks are held at once')
                return
            held, holds = e[2], holds + 1
        elif e[0] == 'lock' and e[1] == 'unlock':
            held = None
        elif held is not None and e[0] == 'call' and e[1] == 'callback':
            rep.bad(rule, where(b), '%s: callback under the lock' % b.name, 'foreign code is called while the lock is held\npath %s' % fact_str(st.pc))
            return
    if holds > 1:
        if st.imprecise:
            rep.undecided(rule, where(b), 'several holds of the lock on an imprecise path')
        else:
            rep.bad(rule, where(b), '%s: several holds' % b.name,
                    'the operation releases the lock and takes it again, another thread can change the store in between\npath %s' % fact_str(st.pc))
        return
    if held is not None and o.kind == 'return':
        if o.val is not None and contains_ref(st, o.val) or st.imprecise:
            rep.undecided(rule, where(b), 'the lock may be handed out')
        else:
            rep.bad(rule, where(b), '%s: lock kept' % b.name, 'the operation returns without releasing the lock\npath %s' % fact_str(st.pc))
        return
    rep.ok(rule, where(b), 'one hold of the lock' if holds else 'the lock is not taken')


def contains_ref(st, v):
    return contains(v, lambda x: x[0] == 'ref' and x[1][0] == 'X')


def shared_state(ctx, rep):
    """everything a store may change is behind one lock, and nothing that writes the file is reachable without it"""
    rule = 'the state of a store is behind its lock'
    for n in ('MemStore', 'PagedFileStore'):
        for a in [a for a in ctx.prog.adts.values() if a['path'].split('::')[-1] == n]:
            for f in a['variants'][0][1]:
                t = ctx.prog.tys_s(f[1]) if isinstance(f[1], int) else str(f[1])
                if any(x in t.split('Mutex<')[0].split('RwLock<')[0] for x in ('Atomic', 'RefCell', 'UnsafeCell', 'OnceCell')) or t.endswith('fs::File'):
                    rep.undecided(rule, n, 'field %s: %s is not behind the lock' % (f[0], t))
                else:
                    rep.ok(rule, n, 'field %s: %s' % (f[0], t))


# ---- C32 --------------------------------------------------------------------------------------------

def dyn_models():
    m = dict(fm.S)

    def mk(name):
        def g(eng, st, v, call):
            args = tuple(st.pure(x) for x in v)
            st.event('call', 'BlobStore::' + name, args)
            return ('t', 'dyncall', ('str', name)) + args
        return g
    for n in ('read', 'write', 'sync', 'needs_deep_detach'):
        m['BlobStore::' + n] = mk(n)
        m['dyn BlobStore::' + n] = mk(n)
    return m, mk


def dynamic(ctx, rep):
    rule = 'a dynamic store forwards everything'
    tr = [t for t in ctx.prog.traits if t['path'].split('::')[-1] == 'BlobStore']
    if not tr:
        raise Missing('trait BlobStore')
    impls = [i for i in ctx.prog.impls if i.get('trait') and i['trait'][0].split('<')[0].split('::')[-1] == 'BlobStore'
             and ('dyn ' in ctx.prog.tys_s(i['self']) or ctx.prog.tys_s(i['self']).split('<')[0].split('::')[-1] in ('Arc', 'Box', 'Rc') or
                  ctx.prog.tys_s(i['self']).startswith('&'))]
    if not impls:
        raise Missing('BlobStore for dynamic stores')
    inner = ('sym', 'inner')
    models, mk = dyn_models()
    for i in impls:
        have = {x[1]: x[0] for x in i['items']}
        for _, name, default in tr[0]['items']:
            if name[0].isupper():
                continue
            models['BlobStore::' + name] = models['dyn BlobStore::' + name] = mk(name)
            w = 'impl BlobStore for ' + ctx.prog.tys_s(i['self'])
            if name not in have:
                rep.bad(rule, w, 'not forwarded: ' + name, '%s is not forwarded to the store inside: the default implementation is used instead' % name)
                continue
        for _, name, default in tr[0]['items']:
            if name[0].isupper() or name not in have:
                continue
            b = ctx.prog.bodies.get(have[name])
            if b is None:
                rep.undecided(rule, w, 'no body of ' + name)
                continue
            args = [('sym', 'arg%d' % k) for k in range(1, b.argc)]
            try:
                eng = Engine(ctx.prog, models, max_steps=ctx.big)
                eng.sink = ctx.loop_seen
                eng.on_recursion = lambda e, st, body, v, call: (st.event('selfcall', body.name, ()), None)[1]
                outs = eng.exec_body(State(), b, [inner] + args)
            except TooComplex as e:
                rep.undecided(rule, where(b), str(e))
                continue
            rep.analysed.add(b.path)
            for o in outs:
                ev = [e for e in o.st.events if e[0] in ('call', 'selfcall', 'rec', 'panic', 'unknown')]
                if any(e[0] == 'selfcall' for e in ev):
                    rep.bad(rule, where(b), name + ': calls itself', '%s of the dynamic store calls itself instead of the store inside' % name)
                    continue
                if o.kind != 'return':
                    rep.bad(rule, where(b), name + ': ' + o.kind, '%s of the dynamic store can %s' % (name, o.kind))
                    continue
                v = o.st.pure(o.val)
                calls = [e for e in ev if e[0] == 'call']
                want = ('t', 'dyncall', ('str', name), inner) + tuple(args)
                v = unchanged(o.st, v)
                if len(calls) == 1 and calls[0][1] == 'BlobStore::' + name and calls[0][2] == (inner,) + tuple(args) and v == want:
                    rep.ok(rule, where(b), '%s calls %s of the store inside with the same arguments and returns its result' % (name, name))
                elif o.st.imprecise:
                    rep.undecided(rule, where(b), 'imprecise: ' + show(v)[:200])
                else:
                    rep.bad(rule, where(b), name + ': changed', '%s of the dynamic store does not do what the store inside does: calls %s, returns %s\npath %s' % (
                        name, [(e[1], [show(x) for x in e[2]]) for e in calls], show(v)[:300], fact_str(o.st.pc)))


def unchanged(st, v):
    """Ok(payload) of a result that is Ok is the result itself"""
    if v[0] == 'adt' and v[1] in (RESULT, OPTION) and v[3]:
        p = v[3][0]
        if is_t(p, 'fld') and p[3] == 0 and is_t(p[2], 'as') and p[2][3] == v[2]:
            return p[2][2]
    if v[0] == 'i':
        for t, x in st.facts.items():
            if is_t(t, 'dyncall') and x == v[1]:
                return t
    return v
