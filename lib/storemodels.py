"""Abstract files, locks and maps for the analysis of the stores.

A file is FILE(cursor, length). Everything done to it is an event with its position, so that a path
of the program is a sequence of appends, overwrites and reads at symbolic positions. A shared
mutex has one place for its content; locking and unlocking are events.
"""
from stdmodels import M as STD, fork_bool, fork_enum, panic, slice_index
from terms import *
from absint import discr, Out
from linear import Domain

S = dict(STD)
FILE = 'FILE'


def model(*names):
    def deco(f):
        for n in names:
            S[n] = f
        return f
    return deco


def file_place(st, v):
    """(address, value) of the file behind a reference, or None"""
    a = None
    for _ in range(8):
        if v[0] == 'ref':
            a = (v[1], v[2])
            v = st.read(a)
        else:
            break
    if v[0] == 'adt' and v[1] == FILE and a is not None:
        return a, v
    # a shared reference: every place that holds this file
    if v[0] == 'adt' and v[1] == FILE:
        r = []
        for root, x in st.mem.items():
            r += [(root, p) for p in find_files(x, v)]
        if r:
            return Places(r), v
    return None


class Places(list):
    pass


def find_files(x, f, depth=0):
    if x == f:
        return [()]
    r = []
    if x[0] == 'adt' and depth < 8:
        for i, y in enumerate(x[3]):
            if isinstance(y, tuple) and y:
                r += [(('f', i),) + p for p in find_files(y, f, depth + 1)]
    return r


def setf(st, a, v):
    for x in a if isinstance(a, Places) else [a]:
        st.write(x, v)


END = ('str', 'end')


def filev(cur, ln):
    """the cursor is END when it is known to be at the end"""
    return ('adt', FILE, 0, (END if cur == ln else cur, ln))


def fpos(f):
    cur, ln = f[3]
    return (ln if cur == END else cur), ln


def fail(st, what, *args):
    s = st.copy()
    e = ('t', 'errof', ('str', what), I(len(st.events)))
    s.event('err', what, args, e)
    return s, err(e)


def seek_to(eng, st, pl, whence):
    a, f = pl
    cur, ln = fpos(f)
    k = whence[2]
    x = whence[3][0]
    new = x if k == 0 else add(ln, x) if k == 1 else add(cur, x)
    s2, e = fail(st, 'seek')
    setf(s2, a, filev(('sym', eng.new('cursor')), ln))
    setf(st, a, filev(new, ln))
    st.event('op', 'seek', (new,))
    return [(st, ok(new)), (s2, e)]


@model('File::seek', 'Seek::seek')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    w = st.deref(v[1])
    if pl is None or w[0] != 'adt':
        return None
    return seek_to(eng, st, pl, w)


@model('Seek::rewind', 'File::rewind')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    return seek_to(eng, st, pl, ('adt', 'SeekFrom', 0, (ZERO,))) if pl else None


@model('File::stream_position', 'Seek::stream_position')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    return [(st, ok(fpos(pl[1])[0])), fail(st, 'stream_position')]


@model('File::stream_len', 'Seek::stream_len')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    return [(st, ok(pl[1][3][1])), fail(st, 'stream_len')]


@model('File::metadata')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    return [(st, ok(('adt', 'METADATA', 0, (pl[1][3][1],)))), fail(st, 'metadata')]


@model('Metadata::len')
def _(eng, st, v, call):
    x = st.pure(v[0])
    return x[3][0] if x[0] == 'adt' and x[1] == 'METADATA' else None


@model('Write::write_all', 'File::write_all')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    a, f = pl
    cur, ln = fpos(f)
    d = as_seq(st.pure(v[1]))
    n = length(d)
    part = ('sym', eng.new('partial'))
    s2 = st.copy()
    if cur == ln:
        new = add(ln, n)
        s2.event('op', 'append', (cur, ('t', 'some_of', d)))
        setf(s2, a, filev(add(cur, part), add(ln, part)))
        st.event('op', 'append', (cur, d))
    else:
        new = ln
        if not Domain(st).ge0(sub(ln, add(cur, n))):
            new = ('sym', eng.new('length'))
        s2.event('op', 'overwrite', (cur, ('t', 'some_of', d), ln))
        setf(s2, a, filev(add(cur, part), new))
        st.event('op', 'overwrite', (cur, d, ln))
    setf(st, a, filev(add(cur, n), new))
    return [(st, ok(UNIT)), fail(s2, 'write_all')]


@model('FileExt::write_all_at', 'File::write_all_at')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    a, f = pl
    cur, ln = fpos(f)
    d = as_seq(st.pure(v[1]))
    pos = v[2]
    if pos == ln:
        r = add(ln, length(d))
        kind = 'append'
    else:
        kind = 'overwrite'
        r = ln if Domain(st).ge0(sub(ln, add(pos, length(d)))) else ('sym', eng.new('length'))
    s2 = st.copy()
    s2.event('op', kind, (pos, ('t', 'some_of', d), ln))
    if kind == 'append':
        setf(s2, a, filev(cur, add(ln, ('sym', eng.new('partial')))))
    st.event('op', kind, (pos, d, ln))
    setf(st, a, filev(cur, r))
    return [(st, ok(UNIT)), fail(s2, 'write_all')]


def read_into(eng, st, target, val):
    """fills a buffer, False when the buffer is not a known place"""
    target = place_of(st, target)
    if is_t(target, 'mview'):
        base, a, b = target[2:]
        x = as_seq(st.deref(base))
        st.write(base[1:], cat(take(x, a), val, drop(x, b)))
        return True
    if target[0] == 'ref':
        st.write(target[1:], val)
        return True
    return False


def place_of(st, target):
    """the buffer itself: a part of one, or the last reference on the way"""
    while target[0] == 'ref':
        v = st.read(target[1:])
        if v[0] != 'ref' and not is_t(v, 'mview'):
            break
        target = v
    return target


def buflen(st, target):
    target = place_of(st, target)
    if is_t(target, 'mview'):
        return sub(target[4], target[3])
    return length(as_seq(st.deref(target)))


def fbytes(pos, n):
    if n == ZERO:
        return EMPTY
    return ('t', 'fbytes', pos, n)


BUILDERS['fbytes'] = fbytes


@model('Read::read_exact', 'File::read_exact')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    a, f = pl
    cur, ln = fpos(f)
    n = buflen(st, v[1])
    fits, r = short(eng, st, a, cur, ln, n)
    if not fits:
        return r
    s2, e = fail(st, 'read_exact')
    setf(s2, a, filev(('sym', eng.new('cursor')), ln))
    if not read_into(eng, st, v[1], fbytes(cur, n)):
        return None
    setf(st, a, filev(add(cur, n), ln))
    st.event('op', 'read', (cur, n))
    return [(st, ok(UNIT)), (s2, e)] + r


def short(eng, st, a, cur, ln, n):
    """the file ends before what is to be read: an error that is not a failure of the file system"""
    over = lt(ln, add(cur, n))
    s = st.copy()
    r = []
    if s.assume(over, 1):
        s.event('op', 'short', (cur, n))
        setf(s, a, filev(('sym', eng.new('cursor')), ln))
        r.append((s, err(('t', 'shortread', cur, n))))
    return st.assume(over, 0), r


@model('FileExt::read_exact_at', 'File::read_exact_at')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    n = buflen(st, v[1])
    r = fail(st, 'read_exact')
    if not read_into(eng, st, v[1], fbytes(v[2], n)):
        return None
    st.event('op', 'read', (v[2], n))
    return [(st, ok(UNIT)), r]


@model('File::set_len')
def _(eng, st, v, call):
    pl = file_place(st, v[0])
    if pl is None:
        return None
    a, f = pl
    r = fail(st, 'set_len', v[1])
    st.event('op', 'set_len', (v[1], f[3][1]))
    setf(st, a, filev(fpos(f)[0], v[1]))
    return [(st, ok(UNIT)), r]


def effect(name):
    def g(eng, st, v, call):
        r = fail(st, name)
        st.event('op', name, ())
        return [(st, ok(UNIT)), r]
    return g


for n in ('sync_all', 'sync_data'):
    S['File::' + n] = effect(n)
S['Write::flush'] = S['File::flush'] = effect('flush')

# ---- memory maps ---------------------------------------------------------------------------

S['MmapOptions::new'] = lambda eng, st, v, call: ('adt', 'MMAPOPTS', 0, (ZERO, NONE))


def opt_set(i, wrap):
    def g(eng, st, v, call):
        x = st.deref(v[0])
        if x[0] != 'adt' or x[1] != 'MMAPOPTS':
            return None
        f = list(x[3])
        f[i] = wrap(v[1])
        y = ('adt', 'MMAPOPTS', 0, tuple(f))
        if v[0][0] == 'ref':
            st.write(v[0][1:], y)
            return v[0]
        return y
    return g


S['MmapOptions::offset'] = opt_set(0, lambda x: x)
S['MmapOptions::len'] = opt_set(1, some)


@model('MmapOptions::map')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] != 'adt' or x[1] != 'MMAPOPTS':
        return None
    off, n = x[3]
    if n == NONE:
        return None
    f = st.deref(v[1])
    flen = f[3][1] if f[0] == 'adt' and f[1] == FILE else ('t', 'opaque', ('str', 'file'))
    r = fail(st, 'mmap')
    st.event('op', 'mmap', (off, n[3][0], flen))
    return [(st, ok(('t', 'mmap', off, n[3][0]))), r]


def deref_model(eng, st, v, call):
    return st.deref(v[0])


S['Mmap::deref'] = S['Mmap::as_ref'] = deref_model

# ---- locks -----------------------------------------------------------------------------------


@model('Mutex::lock', 'RwLock::write', 'RwLock::read', 'FairMutex::lock', 'ReentrantMutex::lock')
def _(eng, st, v, call):
    m = st.pure(v[0])
    root = ('X', key(m))
    if root not in st.mem:
        st.mem[root] = m[3][0] if m[0] == 'adt' and m[1] == 'MUTEX' else ('t', 'content', m)
    st.event('lock', 'lock', (m,))
    r = ('ref', root, ())
    ty = eng.prog.tys_s(call.ty) if call is not None and call.ty is not None else ''
    return ok(r) if ty.startswith('std::result::Result') else r


@model('Mutex::new', 'RwLock::new')
def _(eng, st, v, call):
    return ('adt', 'MUTEX', 0, (v[0],))


S['MutexGuard::deref'] = S['RwLockReadGuard::deref'] = S['RwLockWriteGuard::deref'] = lambda eng, st, v, call: v[0]
for g in ('MutexGuard', 'RwLockWriteGuard'):
    S[g + '::deref_mut'] = lambda eng, st, v, call: guard_ref(st, v[0])


def guard_ref(st, v):
    while v[0] == 'ref' and v[1][0] != 'X':
        v = st.read(v[1:])
    return v


def unlock(eng, st, addr, v):
    x = guard_ref(st, v)
    if x[0] == 'ref' and x[1][0] == 'X':
        st.event('lock', 'unlock', ())
    return None


for g in ('MutexGuard', 'RwLockWriteGuard', 'RwLockReadGuard'):
    S['drop:' + g] = unlock

_drop = STD['mem::drop']


@model('mem::drop')
def _(eng, st, v, call):
    if v[0][0] == 'ref' and v[0][1][0] == 'X':
        st.event('lock', 'unlock', ())
        return UNIT
    return _drop(eng, st, v, call)


# ---- maps --------------------------------------------------------------------------------------
# mput(m, k, v), mretain(m, n), base maps are symbols

def map_place(st, v):
    a = None
    for _ in range(8):
        if v[0] == 'ref':
            a = (v[1], v[2])
            v = st.read(a)
        else:
            break
    return a, v


def base_of(m):
    while is_t(m, 'mput') or is_t(m, 'mretain'):
        m = m[2]
    return m


def lookup(eng, st, m, k):
    """[(state, Option)]"""
    if is_t(m, 'mput'):
        c = eq(k, m[3])
        r = []
        for s, e in fork_bool(st, c):
            if e:
                r.append((s, some(m[4])))
            else:
                r += lookup(eng, s, m[2], k)
        return r
    if is_t(m, 'mretain'):
        r = []
        for s, e in fork_bool(st, ('t', 'kept', m[3], k)):
            if e:
                r += lookup(eng, s, m[2], k)
            else:
                r.append((s, NONE))
        return r
    if m == EMPTY or is_t(m, 'default'):
        return [(st, NONE)]
    t = ('t', 'mget', m, k)
    r = []
    for s, i, x in fork_enum(eng, st, t):
        if i:
            tpl = eng.templates.get(m) if hasattr(eng, 'templates') else None
            r.append((s, some(tpl(k) if tpl else x)))
        else:
            r.append((s, NONE))
    return r


MAPS = ('HashMap', 'BTreeMap')


def mapm(*ops):
    def deco(f):
        for t in MAPS:
            for o in ops:
                S[t + '::' + o] = f
        return f
    return deco


@mapm('get', 'get_mut')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return lookup(eng, st, m, st.pure(v[1]))


@mapm('index')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return [(s, o[3][0]) if o[2] else panic(s, 'map index', call) for s, o in lookup(eng, st, m, st.pure(v[1]))]


@mapm('contains_key')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return [(s, I(o[2])) for s, o in lookup(eng, st, m, st.pure(v[1]))]


@mapm('insert')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    if a is None:
        return None
    k, x = st.pure(v[1]), st.pure(v[2])
    st.event('op', 'put', (base_of(m), k, x))
    st.write(a, ('t', 'mput', m, k, x))
    return ('t', 'opaque', ('str', 'old entry'), m, k)


@mapm('remove', 'pop_last', 'pop_first', 'remove_entry', 'clear', 'split_off')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    if a is None:
        return None
    st.event('op', 'remove', (base_of(m),) + tuple(st.pure(x) for x in v[1:]))
    st.write(a, ('t', 'mretain', m, ('str', eng.new('r'))))
    ty = eng.prog.tys_s(call.ty)
    return UNIT if ty == '()' else ('t', 'opaque', ('str', 'removed'), m)


@mapm('retain')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    if a is None:
        return None
    n = ('str', eng.new('r'))
    st.event('op', 'retain', (base_of(m), n))
    st.write(a, ('t', 'mretain', m, n))
    return UNIT


@mapm('len')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return ('t', 'mlen', m)


@mapm('is_empty')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return eq0(('t', 'mlen', m))


def view(kind):
    def g(eng, st, v, call):
        a, m = map_place(st, v[0])
        return ('t', 'mview_' + kind, m)
    return g


for t in MAPS:
    for k in ('keys', 'iter', 'values'):
        S[t + '::' + k] = view(k)
    S[t + '::into_iter'] = view('iter')


def entry_of(kind, k, x):
    return k if kind == 'keys' else x if kind == 'values' else tup(k, x)


def extreme(eng, st, m, kind, last):
    t = ('t', 'mlast' if last else 'mfirst', m)
    r = []
    for s, i, x in fork_enum(eng, st, t):
        r.append((s, some(entry_of(kind, x, ('t', 'mval', m, x))) if i else NONE))
    return r


@model('DoubleEndedIterator::next_back', 'Keys::next_back', 'Iter::next_back', 'Keys::last', 'Iter::last')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] == 't' and x[1].startswith('mview_') and not x[1].startswith('mview_rev'):
        return extreme(eng, st, x[2], x[1][6:], True)
    return None


_last = STD['Iterator::last']
_next = STD['Iterator::next']


@model('Iterator::last', 'Iterator::max')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] == 't' and x[1] in ('mview_keys', 'mview_iter'):
        return extreme(eng, st, x[2], x[1][6:], True)
    return _last(eng, st, v, call) if call.key.endswith('last') else None


@model('Iterator::rev')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] == 't' and x[1] in ('mview_keys', 'mview_iter'):
        return ('t', 'mrev_' + x[1][6:], x[2])
    return None


@model('Iterator::next', 'Rev::next', 'Keys::next', 'Iter::next', 'IntoIter::next')
def _(eng, st, v, call):
    x = st.deref(v[0])
    if x[0] == 't' and x[1].startswith('mrev_'):
        return extreme(eng, st, x[2], x[1][5:], True)
    if x[0] == 't' and x[1].startswith('mview_'):
        return extreme(eng, st, x[2], x[1][6:], False)
    return _next(eng, st, v, call)


@mapm('range')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return ('t', 'msub_iter', m)


_find = STD['Iterator::find']


@model('Iterator::find')
def _(eng, st, v, call):
    """what is searched for is not looked at: some entry of the map, or none"""
    x = st.deref(v[0])
    if x[0] != 't' or not x[1].startswith(('mview_', 'msub_')):
        return _find(eng, st, v, call)
    m = x[2]
    n = eng.new('found')
    k = ('t', 'mkey', m, ('str', n))
    r = []
    for s, found in fork_bool(st, ('t', 'found', m, ('str', n))):
        if found and not s.assume(eq0(('t', 'mlen', m)), 0):
            continue
        if v[0][0] == 'ref':
            s.write(v[0][1:], ('t', 'opaque', ('str', eng.new('rest'))))
        r.append((s, some(entry_of(x[1].split('_')[1], k, ('t', 'mval', m, k))) if found else NONE))
    return r


@mapm('last_key_value')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return extreme(eng, st, m, 'iter', True)


@mapm('first_key_value')
def _(eng, st, v, call):
    a, m = map_place(st, v[0])
    return extreme(eng, st, m, 'iter', False)


# ---- the store trait behind a dynamic reference -------------------------------------------------

def dyn_call(name, is_fallible):
    def g(eng, st, v, call):
        args = tuple(st.pure(x) for x in v)
        st.event('call', 'BlobStore::' + name, args)
        return ('t', 'dyncall', ('str', name)) + args
    return g


for n, f in (('read', True), ('write', True), ('sync', True), ('needs_deep_detach', False)):
    S['dyn BlobStore::' + n] = dyn_call(n, f)
