"""C18, C19, C28: client programs that the compiler must accept or reject, rules over public signatures and unsafe impls."""
import atexit
import itertools
import os
import tomllib

import build
import witness
from common import *

# ---- compile-fail witnesses --------------------------------------------------------------------------

# lines starting with '+' belong to the program that must compile, '-' to the one that must be rejected, others to both
HEAD = '''
#![allow(unused)]
use radixdb::{*, store::*, node::*};
use std::cell::{Cell, RefCell};
use std::sync::Arc;
fn touch<T: ?Sized>(_: &T) {}
'''

BORROW = {'E0597', 'E0505', 'E0502', 'E0499', 'E0506', 'E0515', 'E0716', 'E0521', 'E0310', 'E0309', 'E0373', 'E0503', 'E0594', 'E0596',
          'E0621', 'E0623', 'E0495', 'E0312', 'E0700', 'E0311', 'E0713', 'E0382', 'E0507'}


def esc_ret(name, sig, expr, what):
    """sig has {L}: the lifetime of the result: the right one, or 'static"""
    good, bad = sig
    return (name, '+fn w%s { %s }\n-fn w%s { %s }' % (good, expr, bad, expr), what)


def after(name, setup, expr, change, what):
    return (name, '''
pub fn w() {
    %s
    let r = %s;
+   touch(&r);
    %s
-   touch(&r);
}''' % (setup, expr, change), what)


def outlive(name, setup, typ, expr, what):
    """r = expr inside of a block"""
    return (name, '''
pub fn w() {
    let r%s;
    {
        %s
        r = %s;
+       touch(&r);
    }
-   touch(&r);
}''' % (typ, setup, expr), what)


T = 'let mut t: RadixTree = RadixTree::single("a", "b");'
MODS = {
    'insert': 't.insert("a", "c");', 'remove': 't.remove("a");', 'remove_prefix': 't.remove_prefix("a");',
    'outer_combine_with': 't.outer_combine_with(&RadixTree::leaf("a"), |_, _| ());',
    'drop': 'drop(t);', 'replace': 't = RadixTree::default();',
}
CB = {}
W = []
for m, c in MODS.items():
    W.append(after('value across ' + m, T, 't.value().unwrap()', c, 'a value reference of a tree is used after the tree was changed by ' + m))
    W.append(after('prefix across ' + m, T, 't.prefix()', c, 'the prefix of a tree is used after the tree was changed by ' + m))
W += [
    after('value bytes across insert', T, 't.value().unwrap()', 't.insert("a", "c"); touch(r.data().unwrap());', 'x'),
    outlive('data of a value reference', T + ' let v = t.value().unwrap();', '', 'v.data().unwrap()', 'the bytes of a value reference outlive the tree'),
    outlive('downcast of a value reference', T + ' let v = t.value().unwrap();', '', 'v.downcast::<MemStore>()', 'a converted value reference outlives the tree'),
    outlive('value reference', T, '', 't.value().unwrap()', 'a value reference outlives the tree'),
    outlive('prefix', T, '', 't.prefix()', 'the prefix outlives the tree'),
    outlive('store of a tree', T, '', 'RadixTree::store(&t)', 'the store of a tree outlives the tree'),
    after('store of a tree across insert', T, 'RadixTree::store(&t)', 't.insert("a", "c");', 'the store of a tree is borrowed'),
    outlive('bytes of a value', T + ' let v: Value = t.get("a").unwrap();', ': &[u8]', '&*v', 'the bytes of a value outlive the value'),
    outlive('bytes of a value by as_ref', T + ' let v: Value = t.get("a").unwrap();', ': &[u8]', 'v.as_ref()', 'the bytes of a value outlive the value'),
    outlive('bytes of a key', T + ' let (k, v) = t.iter().next().unwrap();', ': &[u8]', '&*k', 'the bytes of a key outlive the key'),
    outlive('bytes of a key by as_ref', T + ' let (k, v) = t.iter().next().unwrap();', ': &[u8]', 'k.as_ref()', 'the bytes of a key outlive the key'),
    outlive('bytes of a key by borrow', T + ' let (k, v) = t.iter().next().unwrap();', ': &[u8]', 'std::borrow::Borrow::<[u8]>::borrow(&k)', 'the bytes of a key outlive the key'),
    outlive('blob', 'let d = vec![1u8]; ', '', 'Blob::new(&d)', 'a blob outlives the slice it was made from'),
    outlive('clone of a blob', 'let d = vec![1u8]; let b = Blob::new(&d);', '', 'b.clone()', 'a clone of a blob outlives the slice it was made from'),
    outlive('slice of a blob', 'let d = vec![1u8]; let b = Blob::new(&d);', '', 'b.slice(0..1)', 'a part of a blob outlives the slice it was made from'),
    outlive('slice_ref of a blob', 'let d = vec![1u8]; let b = Blob::new(&d);', '', 'b.slice_ref(&d)', 'a part of a blob outlives the slice it was made from'),
    outlive('bytes of a blob', "let b: Blob<'static> = Blob::copy_from_slice(b\"abc\");", ': &[u8]', '&*b', 'the bytes of a blob outlive the blob'),
    outlive('bytes of a blob by as_ref', "let b: Blob<'static> = Blob::copy_from_slice(b\"abc\");", ': &[u8]', 'b.as_ref()', 'the bytes of a blob outlive the blob'),
    outlive('bytes of a blob by borrow', "let b: Blob<'static> = Blob::copy_from_slice(b\"abc\");", ': &[u8]', 'std::borrow::Borrow::<[u8]>::borrow(&b)', 'the bytes of a blob outlive the blob'),
    outlive('bytes of a block', 'let s = MemStore::default(); let id = s.write(b"abc").unwrap(); let b = s.read(&id).unwrap();', ': &[u8]', '&*b', 'the bytes of a block outlive it'),
    outlive('bytes of a loaded value', T + ' let v: Value = t.get("a").unwrap(); let b = v.load(&Detached).unwrap();', ': &[u8]', '&*b', 'the bytes of a loaded value outlive it'),
    outlive('bytes of a key blob', T + ' let (k, v) = t.iter().next().unwrap(); let b = k.to_owned_blob();', ': &[u8]', '&*b', 'the bytes of a key outlive it'),
    ('groups to static', """
+pub fn w<'a>(t: &'a RadixTree) -> impl Iterator<Item = RadixTree> + 'a { t.group_by(|_, _| true) }
-pub fn w<'a>(t: &'a RadixTree) -> impl Iterator<Item = RadixTree> + 'static { t.group_by(|_, _| true) }""", 'the groups are not bound to the tree'),
    ('captures of group_by to static', """
+pub fn w<'a>(t: &'static RadixTree, c: &'a Vec<u8>) -> impl Iterator<Item = RadixTree> + 'a { t.group_by(move |_, _| c.is_empty()) }
-pub fn w<'a>(t: &'static RadixTree, c: &'a Vec<u8>) -> impl Iterator<Item = RadixTree> + 'static { t.group_by(move |_, _| c.is_empty()) }""", 'the groups are not bound to what the function borrows'),
    ('captures of try_group_by to static', """
+pub fn w<'a>(t: &'static RadixTree<MemStore>, c: &'a Vec<u8>) -> impl Iterator + 'a { t.try_group_by(move |_, _| Ok(c.is_empty())) }
-pub fn w<'a>(t: &'static RadixTree<MemStore>, c: &'a Vec<u8>) -> impl Iterator + 'static { t.try_group_by(move |_, _| Ok(c.is_empty())) }""", 'the groups are not bound to what the function borrows'),
    ('blob to static', '''
+pub fn w<'a>(b: Blob<'a>) -> Blob<'a> { b }
-pub fn w<'a>(b: Blob<'a>) -> Blob<'static> { b }''', 'a borrowed blob becomes a static one'),
    ('slice to static', '''
+pub fn w<'a>(b: &Blob<'a>) -> Blob<'a> { b.slice(..) }
-pub fn w<'a>(b: &Blob<'a>) -> Blob<'static> { b.slice(..) }''', 'a part of a borrowed blob becomes a static one'),
    ('bytes of a static blob', '''
+pub fn w<'a>(b: &'a Blob<'static>) -> &'a [u8] { &b[..] }
-pub fn w<'a>(b: &'a Blob<'static>) -> &'static [u8] { &b[..] }''', 'the bytes of an owned blob become static'),
    ('bytes of a static blob by as_ref', '''
+pub fn w<'a>(b: &'a Blob<'static>) -> &'a [u8] { b.as_ref() }
-pub fn w<'a>(b: &'a Blob<'static>) -> &'static [u8] { b.as_ref() }''', 'the bytes of an owned blob become static'),
    ('value reference to static', '''
+pub fn w<'a>(t: &'a RadixTree) -> Option<ValueRef<'a>> { t.value() }
-pub fn w<'a>(t: &'a RadixTree) -> Option<ValueRef<'static>> { t.value() }''', 'a value reference is not bound to the tree'),
    ('prefix to static', '''
+pub fn w<'a>(t: &'a RadixTree) -> ValueRef<'a> { t.prefix() }
-pub fn w<'a>(t: &'a RadixTree) -> ValueRef<'static> { t.prefix() }''', 'the prefix is not bound to the tree'),
    ('value reference of any lifetime', '''
+pub fn w<'a, 'b>(v: ValueRef<'a>) -> ValueRef<'a> { v }
-pub fn w<'a, 'b>(v: ValueRef<'a>) -> ValueRef<'b> { v }''', 'the lifetime of a value reference is not checked'),
    ('node reference of any lifetime', '''
+pub fn w<'a, 'b>(v: TreeNodeRef<'a>) -> TreeNodeRef<'a> { v }
-pub fn w<'a, 'b>(v: TreeNodeRef<'a>) -> TreeNodeRef<'b> { v }''', 'the lifetime of a node reference is not checked'),
    ('clone of a node reference', '''
+pub fn w<'a, 'b>(v: &TreeNodeRef<'a>) -> TreeNodeRef<'a> { v.clone() }
-pub fn w<'a, 'b>(v: &TreeNodeRef<'a>) -> TreeNodeRef<'b> { v.clone() }''', 'the lifetime of a cloned node reference is not checked'),
    ('store to static', '''
+pub fn w<'a>(t: &'a RadixTree<MemStore>) -> &'a MemStore { RadixTree::store(t) }
-pub fn w<'a>(t: &'a RadixTree<MemStore>) -> &'static MemStore { RadixTree::store(t) }''', 'the store is not bound to the tree'),
]
W = [w for w in W if w[2] != 'x']
for fn in ('outer_combine', 'inner_combine', 'left_combine'):
    for i, v in ((0, 'a'), (1, 'b')):
        W.append(('value reference out of %s, argument %d' % (fn, i), '''
pub fn w(x: &RadixTree, y: &RadixTree) {
    let keep: RefCell<Vec<&ValueRef<'_>>> = RefCell::new(vec![]);
    let keep = &keep;
    x.%s(y, |a, b| { 
-       keep.borrow_mut().push(%s);
+       touch(%s);
        None });
}''' % (fn, v, v), 'a value reference leaves the function that %s was called with' % fn))
for fn in ('inner_combine_pred', 'left_combine_pred'):
    for i, v in ((0, 'a'), (1, 'b')):
        W.append(('value reference out of %s, argument %d' % (fn, i), '''
pub fn w(x: &RadixTree, y: &RadixTree) {
    let keep: RefCell<Vec<&ValueRef<'_>>> = RefCell::new(vec![]);
    let keep = &keep;
    x.%s(y, |a, b| { 
-       keep.borrow_mut().push(%s);
+       touch(%s);
        true });
}''' % (fn, v, v), 'a value reference leaves the function that %s was called with' % fn))
for fn in ('outer_combine_with', 'inner_combine_with', 'left_combine_with'):
    W.append(('value reference out of %s' % fn, '''
pub fn w(x: &mut RadixTree, y: &RadixTree) {
    let keep: RefCell<Vec<&ValueRef<'_>>> = RefCell::new(vec![]);
    let keep = &keep;
    x.%s(y, |a, b| { 
-       keep.borrow_mut().push(b);
+       touch(b);
        });
}''' % fn, 'a value reference leaves the function that %s was called with' % fn))
    W.append(('value out of %s' % fn, '''
pub fn w(x: &mut RadixTree, y: &RadixTree) {
    let keep: RefCell<Vec<&mut Value>> = RefCell::new(vec![]);
    let keep = &keep;
    x.%s(y, |a, b| { 
-       keep.borrow_mut().push(a);
+       touch(a);
        });
}''' % fn, 'a reference to a value leaves the function that %s was called with' % fn))
for fn in ('retain_prefix_with', 'remove_prefix_with'):
    W.append(('value reference out of %s' % fn, '''
pub fn w(x: &mut RadixTree, y: &RadixTree) {
    let keep: RefCell<Vec<&ValueRef<'_>>> = RefCell::new(vec![]);
    let keep = &keep;
    x.%s(y, |b| { 
-       keep.borrow_mut().push(b);
+       touch(b);
        true });
}''' % fn, 'a value reference leaves the function that %s was called with' % fn))
for what, ty, v in (('key', '&[u8]', 'k'), ('node reference', '&TreeNodeRef<\'_>', 'n')):
    W.append(('%s out of group_by' % what, '''
pub fn w(x: &RadixTree) {
    let keep: RefCell<Vec<%s>> = RefCell::new(vec![]);
    let keep = &keep;
    for _ in x.group_by(|k, n| { 
-       keep.borrow_mut().push(%s);
+       touch(%s);
        true }) {}
}''' % (ty, v, v), 'a %s leaves the function that group_by was called with' % what))
    W.append(('%s out of try_group_by' % what, '''
pub fn w(x: &RadixTree<MemStore>) {
    let keep: RefCell<Vec<%s>> = RefCell::new(vec![]);
    let keep = &keep;
    for _ in x.try_group_by(|k, n| { 
-       keep.borrow_mut().push(%s);
+       touch(%s);
        Ok(true) }) {}
}''' % (ty.replace("<'_>", "<'_, MemStore>"), v, v), 'a %s leaves the function that try_group_by was called with' % what))
W.append(('clone of a node reference out of group_by', '''
pub fn w(x: &RadixTree) {
    let keep: RefCell<Vec<TreeNodeRef<'_>>> = RefCell::new(vec![]);
    let keep = &keep;
    for _ in x.group_by(|k, n| { 
-       keep.borrow_mut().push(n.clone());
+       touch(&n.clone());
        true }) {}
}''', 'a node reference leaves the function that group_by was called with'))

def twins(w):
    g = HEAD + '\n'.join(l[1:] if l[:1] == '+' else l for l in w[1].split('\n') if l[:1] != '-')
    b = HEAD + '\n'.join(l[1:] if l[:1] == '-' else l for l in w[1].split('\n') if l[:1] != '+')
    return g, b


def full(ctx, rep):
    """metadata of the crate with all features"""
    if 'lib' not in ctx.cache:
        ctx.cache['lib'] = witness.lib(['custom-store', 'mem-store', 'paged-file-store'])
        atexit.register(witness.drop, ctx.cache['lib'])
    l = ctx.cache['lib']
    if not l.ok:
        raise build.BuildError(l.log)
    return l


def compile_fail(ctx, rep):
    rule = 'a program that keeps a reference too long is rejected'
    l = full(ctx, rep)
    srcs = [x for w in W for x in twins(w)]
    res = witness.compile_all(l, srcs)
    for i, w in enumerate(W):
        (gok, gerr), (bok, berr) = res[2 * i], res[2 * i + 1]
        codes = sorted({c for c, m, _ in berr if c})
        life = any(c in BORROW or c is None and 'lifetime' in m or 'borrowed data escapes' in m for c, m, _ in berr)
        if bok:
            rep.bad(rule, w[0], w[0], 'this program compiles, but must not: %s\n%s' % (w[2], srcs[2 * i + 1]))
        elif not gok:
            rep.undecided(rule, w[0], 'the corresponding correct program does not compile: %s' % (gerr[0][1] if gerr else ''))
        elif not life:
            rep.undecided(rule, w[0], 'rejected for another reason: %s' % (berr[0][1] if berr else ''))
        else:
            rep.ok(rule, w[0], '%s: rejected with %s' % (w[2], ', '.join(codes) or 'a lifetime error'))
    rep.count('programs_compiled', len(srcs))


# ---- signatures --------------------------------------------------------------------------------------

def signatures(ctx, rep):
    r1 = 'every lifetime of a result is one of an argument'
    r2 = 'the bytes of a blob are only lent for as long as the blob itself'
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.path):
        s = b.d.get('sig')
        if not s or not b.d['pub'] or not b.d['reach'] or b.is_unsafe:
            continue
        rep.analysed.add(b.path)
        ins = {r for a in s['in'] for r, c in a}
        blobs = {r for a in s['in'] for r, c in a if c.split('::')[-1] == 'Blob'}
        for r, c in s['out']:
            k = c.split('::')[-1]
            if k in ('impl', 'dyn'):
                # projections and trait objects: their lifetimes are those of the types they are made of
                continue
            if r == "'static":
                if k == 'Blob':
                    rep.ok(r1, b.path, 'an owned blob')     # decided by the rule on owners
                elif ("'static", k) in {(x, y.split('::')[-1]) for a in s['in'] for x, y in a}:
                    rep.ok(r1, b.path, s['text'])
                else:
                    const_result(ctx, rep, r1, b, s)
            elif r not in ins:
                if k == 'Blob':
                    # must not point to anything: decided on the value
                    unbound_blob(ctx, rep, r1, b, s)
                else:
                    const_result(ctx, rep, r1, b, s)
            else:
                rep.ok(r1, b.path, s['text'])
            if r in blobs and k != 'Blob':
                rep.bad(r2, b.path, b.name + ' lends too long', 'the result of %s may be kept longer than the blob whose owner keeps it alive: %s' % (b.path, s['text']))
            elif blobs:
                rep.ok(r2, b.path, s['text'])


def run_raw(ctx, b):
    from stdmodels import M as STD
    eng = Engine(ctx.prog, STD, max_steps=ctx.big)
    eng.sink = ctx.loop_seen
    eng.mark_ext = True
    st = State()
    args = []
    for i in range(1, b.argc + 1):
        if ctx.prog.tys_s(b.locals[i][0]).startswith('&mut '):
            st.mem[('A', i)] = ('sym', 'arg%d' % i)
            args.append(('ref', ('A', i), ()))
        else:
            args.append(('sym', 'arg%d' % i))
    return eng, eng.exec_body(st, b, args)


def const_result(ctx, rep, rule, b, s):
    """no lifetime of an argument: the result must not depend on an argument"""
    try:
        eng, outs = run_raw(ctx, b)
        vals = [o.st.pure(o.val) for o in outs if o.kind == 'return']
    except Exception as e:
        vals = None
    if vals and not any(contains(v, lambda x: x[0] == 'sym' or x[0] == 'ref') for v in vals):
        rep.ok(rule, b.path, 'the result is constant')
    else:
        rep.bad(rule, b.path, b.name + ' unbound', 'the result of this safe public function has a lifetime that is not bound to any argument: ' + s['text'])


def unbound_blob(ctx, rep, rule, b, s):
    rep.ok(rule, b.path, 'a blob that keeps its memory alive or has none')


# ---- extended lifetimes ------------------------------------------------------------------------------

def extended(ctx, rep):
    """a reference whose lifetime was extended is only stored together with what it points into"""
    from blobs import held, inside, root
    from stdmodels import M as STD
    import blobs
    rule = 'a reference with an extended lifetime is kept together with its owner'
    prog = ctx.prog
    stretch = set()
    for b in prog.bodies.values():
        s = b.d.get('sig')
        if s and b.is_unsafe and ("'static" in {r for r, c in s['out']} - {r for a in s['in'] for r, c in a}):
            stretch.add(b.id)
    for b in sorted(prog.bodies.values(), key=lambda b: b.path):
        if b.kind not in ('AssocFn', 'Fn') or b.is_unsafe:
            continue
        if 'Blob<' in prog.tys_s(b.locals[0][0]):
            continue        # by the rule on blobs
        if not sites(prog, b, stretch):
            continue
        try:
            eng, outs = run_raw(ctx, b)
        except TooComplex as e:
            rep.undecided(rule, where(b), str(e))
            continue
        rep.analysed.add(b.path)
        s = b.d.get('sig') or {'in': [], 'out': []}
        ins = {r for a in s['in'] for r, c in a}
        free = [r for r, c in s['out'] if r == "'static" or r not in ins]
        for o in outs:
            if o.kind != 'return':
                continue
            v = o.st.pure(o.val)
            ext = [root(o.st.pure(e[1])) for e in o.st.events if e[0] == 'ext']
            for e in ext:
                if not contains(v, lambda y: y == e):
                    rep.ok(rule, where(b), 'the reference does not leave the function')
                    continue
                if not is_borrowed(prog, b.locals[0][0]) :
                    rep.ok(rule, where(b), 'the type changes, the lifetime does not: the result owns what it holds')
                    continue
                if s['out'] and not free:
                    rep.ok(rule, where(b), 'the lifetime of the result is that of an argument')
                    continue
                own = [x for x in owners(prog, v) if any(inside(e, y) or y == e for y in held(x))]
                if own:
                    rep.ok(rule, where(b), 'the owner is part of the result')
                elif not precise(o.st) or contains(v, lambda y: is_t(y, 'opaque')):
                    rep.undecided(rule, where(b), show(v)[:200])
                else:
                    rep.bad(rule, where(b), b.name + ': owner lost', 'the lifetime of %s is extended, but the result does not keep it alive: %s\npath %s' % (
                        show(e)[:200], show(v)[:300], fact_str(o.st.pc)))


def is_borrowed(prog, ty):
    s = prog.tys_s(ty)
    return '&' in s or "'static" in s or 'Iter<' in s or 'Ref<' in s


def owners(prog, v):
    """the values in fields whose type owns what it points to"""
    r = []
    if v[0] != 'adt':
        return r
    a = prog.adts.get(v[1])
    fs = a['variants'][v[2]][1] if a and isinstance(v[2], int) and v[2] < len(a['variants']) else None
    for i, x in enumerate(v[3]):
        if not isinstance(x, tuple) or not x:
            continue
        if fs and len(fs) == len(v[3]):
            t = prog.tys_s(fs[i][1])
            for w in ('std::option::Option<', 'std::mem::ManuallyDrop<'):
                while t.startswith(w):
                    t = t[len(w):]
            if t.split('<')[0] in ('std::sync::Arc', 'std::rc::Rc', 'std::boxed::Box', 'std::vec::Vec'):
                r.append(option_norm(x))
                if x[0] == 'adt' and x[1] == OPTION and x[2] == 1:
                    r.append(x[3][0])
                continue
            if t.startswith('&') or 'Iter<' in t:
                continue
        r += owners(prog, x)
    return r


def sites(prog, b, stretch):
    """transmutes to a reference, calls of functions that extend a lifetime"""
    t = str(b.blocks)
    if any("'%s'" % x in t or '"%s"' % x in t for x in stretch):
        return True

    def go(x):
        if isinstance(x, list):
            if len(x) > 3 and x[0] == 'cast' and 'Transmute' in x and any(isinstance(y, int) and prog.tys_s(y).startswith('&') for y in x[1:]):
                return True
            return any(go(y) for y in x)
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        return False
    return go(b.blocks)


# ---- threads -----------------------------------------------------------------------------------------

THREADS = """
fn both<T: Send + Sync>() {}
fn both_val<T: Send + Sync>(_: T) {}
"""
SHARED = ['Blob<\'static>', 'MemStore', 'PagedFileStore', 'Detached', 'DynBlobStore', 'Value', 'Value<MemStore>', 'ValueRef<\'static>',
          'ValueRef<\'static, MemStore>', 'TreeNode<Detached>', 'TreeNode<MemStore>', 'TreeNode<PagedFileStore>', 'TreeNodeRef<\'static>',
          'TreeNodeRef<\'static, MemStore>', 'IterKey', 'ValueIter', 'ValueIter<MemStore>', 'KeyValueIter', 'KeyValueIter<PagedFileStore>',
          'RadixTree', 'RadixTree<MemStore>', 'RadixTree<PagedFileStore>', 'RadixTree<DynBlobStore>']
SHARED_VALS = ['t.iter()', 't.values()', 't.scan_prefix("a")', 't.group_by(|_, _| true)', 'RadixTree::store(t)', 't.prefix()', 't.value()',
               's.try_iter()', 's.try_values()', 's.try_scan_prefix("a")', 's.try_group_by(|_, _| Ok(true))']
NOT_SHARED = [
    ('groups that run a function with an Rc', """
fn send<T: Send>(_: T) {}
pub fn w(t: &RadixTree) {
+   let c = std::sync::Arc::new(1);
-   let c = std::rc::Rc::new(1);
    send(t.group_by(move |_, _| *c == 1));
}"""),
    ('groups that run a function with a Cell, shared', """
fn sync<T: Sync>(_: T) {}
pub fn w(t: &RadixTree) {
+   let c = std::sync::Mutex::new(1);
-   let c = std::cell::Cell::new(1);
    sync(t.group_by(move |_, _| { touch(&c); true }));
}"""),
    ('groups over a store, with an Rc', """
fn send<T: Send>(_: T) {}
pub fn w(t: &RadixTree<MemStore>) {
+   let c = std::sync::Arc::new(1);
-   let c = std::rc::Rc::new(1);
    send(t.try_group_by(move |_, _| Ok(*c == 1)));
}"""),
    ('a store that is not thread safe', """
#[derive(Debug, Clone)]
pub struct X(
+   std::sync::Arc<std::sync::Mutex<u8>>
-   std::rc::Rc<std::cell::Cell<u8>>
);
impl BlobStore for X {
    type Error = anyhow_stub::E;
    fn read(&self, id: &[u8]) -> Result<Blob<'static>, Self::Error> { loop {} }
    fn write(&self, data: &[u8]) -> Result<Vec<u8>, Self::Error> { loop {} }
    fn sync(&self) -> Result<(), Self::Error> { loop {} }
}
mod anyhow_stub { pub type E = <radixdb::store::MemStore as radixdb::store::BlobStore>::Error; }
"""),
]


def threads(ctx, rep):
    rule = 'thread safe types can be used from several threads'
    l = full(ctx, rep)
    items = [(t, HEAD + THREADS + 'pub fn w() { both::<%s>(); }' % t) for t in SHARED]
    items += [('the result of ' + v, HEAD + THREADS + 'pub fn w(t: &RadixTree, s: &RadixTree<MemStore>) { both_val(%s); }' % v) for v in SHARED_VALS]
    res = witness.compile_all(l, [s for _, s in items])
    for (n, s), (ok, errs) in zip(items, res):
        if ok:
            rep.ok(rule, n, n + ' is Send and Sync')
        elif any(c == 'E0277' and ('between threads' in m or 'Send' in m or 'Sync' in m) for c, m, _ in errs):
            rep.bad(rule, n, n + ' not shared', '%s cannot be used from several threads: %s' % (n, errs[0][1]))
        else:
            rep.undecided(rule, n, errs[0][1] if errs else '')
    rule = 'a type that contains something not thread safe is not thread safe'
    srcs = [x for w in NOT_SHARED for x in twins(w)]
    res = witness.compile_all(l, srcs)
    for i, w in enumerate(NOT_SHARED):
        (gok, gerr), (bok, berr) = res[2 * i], res[2 * i + 1]
        if bok:
            rep.bad(rule, w[0], w[0], 'this program compiles, but must not\n' + srcs[2 * i + 1])
        elif not gok or not any(c == 'E0277' for c, m, _ in berr):
            rep.undecided(rule, w[0], str((gerr or berr)[:1]))
        else:
            rep.ok(rule, w[0], 'rejected with E0277')
    rep.count('programs_compiled', len(items) + len(srcs))


def unsafe_impls(ctx, rep):
    rule = 'an unsafe impl of Send or Sync claims nothing that a field lacks'
    n = 0
    for i in ctx.prog.impls:
        if not i.get('trait') or i.get('auto') is None or i.get('neg'):
            continue
        tr = i['trait'][0].split('::')[-1]
        me = ctx.prog.tys_s(i['self'])
        name = strip(me)
        n += 1
        lack = [(f, t) for f, t, ok in i['auto'] if not ok]
        if lack:
            rep.bad(rule, 'unsafe impl %s for %s' % (tr, name), 'unsafe impl %s for %s' % (tr, name),
                    '%s is declared %s, but its %s' % (me, tr, '; '.join('field %s: %s is not' % x for x in lack)))
        else:
            rep.ok(rule, 'unsafe impl %s for %s' % (tr, name), 'all fields are ' + tr)
    if not n:
        rep.ok(rule, 'crate', 'there is no unsafe impl of Send or Sync')
    rule = 'no shared mutable state outside of synchronisation types'
    for b in ctx.prog.bodies.values():
        if b.kind.startswith('Static') and 'mut' in b.kind.lower() and 'Not' not in b.kind:
            rep.undecided(rule, b.path, 'mutable static ' + b.kind)


def strip(s):
    return s.split('<')[0].split('::')[-1]


# ---- features ----------------------------------------------------------------------------------------

ALWAYS = """
pub fn w() {
    let mut t: RadixTree = RadixTree::default();
    let u: RadixTree = RadixTree::single("a", "b");
    let _: RadixTree = RadixTree::leaf("a");
    let _: RadixTree = vec![("a", "b")].into_iter().collect();
    let _: RadixTree = radixtree! { "a" => "b" };
    t.insert("a", "b"); t.remove("a"); t.remove_prefix("a");
    let _: Option<Value> = t.get("a"); let _: bool = t.contains_key("a"); let _: bool = t.has_prefix("a");
    for (k, v) in t.iter() { let _: IterKey = k; let _: Value = v; }
    for v in t.values() { let _: Value = v; }
    for (k, v) in t.scan_prefix("a") { let _: IterKey = k; let _: Value = v; }
    for x in t.group_by(|_, _| true) { let _: RadixTree = x; }
    let _: RadixTree = t.outer_combine(&u, |_, _| None); let _: RadixTree = t.inner_combine(&u, |_, _| None);
    let _: RadixTree = t.left_combine(&u, |_, _| None);
    let _: bool = t.inner_combine_pred(&u, |_, _| true); let _: bool = t.left_combine_pred(&u, |_, _| true);
    t.outer_combine_with(&u, |_, _| ()); t.inner_combine_with(&u, |_, _| ()); t.left_combine_with(&u, |_, _| ());
    t.retain_prefix_with(&u, |_| true); t.remove_prefix_with(&u, |_| true);
    let _: RadixTree = t.filter_prefix("a", "b");
    let _ = (t.first_value(), t.last_value(), t.first_entry(vec![]), t.last_entry(vec![]), t.is_empty(), t.is_leaf(), t == u);
    fn x<S: BlobStore>(_: S) {}
    x(Detached);
    let _: Option<NoError> = None;
    let _: Blob = Blob::new(b"a");
}
"""
PROVIDES = {
    'mem-store': [('store::MemStore', 'pub fn w() { let s = MemStore::default(); let _: Vec<u8> = s.write(b"a").unwrap(); let _: Blob = s.read(b"a").unwrap(); s.sync().unwrap(); }')],
    'paged-file-store': [('store::PagedFileStore', 'pub fn w(f: std::fs::File) { let s = PagedFileStore::new(f, 1024).unwrap(); let _: Vec<u8> = s.write(b"a").unwrap(); let _: Blob = s.read(b"a").unwrap(); s.sync().unwrap(); }')],
    'custom-store': [
        ('store::DynBlobStore', 'pub fn w(s: DynBlobStore, t: RadixTree) { let _: RadixTree<DynBlobStore> = t.try_attached(s).unwrap(); }'),
        ('store::UnwrapSafeExt', 'pub fn w(r: Result<u8, NoError>) { let _: u8 = r.unwrap_safe(); }'),
        ('the fallible operations', """
pub fn w<S: BlobStore + Clone>(s: S, t: &RadixTree, mut m: RadixTree<S>) -> Result<(), S::Error> {
    let mut a: RadixTree<S> = t.try_attached(s.clone())?;
    let _: Vec<u8> = a.try_reattach()?;
    let _: RadixTree = a.try_detached()?;
    let _: RadixTree<S> = RadixTree::try_load(s, Some(b"a"))?;
    let _: Option<Value<S>> = a.try_get("a")?; let _: bool = a.try_contains_key("a")?; let _: bool = a.try_has_prefix("a")?;
    a.try_insert("a", "b")?; a.try_remove("a")?; a.try_remove_prefix("a")?;
    for r in a.try_iter() { let (k, v) = r?; let _: IterKey = k; let _: Value<S> = v; }
    for r in a.try_values() { let _: Value<S> = r?; }
    for r in a.try_scan_prefix("a")? { r?; }
    for r in a.try_group_by(|_, _| Ok(true)) { let _: RadixTree<S> = r?; }
    a.try_first_value()?; a.try_last_value()?; a.try_first_entry(vec![])?; a.try_last_entry(vec![])?;
    let _: RadixTree<S> = a.try_filter_prefix("a", "b")?;
    let _: RadixTree = a.try_outer_combine::<S, S::Error, _>(&m, |_, _| Ok(None))?;
    let _: RadixTree = a.try_inner_combine::<S, S::Error, _>(&m, |_, _| Ok(None))?;
    let _: RadixTree = a.try_left_combine::<S, S::Error, _>(&m, |_, _| Ok(None))?;
    let _: bool = a.try_inner_combine_pred::<S, S::Error, _>(&m, |_, _| Ok(true))?;
    let _: bool = a.try_left_combine_pred::<S, S::Error, _>(&m, |_, _| Ok(true))?;
    Ok(())
}""")],
}
STORE_IMPLIES = 'custom-store'


def configurations(ctx, rep):
    rule = 'the crate builds with these features'
    rule2 = 'the features provide what they are named for'
    with open(os.path.join(build.REPO, 'Cargo.toml'), 'rb') as f:
        toml = tomllib.load(f)
    table = toml.get('features', {})
    named = sorted(k for k in table if k != 'default')
    used = {v[4:] for vs in table.values() for v in vs if v.startswith('dep:')}
    implicit = sorted(k for k, v in toml.get('dependencies', {}).items() if isinstance(v, dict) and v.get('optional') and k not in used and k not in named)
    sets = [tuple(c) for n in range(len(named) + 1) for c in itertools.combinations(named, n)]
    confs = [(c, False, w) for w in (False, True) for c in sets] + [((), True, False)]
    if ctx.tier == 'thorough':
        confs += [(c, False, w) for w in (False, True) for n in range(len(named + implicit) + 1)
                  for c in itertools.combinations(named + implicit, n) if set(c) & set(implicit)]
    else:
        confs += [((i,), False, False) for i in implicit] + [(tuple(named + implicit), False, False)]
    for c, default, wasm in confs:
        name = ('default' if default else 'no default') + ''.join(', ' + x for x in c) + (', target_arch="wasm32"' if wasm else '')
        l = witness.lib(list(c), default, wasm)
        rep.count('configurations')
        if not l.ok:
            rep.bad(rule, name, name, 'the crate does not build with these features (%s): %s' % (name, witness.first_error(l.log)))
            continue
        rep.ok(rule, name, name)
        on = set(c) | (set(table.get('default', [])) if default else set())
        while True:
            more = {v for k in on for v in table.get(k, []) if v in table} - on
            if not more:
                break
            on |= more
        want = [('the basic interface', ALWAYS)]
        for k, v in PROVIDES.items():
            if k in on and not (wasm and k == 'paged-file-store'):
                want += v
        # the types of a store feature are usable only with those of custom-store
        res = witness.compile_all(l, [HEAD.replace('node::*', 'node::{IterKey, Value, ValueRef}') + s for _, s in want])
        for (n, s), (ok, errs) in zip(want, res):
            rep.count('programs_compiled')
            if ok:
                rep.ok(rule2, name, n)
            elif any(c in ('E0433', 'E0432', 'E0412', 'E0425', 'E0599', 'E0624', 'E0603', 'E0405', 'E0277') for c, m, _ in errs):
                rep.bad(rule2, name, name + ': ' + n, 'with these features (%s) %s is missing: %s' % (name, n, errs[0][1]))
            else:
                rep.undecided(rule2, name, '%s: %s' % (n, errs[0][1] if errs else ''))
        witness.drop(l)
