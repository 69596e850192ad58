"""Canonical form (C30) and equality of trees (C29)."""
from common import *
import combine
import queries
import layer1


def loaded_before_canon(rep, rule, body, outs):
    """canonicalize does not look at children that are still in the store: where the value or the children of a node may have
    changed, its children were loaded for writing before"""
    w = where(body)
    for o in outs:
        loaded = set()
        for e in o.st.events:
            if e[0] != 'op':
                continue
            if e[1] in ('load_children', 'load_children_mut', 'load_children_owned') and e[2]:
                loaded.add(nC(e[2][0]))
                loaded.add(e[2][0])
            if e[1] != 'canonicalize' or not e[2]:
                continue
            x = e[2][0]
            p, v, c = nP(x), nV(x), nC(x)
            kids = is_t(c, 'nC')
            if not kids or v == nV(c[2]) or c in loaded or o.st.decide(eq0(length(c))) == 1:
                rep.ok(rule, w, 'children of the node are in memory where it is brought into normal form')
            elif v == NONE and precise(o.st):
                rep.bad(rule, w, 'canonicalize:stored', 'a node that lost its value is brought into normal form while its children may be in the store\n'
                        'node    %s\npath    %s' % (show(x), fact_str(o.st.pc)))
            else:
                rep.undecided(rule, w, 'children of %s' % show(x))


def results(ctx, rep):
    rule = 'results are in normal form'
    for n, spec in combine.OPS.items():
        if spec['form'] == 'pred':
            continue
        r = combine.Run(ctx, n, spec)
        try:
            r.check(rep, 'decision table of ' + n)
        except TooComplex as e:
            rep.undecided('decision table of ' + n, n, str(e))
            continue
        for st, x in r.canon_missing:
            c = nC(x)
            loops = c[0] == 'sym' and c[1].startswith('loop') and spec['kind'] != 'outer' and not any(contains(t, lambda y: y == c) for t, _ in st.pc)
            if precise(st) and clean(x, r.syms | ({c} if loops else set())):
                rep.bad(rule, where(r.body), n + ':canonical', 'the result is not brought into normal form\nresult  %s\npath    %s' % (show(x), fact_str(st.pc)))
            else:
                rep.undecided(rule, where(r.body), show(x)[:300])
        if not r.canon_missing:
            rep.ok(rule, where(r.body), 'every result is one of the operands, the empty tree, or was brought into normal form last')
        for body, eng, outs in r.runs:
            loaded_before_canon(rep, 'children are in memory where a node is brought into normal form', body, outs)


def tree_equality(ctx, rep):
    rule = 'two trees are compared by their root nodes'
    body = ctx.method('RadixTree', 'eq', 'PartialEq')
    w = where(body)

    def cmp(eng, st, v, call):
        return ('t', 'eqn', st.pure(v[0]), st.pure(v[1]))

    def ne(eng, st, v, call):
        return boolnot(('t', 'eqn', st.pure(v[0]), st.pure(v[1])))
    models = dict(nm.M)
    models['TreeNode::eq'] = cmp
    models['TreeNode::ne'] = ne
    eng = ctx.engine(models)
    st = State()
    ta, tb = ctx.tree(('sym', 'a'), ('sym', 'sa')), ctx.tree(('sym', 'b'), ('sym', 'sb'))
    outs = eng.exec_body(st, body, [ta, tb])
    rep.analysed |= eng.analysed
    ok_ = {('t', 'eqn', ('sym', 'a'), ('sym', 'b')), ('t', 'eqn', ('sym', 'b'), ('sym', 'a'))}
    for o in outs:
        v = o.st.pure(o.val)
        d = [o.st.decide(t) for t in ok_]
        if o.kind == 'return' and (v in ok_ or is_int(v) and v[1] in d):
            rep.ok(rule, w, 'the result is the comparison of the root nodes')
        elif o.kind == 'return' and is_int(v) and d == [None, None] and precise(o.st) and not o.st.pc:
            rep.bad(rule, w, 'tree eq', 'two trees compare %s without looking at their nodes' % v[1])
        elif o.kind == 'return' and any(v == boolnot(t) for t in ok_):
            rep.bad(rule, w, 'tree eq', 'two trees compare equal when their nodes differ')
        else:
            rep.undecided(rule, w, 'result ' + show(v))
