"""What the rules share: the program, runs of the analysis on public functions, verdict helpers."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))

from terms import *
from absint import Engine, State, discr, TooComplex, Out
import nodemodels as nm
import stdmodels as sm


class Missing(Exception):
    """a public function or type the rules are anchored at does not exist"""


class Ctx:
    def __init__(self, prog, tier='quick'):
        self.prog = prog
        self.tier = tier
        self.cache = {}
        self.seen_loops = []
        self.big = 4000000 if tier == 'thorough' else 400000

    def adt(self, name):
        r = [a for a in self.prog.adts.values() if a['path'].split('::')[-1] == name]
        if len(r) != 1:
            raise Missing('type ' + name)
        return r[0]

    def fields(self, name, variant=0):
        return [f[0] for f in self.adt(name)['variants'][variant][1]]

    def method(self, owner, name, trait=None, all_=False):
        r = []
        for b in self.prog.by_name(name):
            sa = self.prog.self_adt(b)
            if not sa:
                continue
            t = sa.split('<')[0].split('::')[-1]
            tr = (b.impl or {}).get('trait')
            tn = tr[0].split('<')[0].split('::')[-1] if tr else None
            if t == owner and tn == trait and b.kind not in ('Closure', 'closure'):
                r.append(b)
        if all_:
            return r
        if not r:
            raise Missing('%s::%s' % (owner, name))
        return r[0]

    def engine(self, models=None, **k):
        e = Engine(self.prog, models or nm.M, max_steps=self.big, **k)
        e.on_recursion = nm.on_recursion
        e.sink = self.loop_seen
        return e

    def loop_seen(self, rec, stuck):
        self.seen_loops.append((rec, stuck))

    def tree(self, node, store):
        f = self.fields('RadixTree')
        v = {'node': node, 'store': store}
        return ('adt', self.adt('RadixTree')['id'], 0, tuple(v[x] for x in f))

    def tree_node(self, v):
        return project(v, ('f', self.fields('RadixTree').index('node')))


def precise(st):
    return not st.imprecise and plain_elements(st)


def plain_elements(st):
    """nothing else is known of the elements of a sequence that were asked for something all at once"""
    asked = [e for e in st.events if e[0] == 'every']
    if not asked:
        return True
    for e in asked:
        if any(contains(t, lambda y: is_t(y, 'idx') and y[2] == e[1] or is_t(y, 'drop') and y[2] == e[1]) for t, _ in st.pc):
            return False
    return len(set(e[1] for e in asked)) == len(asked)


def sure(eng, st, known=()):
    """the path can be taken: nothing on it was approximated, and it does not choose values of variables that a loop
    changes (what is known of those is only what the rules find out; the place in a sequence is fine)"""
    if not precise(st):
        return False
    free = set()
    for l in eng.loops.values():
        for s in l['init']:
            if s not in known and not (l['iters'] and all(it['final'].get(s, s) == s or is_t(it['final'].get(s), 'drop') and it['final'].get(s)[2] == s for it in l['iters'])):
                free.add(s)
    return not free or not any(contains(t, lambda y: y in free) for t, _ in st.pc)


def fact_str(pc, n=14):
    return ' & '.join('%s=%s' % (show(t), v) for t, v in pc[-n:])


def where(b):
    """name of a function without positions"""
    return b.path


def option_norm(v):
    """Some(payload of X) is X"""
    if v[0] == 'adt' and v[1] == OPTION and v[2] == 1:
        p = v[3][0]
        if is_t(p, 'fld') and p[3] == 0 and is_t(p[2], 'as') and p[2][3] == 1:
            return p[2][2]
    return v


GOOD_OPS = {'cat', 'unit', 'take', 'drop', 'idx', 'len', 'cp', 'nP', 'nV', 'nC', 'node', 'canon', 'rec', 'recm', 'cb', 'cbm',
            'fld', 'as', 'lin', 'J', 'fpb', 'sorted', 'eq0', 'lt0', 'eq', 'not', 'discr', 'cmp', 'find', 'child', 'vbytes', 'cast', 'signed'}


def clean(v, syms):
    """only known operations over known inputs"""
    def bad(x):
        if x[0] == 'sym':
            return x not in syms
        if x[0] == 'ref':
            return True
        if x[0] == 't':
            return x[1] not in GOOD_OPS
        return False

    def stored(x):
        # how long the id of a stored path is says nothing about the path
        if is_t(x, 'len') and is_t(x[2], 'rawid') and is_t(x[2][2], 'rawpart') and x[2][2][2] == ('str', 'P'):
            return min(syms)
        return None
    return not contains(v, bad) or not contains(substitute(v, stored), bad)


def progress(ctx, rep):
    """every round of a loop seen so far changes something that the loop depends on, or something outside"""
    seen, ctx.seen_loops = ctx.seen_loops, []
    for rec, stuck in seen:
        b = ctx.prog.bodies[rec['body']]
        w = where(b)
        if not stuck:
            rep.ok('loops make progress', w, '%d kinds of rounds, none of which leaves everything the loop depends on unchanged' % len(rec['iters']))
        for it in stuck:
            msg = 'a round of the loop changes nothing that the loop depends on, so that it never ends: %s' % fact_str(it['pc'])
            if precise(it['st']):
                rep.bad('loops make progress', w, 'endless loop in ' + b.id.split('::')[-1], msg)
            else:
                rep.undecided('loops make progress', w, msg)


def when(loop, st):
    """'first' if the state can only be in the first round of the loop, 'later' if only in a later one, by what is
    known about a variable of the loop: its value before the loop, or all its values after a round, exclude it"""
    r = None
    for x, init in loop['init'].items():
        k = st.decide(x)
        if k is None:
            continue
        fin = [it['st'].decide(it['final'].get(x, x)) for it in loop['iters']]
        i = st.decide(init)
        if all(y is not None and y != k for y in fin):
            r = 'first'
        elif i is not None and i != k:
            r = 'later'
    return r
