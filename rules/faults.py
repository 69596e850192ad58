"""Errors reach the caller (C13): the rule of errors.py over every function that can fail, and what of them was not reached."""
import re

from common import *
import errors
import layer1


class Only:
    """a report that keeps only what is said about errors"""

    def __init__(self, rep):
        self.errors_to = rep
        self.checked = set()
        self.rules = {}
        self.analysed = rep.analysed

    def ok(self, *a, **k):
        pass

    bad = undecided = count = rule = ok


def faults(groups):
    def everywhere(ctx, rep):
        only = Only(rep)
        for g in dict.fromkeys(groups):
            try:
                g(ctx, only)
            except Missing as e:
                rep.undecided('errors', str(e), 'not found')
            except Exception as e:
                rep.undecided('errors', getattr(g, '__name__', 'rules'), 'the analysis stopped: %r' % (e,))
        rule = 'errors of the node layer'
        done = set(only.checked)
        for k, fn in sorted(((k, f) for k, f in ctx.cache.items() if isinstance(f, layer1.Fn)), key=lambda x: str(x[0])):
            if where(fn.body) not in done:
                errors.check(only, rule, fn.body, fn.eng, fn.outs)
                rep.ok(rule, where(fn.body), 'analysed')
        others(ctx, only)
        rest(ctx, rep, only.checked)
    return everywhere


def fallible(ctx):
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.path):
        t = ctx.prog.tys_s(b.locals[0][0])
        if 'Result<' in t and 'fmt::Error' not in t and re.search(r'(::Error|\bE)>', t) and b.kind not in ('Closure', 'closure'):
            yield b, t


def others(ctx, only):
    """functions that no other rule looks at, with arguments of any value"""
    for b, t in fallible(ctx):
        if b.id in only.checked or where(b) in only.checked or 'store::' in (ctx.prog.self_adt(b) or 'store::'):
            continue
        try:
            eng = ctx.engine()
            outs = eng.exec_body(State(), b, [('sym', 'x%d' % i) for i in range(b.argc)])
        except Exception as e:
            only.errors_to.undecided('errors of other functions', where(b), repr(e)[:200])
            continue
        errors.check(only, 'errors of other functions', b, eng, outs)


def rest(ctx, rep, checked):
    """functions that can fail with an error of the store or of a caller and that no analysis went through"""
    rule = 'every function that can fail was analysed'
    for b, t in fallible(ctx):
        if b.id in checked or where(b) in checked:
            rep.ok(rule, where(b), 'analysed')
        else:
            rep.undecided(rule, where(b), 'not analysed: returns ' + t[-120:])
