"""Reference implementations of iterator adapters, as loops: what `x.iter().map(f).collect()` does is the loop that
takes the elements one by one, applies f, and pushes the result. The loop is analysed like one of the source code."""
from mir import Body
from terms import *
from absint import Out, is_t

PARAM = {'s': '_', 'k': 'param'}


def ptype(prog):
    if prog.tys[-1] is not PARAM:
        prog.tys.append(PARAM)
    return len(prog.tys) - 1


def fn(path, t, trait=None):
    i = {'id': path, 'path': path, 'targs': []}
    if trait:
        i['trait'] = trait
    return ['k', {'ty': t, 'fn': i}]


def variant(enum, i, name, t, ops):
    return ['agg', 'adt', {'id': 'core::%s::%s' % (enum.lower(), enum), 'path': 'std::%s::%s' % (enum.lower(), enum), 'variant': i,
                           'vname': name, 'names': ['0'] if ops else [], 'active': None, 'targs': [], 'enum': True}, ops]


def body(prog, owner, argc, nlocals, blocks):
    t = ptype(prog)
    d = {'id': owner.id, 'path': owner.path, 'name': owner.name, 'argc': argc, 'locals': [[t, None]] * nlocals, 'blocks': blocks, 'span': owner.span}
    return Body(prog, d)


def each(prog, owner, mode):
    """_1: the sequence, _2: the stages, _3: the vector that is extended.
    mode: 'vec' everything is pushed; 'result' stops at the first error; 'option' stops at the first none;
    'find' stops at the first element"""
    t = ptype(prog)
    c = lambda n, *p: ['c', [n, list(p)]]
    m = lambda n, *p: ['m', [n, list(p)]]
    some0 = (['v', 1, 'Some'], ['f', 0, '0', t])
    nxt = fn('std::iter::Iterator::next', t, 'std::iter::Iterator')
    B = [
        [False, [['=', [4, []], ['ref', True, [1, []]], '']], ['call', nxt, [m(4)], [5, []], 1, None, '']],
        [False, [['=', [6, []], ['discr', [5, []], t], '']], ['switch', m(6), t, [[1, 2]], 6, '']],
        [False, [['=', [7, []], ['use', c(5, *some0)], '']], ['call', fn('prelude::stage', t), [c(2), m(7)], [8, []], 3, None, '']],
        [False, [['=', [9, []], ['discr', [8, []], t], '']], ['switch', m(9), t, [[1, 4]], 0, '']],
        [False, [['=', [10, []], ['use', c(8, *some0)], '']], ['goto', 7]],
        # 5: push what is in _11
        [False, [['=', [12, []], ['ref', True, [3, []]], '']],
         ['call', fn('std::vec::Vec::<T, A>::push', t), [m(12), m(11)], [13, []], 0, None, '']],
        # 6: the end
        [False, [['=', [0, []], {'vec': ['use', m(3)], 'result': variant('Result', 0, 'Ok', t, [m(3)]), 'option': variant('Option', 1, 'Some', t, [m(3)]),
                                 'find': variant('Option', 0, 'None', t, [])}[mode], '']], ['ret', '']],
    ]
    if mode == 'vec':
        B.append([False, [['=', [11, []], ['use', m(10)], '']], ['goto', 5]])
    elif mode == 'find':
        B.append([False, [['=', [0, []], variant('Option', 1, 'Some', t, [m(10)]), '']], ['ret', '']])
    else:
        good, gn = (0, 'Ok') if mode == 'result' else (1, 'Some')
        B += [
            [False, [['=', [6, []], ['discr', [10, []], t], '']], ['switch', m(6), t, [[good, 8]], 9, '']],
            [False, [['=', [11, []], ['use', c(10, ['v', good, gn], ['f', 0, '0', t])], '']], ['goto', 5]],
            [False, [['=', [0, []], variant('Result', 1, 'Err', t, [c(10, ['v', 1, 'Err'], ['f', 0, '0', t])]) if mode == 'result' else variant('Option', 0, 'None', t, []), '']],
             ['ret', '']],
        ]
    return body(prog, owner, 3, 14, B)


def drain(prog, owner, mode):
    """_1: the sequence, _2: the stages, _3: a function, _4: a value.
    mode: 'for_each' the function is applied to every element; 'try_for_each' as well, up to the first error;
    'fold' the function is applied to the value and every element, and returns the new value"""
    t = ptype(prog)
    c = lambda n, *p: ['c', [n, list(p)]]
    m = lambda n, *p: ['m', [n, list(p)]]
    some0 = (['v', 1, 'Some'], ['f', 0, '0', t])
    nxt = fn('std::iter::Iterator::next', t, 'std::iter::Iterator')
    args = [c(3), m(4), m(9)] if mode == 'fold' else [c(3), m(9)]
    end = {'for_each': ['agg', 'tuple', None, []], 'fold': ['use', m(4)],
           'try_for_each': variant('Result', 0, 'Ok', t, [['c', [13, []]]])}[mode]
    B = [
        [False, [['=', [5, []], ['ref', True, [1, []]], '']], ['call', nxt, [m(5)], [6, []], 1, None, '']],
        [False, [['=', [7, []], ['discr', [6, []], t], '']], ['switch', m(7), t, [[1, 2]], 6, '']],
        [False, [['=', [8, []], ['use', c(6, *some0)], '']], ['call', fn('prelude::stage', t), [c(2), m(8)], [10, []], 3, None, '']],
        [False, [['=', [7, []], ['discr', [10, []], t], '']], ['switch', m(7), t, [[1, 4]], 0, '']],
        [False, [['=', [9, []], ['use', c(10, *some0)], '']], ['call', fn('prelude::apply', t), args, [11, []], 5, None, '']],
        [False, [['=', [4, []], ['use', m(11)], '']] if mode == 'fold' else [], ['goto', 0]],
        [False, [['=', [13, []], ['agg', 'tuple', None, []], ''], ['=', [0, []], end, '']], ['ret', '']],
    ]
    if mode == 'try_for_each':
        B[5] = [False, [['=', [7, []], ['discr', [11, []], t], '']], ['switch', m(7), t, [[0, 0]], 7, '']]
        B.append([False, [['=', [0, []], variant('Result', 1, 'Err', t, [c(11, ['v', 1, 'Err'], ['f', 0, '0', t])]), '']], ['ret', '']])
    return body(prog, owner, 4, 14, B)


def stages(x):
    """(sequence, stages) of nested adapters"""
    r = []
    while x[0] == 't' and x[1] in ('map', 'filter') and len(x) == 4:
        r.insert(0, ('adt', 'prelude::' + x[1], 0, (x[3],)))
        x = x[2]
    return x, ('adt', 'prelude::stages', 0, tuple(r))
