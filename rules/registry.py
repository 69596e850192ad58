"""property -> the rule groups that decide it"""
import attach
import blobs
import combine
import detach
import errors
import faults
import format
import iters
import layer0
import layer1
import mem
import panics
import queries
import shape
import sharing
import stores
import typelevel
import wrappers
from common import *


def combine_group(*names, what=('table', 'errors')):
    def g(ctx, rep):
        for n in names:
            runs = ctx.cache.get(('combine', n))
            spec = combine.OPS[n]
            r = combine.Run(ctx, n, spec)
            try:
                r.check(rep, 'decision table of ' + n)
            except TooComplex as e:
                rep.undecided('decision table of ' + n, n, str(e))
                continue
            for body, eng, outs in r.runs:
                errors.check(rep, 'errors of ' + n, body, eng, outs)
    return g


def ops(prop):
    return [n for n, s in combine.OPS.items() if s['prop'] == prop]


# the functions of the nodes that the algorithms are built from
NODES = [layer0.headers, layer0.slots, layer1.nodes, layer1.refs, layer1.values, layer1.converters, layer1.first_bytes, layer1.children_access, layer1.canonical, layer1.value_bytes, layer1.common]
# reading and writing stored nodes
READ = [format.decode, format.root, format.children, format.load]
WRITE = [format.blob, format.node_written]
ITERS = [iters.memory_iter, iters.stored_iter, iters.either_iter]

COMBINE = ('Abstract interpretation of the MIR of the public operation and of the recursive function below it: every path is compared with '
           'the meaning of the operation for the relation of the two node paths, the two values and the answer of the callback; each loop over '
           'children is checked to be a simulation of the ordered merge. Obligations are the comparisons made; undecided ones are listed.')

PROPS = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    PROPS[p] = {'groups': [combine_group(*ops(p))] + NODES + ITERS + READ, 'explanation': COMBINE}

LOOKUP = ('Abstract interpretation of the MIR of the public operation and of the recursive function below it: every path is compared with a '
          'decision table over the relation of the key and the path of the node.')
ITER = ('Abstract interpretation of the MIR of next(): the entries to come are defined as a function of the iterator state and every step, '
        'loop round and end has to preserve it; the first state has to stand for the whole tree.')
PROPS['C06'] = {'groups': [queries.lookups('C06')] + NODES + ITERS + READ, 'explanation': LOOKUP}
PROPS['C07'] = {'groups': [queries.lookups('C07'), queries.iterators('KeyValueIter')] + NODES + ITERS + READ, 'explanation': LOOKUP}
PROPS['C08'] = {'groups': [queries.iterators('ValueIter', 'KeyValueIter', 'GroupBy'), queries.starts] + NODES + ITERS + READ, 'explanation': ITER}
PROPS['C09'] = {'groups': [queries.lookups('C09')] + NODES + ITERS + READ, 'explanation': LOOKUP}
PROPS['C10'] = {'groups': [wrappers.delegates, wrappers.composed, wrappers.from_iter, wrappers.basics] + NODES,
                'explanation': 'Every infallible method is compared with the fallible method of the same name (same call, same arguments, same function, '
                               'unchanged result; otherwise the same abstract paths). insert, remove and remove_prefix are checked to be the general '
                               'operation with the right one-entry tree and function, from_iter by the invariant of its loop.'}

STORE = ('Abstract interpretation of the MIR of the store operation with an abstract file (length, cursor, appends, overwrites and reads at symbolic '
         'positions), abstract maps and the lock: every path, also those on which an operation of the file fails, has to satisfy the rule. '
         'Inequalities over positions are decided by linear entailment with the axioms of division by the page size.')
PROPS['C20'] = {'groups': [blobs.slicing, blobs.access, blobs.constructors],
                'explanation': 'Abstract interpretation of the slicing functions over all nine shapes of a range (bytes, bounds, owner, panics), and of every '
                               'function that returns a blob: its bytes have to be derived from its owner wherever a lifetime was extended.'}
PROPS['C22'] = {'groups': [stores.write_rules, stores.read_rules, stores.open_rules], 'explanation': STORE}
PROPS['C23'] = {'groups': [stores.write_rules, stores.sync_rules], 'explanation': STORE}
PROPS['C24'] = {'groups': [stores.open_rules, stores.read_rules, stores.write_rules, stores.last_id_rules], 'explanation': STORE}
PROPS['C25'] = {'groups': [stores.read_rules, mem.mem_read], 'explanation': STORE}
PROPS['C26'] = {'groups': [mem.mem_write, mem.mem_read, mem.mem_clone, mem.mem_unchanged, mem.locks_of('MemStore')], 'explanation': STORE}
PROPS['C27'] = {'groups': [mem.locks, mem.shared_state],
                'explanation': 'Typestate of the lock over all paths of every operation of both stores: at most one hold, never taken while held, '
                               'released at the end, no callback while held.'}
PROPS['C32'] = {'groups': [mem.dynamic], 'explanation': 'For every item of the trait, including those with a default: the implementation for dynamic '
                                                        'references exists, and all its paths make exactly the same call on the store inside and return its result.'}
PROPS['C18'] = {'groups': [typelevel.compile_fail, typelevel.signatures, typelevel.extended, blobs.constructors],
                'explanation': 'Pairs of client programs, one of which keeps a reference too long, are given to the compiler, which must reject that one for a '
                               'lifetime error; the regions of every safe public signature are checked; every extension of a lifetime has to be kept with its owner.'}
PROPS['C19'] = {'groups': [typelevel.threads, typelevel.unsafe_impls],
                'explanation': 'Type-level witnesses for Send and Sync, and for every unsafe impl of them the trait solver is asked whether each field has the trait.'}
PROPS['C28'] = {'groups': [typelevel.configurations],
                'explanation': 'The library is type-checked in every configuration, and a client that uses what the features are named for is type-checked against it.'}
PROPS['C17'] = {'groups': NODES + ITERS + READ + [layer1.equality, layer1.nodes_memory],
                'explanation': 'Abstract interpretation of every function that touches a raw slot: a slot is only accessed as what its header says, and at the end '
                               'of every path each allocation has exactly one owner whose header describes it, or was released once.'}
PROPS['C29'] = {'groups': [shape.tree_equality, layer1.equality, layer1.canonical, layer1.value_bytes, shape.results] + NODES,
                'explanation': 'Abstract interpretation of the comparison of nodes over all combinations of headers, together with the normal form of results, '
                               'without which equal contents could have different nodes.'}
PROPS['C30'] = {'groups': [shape.results, queries.lookups('C07'), wrappers.composed, wrappers.from_iter] + NODES,
                'explanation': 'Every result of an operation is an operand, empty, or was brought into normal form last, with its children in memory when the value or '
                               'children may have changed; the normal form itself is compared with its definition for every combination of headers.'}
FORMAT = ('Abstract interpretation of the decoding and encoding of nodes over symbolic bytes and headers: every path is compared with the '
          'documented layout; positions are compared by linear entailment, and every access has to lie inside the bytes.')
PROPS['C11'] = {'groups': WRITE + NODES, 'explanation': FORMAT}
PROPS['C12'] = {'groups': READ + WRITE + NODES + ITERS, 'explanation': FORMAT}
PROPS['C21'] = {'groups': READ + ITERS, 'explanation': FORMAT}
PROPS['C14'] = {'groups': [attach.reattach, attach.attached] + WRITE + READ + NODES,
                'explanation': 'Abstract interpretation of attach and reattach: on every path, also those on which a step fails, the nodes in memory are the old '
                               'ones until the root was written; the written bytes are decided by the rules for the stored format.'}
PROPS['C15'] = {'groups': [detach.whole, layer1.loaded] + NODES + ITERS + READ + [detach.store_types],
                'explanation': 'Every place where the store type of a node changes, by a transmute or through an untyped raw slot, is enumerated from the types; the '
                               'functions that do so for a tree with a store are compared with their contract, which is that everything is loaded.'}
TREE = sum((PROPS[p]['groups'] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15')), [])
FILE = sum((PROPS[p]['groups'] for p in ('C22', 'C23', 'C24')), [])
PROPS['C13'] = {'groups': [faults.faults(TREE + FILE)],
                'explanation': 'Over all abstract paths of every function that can fail: after the first failed operation the function returns exactly that error, '
                               'does nothing else, and does not panic; a loop does not go on after it; an iterator that failed has nothing left.'}
PROPS['C31'] = {'groups': [panics.functions(TREE), panics.unimplemented],
                'explanation': 'Every abstract path of the tree operations and of the node layer that ends in a panic has to contradict what holds for every node; '
                               'the store is only asked for what a header says is an id; no function reachable from the public interface is a stub.'}
PROPS['C16'] = {'groups': [sharing.writes] + NODES + ITERS + [layer1.nodes_memory, typelevel.extended, queries.starts, queries.iterators('KeyValueIter')],
                'explanation': 'Every construct that could write to shared data (a mutable pointer made from a shared one, an uncounted duplicate of an owner) is '
                               'enumerated; cloning and dropping nodes is decided by the memory rules: every allocation has one owner per counted reference.'}
for p, d in PROPS.items():
    if p != 'C31' and layer1.nodes in d['groups']:
        d['groups'] = d['groups'] + [panics.node_layer]
NOT = {}
