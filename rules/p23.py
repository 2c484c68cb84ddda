"""Enumerators, their adapters, the aggregate helpers and the factories that wire them."""
import pipe
import pairs
import wire

RULE = ('every enumerator adapter is explored as the product of its constructor and one step of each of its operations from every state it can reach, over a source whose elements, ends and predicate answers are symbols: '
        'what the adapter delivers, in which order, when it ends, how far it moved its source and what it refuses must be what its specification says; every aggregate helper is explored over sources of symbolic '
        'length and its result compared with the specified function of the visited elements; every factory must create the adapter it promises from the arguments it was given, in order, and an enumerable must '
        'obtain a fresh enumerator each time it is asked for one')
EXPLAIN = 'finite abstract interpretation of every enumerator, helper and factory against a specification automaton over symbolic element sequences'
ASSUMES = ['sources follow the enumerator contract: Valid and Get have no side effects, Next moves by one element', 'predicates and transformation functions are pure',
           'the standard containers and iterators behave as specified']


def run(ctx, P):
    pipe.check(ctx, P)
    pairs.check(ctx, P)
    wire.check(ctx, P)
    for k, m in (('operations', 40), ('enumerators', 8), ('ends_judged', 300), ('factories', 8)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)
