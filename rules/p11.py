"""Owning pointers, their counts, and the atomic integers the counts are made of."""
import own
import atom

RULE = ('every operation of the shared, weak, intrusive, counting and unique pointers is explored from every standing its pointers can be in (empty, sharing, only owner, same object twice), keeping a ledger of the '
        'references the operation has to answer for: in the end every reference in the ledger belongs to a pointer that still exists and every pointer to a reference in the ledger, an object is disposed of exactly when '
        'its last strong reference goes and its block is freed exactly when the last reference of any kind goes, nothing is touched after that, and the answer given is the right one; counts are changed by atomic '
        'primitives only, and each atomic operation is one indivisible step of the specified amount that returns the specified value')
EXPLAIN = 'finite abstract interpretation of every pointer operation over a ledger of references, with counts known only as far as the ledger bounds them because other threads may own the object too'
ASSUMES = ['the pointers an operation is given are valid when it starts', 'the compiler builtins for atomic access do what their documentation says', 'a raw pointer handed to a constructor has no other owner']


def run(ctx, P):
    own.check(ctx, P)
    own.data(ctx, P)
    atom.check(ctx, P)
    for k, m in (('operations', 40), ('atomic_operations', 4), ('ends_judged', 200)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)
