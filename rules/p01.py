from table import GUARDS
from guarded import analyse

RULE = ('for every entry point of a listed class, on every path of its interprocedural flow graph (RAII locks, raw lock/unlock, exceptional edges), each read, write or '
        'call on a guarded field is reached with the guarding mutex of the same object in the lock set')
EXPLAIN = 'must-lockset dataflow over the interprocedural control-flow graph of each public entry point; a frozen table gives state -> lock'
ASSUMES = ['a mutex operation is PosixMutex::Lock/Unlock; other lock implementations are reached through it',
           'constructors and destructors of the guarded object run unshared']


def run(ctx, P):
    for G in GUARDS:
        analyse(P, G, ctx)
    ctx.need('access sites', ctx.stats['access_sites'], 250)
    ctx.need('entry points', ctx.stats['entry_points'], 120)
