"""Values in raw storage: optional, variant, any, inplace_vector."""
import slots

RULE = ('every operation of optional, variant, any and inplace_vector is explored from every standing of every such object it is given (empty, holding each type, each number of values up to and beyond the room in place), also '
        'with an object as its own argument and with its own value as argument, and with a failure at every call that can fail: a value is constructed only where there is none and used and destroyed only where there is one, as the '
        'type it has; however the operation ends, the fields that record what is held agree with what is there, no object is leaked or owned twice, objects given as constant are as they were, and a successful copy, move, '
        'exchange, clearing or comparison has the specified result')
EXPLAIN = 'finite abstract interpretation of every operation over what each raw storage holds, with failures at every call'
ASSUMES = ['destructors do not fail', 'the text of an error message can always be made', 'a capacity of two values in place stands for every capacity']


def run(ctx, P):
    slots.check(ctx, P)
    for k, m in (('operations', 60), ('ends_judged', 300)):
        ctx.need(k.replace('_', ' '), ctx.stats.get(k, 0), m)
