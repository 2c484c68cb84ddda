"""Bytes on their way: sources, consumers, streams, pipes and buffers hand on every byte once and in order."""
import bytesx
import ringx
import posx

RULE = ('every operation that moves bytes is explored with its counters, positions and sizes as linear forms over the state it starts in and over what its partners answered; loops are summarised by forms that hold for any '
        'number of rounds: each transfer must take the bytes right after those already taken, within what is there; the count returned, the distance every kept position moves and the amount removed from or added to a '
        'buffer must equal the bytes that were really moved; bytes that were read ahead and not handed on must stay; the end of the data is announced only when nothing is left; each ring-buffer operation must lead from '
        'any consistent state to the consistent state that holds exactly the specified number of bytes')
EXPLAIN = 'abstract interpretation with linear forms and entailment by Fourier-Motzkin elimination; loop summaries checked inductively; specification table of the operations that move bytes, and a state invariant for the ring buffers'
ASSUMES = ['a consumer or stream takes at most what it was offered', 'sizes and offsets do not overflow their types', 'callers of the ring buffer push and pop at most what they were shown', 'members used between calls are protected as P01 checks']


def run(ctx, P):
    ctx.need('operations', bytesx.run(ctx, P), 15)
    ctx.need('chunk operations', posx.chunks(ctx, P, ('Read', 'Write')), 1)
    ctx.need('ring operations', ringx.run(ctx, P), 6)
