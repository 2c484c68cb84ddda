"""Streams stand where they were told to."""
import posx

RULE = ('every Seek and Tell is explored for every way to seek, with offset, position, sizes and the end of the stream below as linear forms: a seek that succeeds leaves exactly the position asked for and only one in range, '
        'a seek that refuses leaves the position there was and refuses only positions out of range, the stream below is left where the position kept says, and telling gives the position kept without changing it; '
        'for the stream made of chunks every number of chunks up to three and every chunk the position may be in are explored with unknown chunk sizes')
EXPLAIN = 'abstract interpretation with linear forms over offset, position and sizes, and entailment by Fourier-Motzkin elimination'
ASSUMES = ['offsets and sizes do not overflow their types', 'chunks are not empty', 'nobody else moves the stream below between two operations']


def run(ctx, P):
    ctx.need('positions', posx.positions(ctx, P), 4)
    ctx.need('chunk operations', posx.chunks(ctx, P, ('Seek', 'Tell')), 1)
