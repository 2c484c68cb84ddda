"""What an object writes it reads back into the same place."""
from engine import *
import serx
from serx import say

RULE = ('for every class that writes itself to and reads itself from a stream: on every path through the writer, the reader has a path that is consistent with what was written (the same alternative, and nothing absent that was written), '
        'and on it every name written is read and every name read without a substitute was written, from and into the same member, as the same built-in type and without a one-sided conversion; '
        'no name is written twice, what is read is stored, and every member that was written on the confirmed tree is still written; '
        'the names the streams themselves use for pointers and alternatives are the same on both sides')
EXPLAIN = 'enumeration of the paths of both functions with a dataflow of names, members and locals; alternatives are matched through the member that was written under the name that decides in the reader'
ASSUMES = ['members are themselves written and read consistently by the stream', 'the encoded form (text of numbers, escapes) is reproduced exactly by the stream']

# what is written on the confirmed tree
PARTS = {
    'BasicPosition': ['X', 'Y'], 'BasicRect': ['X1', 'Y1', 'X2', 'Y2'], 'CollectionOpVariant': ['_data'], 'CollectionOpVariant::Added': ['Value'], 'CollectionOpVariant::Removed': ['Value'],
    'CollectionOpVariant::Modified': ['OldValue', 'NewValue'], 'Detail::any::ObjectHolder': ['Object'], 'LocaleString': ['TextEncoding', 'Text'], 'NumericRange': ['_start', '_end'],
    'Size': ['Width', 'Height'], 'SizeScale': ['WidthScale', 'HeightScale'], 'Time': ['_milliseconds'], 'TimeDuration': ['_microseconds'], 'TimeZone': ['_minutesFromUtc'],
    'TranslatedString': ['_dictionary'], 'any': ['_type', '_data'],
}


def run(ctx, P):
    n = 0
    for c, w, r in serx.pairs(P):
        name = short(c)
        W, R = serx.Walk(P, w), serx.Walk(P, r)
        W.run()
        R.run()
        if W.cut or R.cut or not W.paths or not R.paths or any(o[1] is None for p in W.paths + R.paths for o in p.ops):
            ctx.count('undecided classes', 1)
            continue
        n += 1
        ctx.count('writer paths', len(W.paths))
        ctx.count('reader paths', len(R.paths))
        ctx.count('names', len({o[1] for p in W.paths for o in p.ops}))
        ctx.sample('%s: %s' % (name, ', '.join(sorted({'"%s" from %s' % (o[1], say(o[2])) for p in W.paths for o in p.ops}))[:300]))
        seen = set()
        for p in W.paths:
            # where nothing but what was written decides, every reader path that agrees has to fit
            qs = [(serx.mismatch(p, q), q) for q in R.paths if serx.compatible(p, q)]
            ctx.count('pairs of paths', len(qs))
            if not qs:
                key, msg = 'none', 'nothing reads what is written here'
                if key not in seen:
                    seen.add(key)
                    ctx.report('%s: %s' % (r.where(), msg), key=(name, key))
                continue
            sure = [x for x in qs if not any(k[0] == 'unknown' for k in x[1].facts)]
            bad = [x for x in sure if x[0]]
            if any(k[0] == 'unknown' for k in p.facts) and not all(x[0] for x in qs):
                bad = []
            if not bad and all(x[0] for x in qs):
                bad = [min(qs, key=lambda x: len(x[0]))]
            for m, q in bad:
                for key, msg in m:
                    if (key, msg) not in seen:
                        seen.add((key, msg))
                        ctx.report('%s: %s' % (r.where(), msg), key=(name, key, msg))
        for part in PARTS.get(name, ()):
            ps = [o[2] for p in W.paths for o in p.ops]
            part = P.snap.field(w.scls, part)
            if part is None:
                continue
            ctx.count('members that have to be written', 1)
            if not any(x and part in x for x in ps) and not any(x is None for x in ps):
                ctx.report('%s: %s is not written' % (w.where(), part), key=(name, 'part', part))
        ctx.count('members', len({o[2] for p in W.paths for o in p.ops if o[2]}))
    m = 0
    for k, w, r in serx.streams(P):
        a, b = serx.literals(w), serx.literals(r)
        m += 1
        if a and b and a != b:
            ctx.report('%s: %s is read, %s is written by %s' % (r.where(), ', '.join('"%s"' % x for x in sorted(b - a)) or 'nothing else', ', '.join('"%s"' % x for x in sorted(a - b)) or 'nothing else', w.where()), key=('stream', w.base, tuple(sorted(a ^ b))))
    ctx.count('kinds of values of the streams', m)
    ctx.need('classes that write and read themselves', n, 6)
