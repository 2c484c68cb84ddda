"""Comparisons agree with each other and with what is compared."""
from collections import defaultdict
from engine import *
import cmpx
from cmpx import say, plain, X

RULE = ('every comparison of two operands of one type is explored as a function of the signs of the parts it looks at: the answer has to be lexicographic over the parts in the order they are looked at when all are alike '
        '(which makes it irreflexive, antisymmetric and transitive), equality has to be exactly the case of all parts alike, operators made of other operators have to say what theirs says, null and absent have to be ordered one way, '
        'all comparisons of one class have to look at the same parts in the same direction, and every part that took part in a comparison of the class has to take part')
EXPLAIN = 'abstract interpretation of each comparison over the signs {-1,0,1} of its keys, decided by enumeration of all sign vectors'
ASSUMES = ['comparisons of the parts are themselves consistent', 'accessors give the same answer when asked twice', 'differences of numbers do not overflow', 'comparisons with loops that do not walk ranges element by element are left undecided']

# what takes part in comparisons on the confirmed tree
PARTS = {
    'BasicByteData': ['_data', '_size'], 'BrokenDownTime': ['Milliseconds', 'Seconds', 'Minutes', 'Hours', 'WeekDay', 'MonthDay', 'Month', 'YearDay', 'Year'],
    'Decimal': ['_mantissa', '_exponent'], 'Detail::HideDuplicatingLogs::KeyType': ['Filename', 'Line'], 'KeyValuePair': ['Key', 'Value'], 'LangCode': ['_code'],
    'LocaleString': ['TextEncoding', 'Text'], 'LoggerMessage': ['_loggerName', '_logLevel', '_time', '_threadName', '_message'], 'ProgressValue': ['Current', 'Total'],
    'Size': ['Width', 'Height'], 'SizeScale': ['WidthScale', 'HeightScale'], 'Time': ['_milliseconds'], 'TimeDuration': ['_microseconds'], 'TimeZone': ['_minutesFromUtc'],
    'TranslatedString': ['_dictionary'], 'TypeInfo': ['_info'], 'UUID': ['_data'], 'Version': ['_major', '_minor', '_build'], 'array': ['_data'], 'basic_string_view': ['_data', '_size'],
    'BasicPosition': ['X', 'Y'], 'BasicRect': ['X1', 'Y1', 'X2', 'Y2'],
}


def fields(k, out):
    if isinstance(k, tuple):
        if len(k) > 2 and k[0] == 'fld' and k[1] == X:
            out.add(k[2])
        for x in k:
            fields(x, out)
    return out


def run(ctx, P):
    n = sure = 0
    seen = set()
    by = defaultdict(list)
    for f, o in cmpx.comparisons(P):
        try:
            g, J = cmpx.analyse(P, f, o)
        except AnalysisBroken:
            ctx.count('undecided comparisons', 1)
            continue
        n += 1
        for key, msg in sorted(set(J.surely)) if J else ():
            ctx.report('%s: %s' % (f.where(), msg), key=(f.sn, key))
        if J is None or not J.sure:
            ctx.count('undecided comparisons', 1)
            if o[0] == ('this',) or f.base in cmpx.REL:
                by[o[3]].append((f, o, None))
            continue
        sure += 1
        ctx.count('paths', J.paths)
        ctx.count('sign vectors', len(J.rows))
        ctx.count('keys', len(J.keys))
        if f.sn not in seen and J.keys != {X}:
            ctx.sample('%s: %s' % (short(f.sn), ', '.join(say(k) for k in (J.order or sorted(J.keys, key=repr)))))
        seen.add(f.sn)
        for key, msg in sorted(set(J.errors)):
            ctx.report('%s: %s' % (f.where(), msg), key=(f.sn, key))
        if o[0] == ('this',) or f.base in cmpx.REL:
            by[o[3]].append((f, o, J))
            if J.orient.get(X, 1) < 0:
                ctx.report('%s: the answer is the opposite of what the comparison it asks says' % f.where(), key=(f.sn, 'turned'))
        else:
            by[f.scls].append((f, o, J)) if J.keys == {X} and 'Reverse' not in (f.scls or '') else None
            if J.orient.get(X, 1) < 0 and 'comparers' in (f.scls or ''):
                ctx.report('%s: the answer is the opposite of what the comparison it asks says' % f.where(), key=(f.sn, 'turned'))
    for cls, l in sorted(by.items(), key=repr):
        own = [(f, o, J) for f, o, J in l if J is not None and J.keys and all(plain(k) and k != X for k in J.keys)]
        first = {}
        for f, o, J in own:
            for k, w in J.orient.items():
                if first.setdefault(k, (w, f))[0] != w:
                    ctx.report('%s: %s is compared in the other direction than in %s' % (f.where(), say(k), first[k][1].where()), key=(f.sn, 'direction'))
        if own:
            ctx.count('classes')
            f0, _, J0 = max(own, key=lambda x: (len(x[2].keys), x[0].id))
            for f, o, J in own:
                gone = J0.keys - J.keys
                if gone and J0.keys > J.keys:
                    ctx.report('%s: does not look at %s, %s does' % (f.where(), ', '.join(sorted(say(k) for k in gone)), f0.where()), key=(f.sn, 'parts'))
        c = strip_targs(cls or '')
        want = PARTS.get(c[len('stingray::'):] if c.startswith('stingray::') else c)
        if want and all(J is not None for _, _, J in l) and l:
            used = set()
            for f, o, J in l:
                for k in J.keys:
                    fields(k, used)
            cur = P.snap.cur_fields(c)
            for w in want:
                x = P.snap.field(c, w)
                if x is None or x not in cur:
                    continue
                ctx.count('parts')
                if used and x not in used:
                    ctx.report('%s: no comparison looks at %s' % (l[0][0].where(), x), key=(c, 'part', w))
    ctx.count('comparisons', n)
    ctx.need('comparisons decided', sure, 60)
