"""Parts of a split message"""
from hypothesis import strategies as st
from vlib import combos, submit, gsm
from vlib.gen import ints, FMT, history as many
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = 'a case is non-trivial when the message has two or more parts'


def check_parts(w, a):
    pdus = submit.encode(w, a)
    n = len(pdus)
    if submit.want_parts(a) == 1 and n == 1:
        return False
    refs = set()
    mrs = set()
    for i, p in enumerate(pdus):
        r = submit.parse(p, 'part %d' % (i + 1))
        eq((p.cnt, p.seq), (n, i + 1), 'numbering attributes of part %d' % (i + 1))
        ref, total, seq = submit.concat_of(r['udh'])
        eq((total, seq), (n, i + 1), 'numbering in the header of part %d' % (i + 1))
        refs.add(ref)
        mrs.add(r['mr'])
        submit.check_fields(a, r, True, 'part %d' % (i + 1))
    eq(len(refs), 1, 'number of different concatenation references')
    eq(len(mrs), 1, 'number of different message references')
    if a['rand_id'] is not None:
        eq(refs.pop(), a['rand_id'] % 256, 'concatenation reference')
    return True


def text(alpha, parts):
    if alpha == '7':
        return 'a' * (153 * parts)
    return ('b' if alpha == '8' else 'я') * ((134 if alpha == '8' else 67) * parts)


def check_history(w, c):
    """references of consecutive encodings by one object differ"""
    script = [['new', 'm', 'SmsSubmit', [{'s': '12345'}, {'u': 'x'}]]]
    at = []
    for k, arg in c:
        if k == 'ref':
            script.append(['set', 'm', 'ref', arg])
        elif k == 'rand':
            script.append(['set', 'm', 'rand_id', arg])
        else:
            al, n = arg
            script += [['set', 'm', 'fmt', FMT[al]],
                       ['set', 'm', 'text', {'s' if al == '8' else 'u': text(al, n)}]]
            for _ in range(k):
                at.append(len(script))
                script.append(['call', None, 'm', 'to_pdu', []])
    out = w.script(script)
    rand = {i: v for i, v in enumerate(script) if v[0] == 'set' and v[2] == 'rand_id'}
    prev, n, fixed = None, 0, None
    for i, o in enumerate(out):
        if i in rand:
            fixed = rand[i][3]
            prev = None
        if i not in at:
            ok(o, 'operation %r' % (script[i],))
            continue
        refs = {submit.concat_of(submit.parse(p, 'part')['udh'])[0] for p in ok(o, 'encoding')}
        eq(len(refs), 1, 'references of one encoding')
        r = refs.pop()
        if fixed is not None:
            eq(r, fixed % 256, 'the reference the caller fixed')
        else:
            need(r != prev, 'encodings %d and %d use the same reference %r', n, n + 1, r)
            prev = r
        n += 1
    return n >= 2


history = many(
    st.tuples(st.just('ref'), st.one_of(st.none(), ints(0, 300))),
    st.tuples(st.just('rand'), st.one_of(st.none(), st.none(), ints(0, 300))),
    st.tuples(ints(1, 5), st.tuples(st.sampled_from('78u'), ints(2, 3))),
    st.tuples(ints(1, 5), st.tuples(st.sampled_from('78u'), ints(2, 3))), lo=2, hi=14)


def wrap_cases(tier):
    yield [[600, ['u', 2]]]
    yield [['ref', 7], [300, ['7', 2]]]
    yield [[254, ['8', 2]], ['ref', None], [10, ['8', 2]]]
    yield [[253, ['8', 2]], ['ref', None], [10, ['8', 2]], ['rand', 3], [3, ['8', 2]], ['rand', None], [300, ['8', 2]]]


def check_wrap(w, c):
    check_history(w, c)
    return sum(k for k, _ in c if isinstance(k, int))


def limit_cases(tier):
    for al in '78u':
        for n, extra in ((255, 0), (255, -1), (255, 1), (256, 0), (257, 0), (300, 5), (511, 1), (512, 0), (513, 0)):
            yield {'alpha': al, 'parts': n, 'extra': extra, 'auto': al != '8' and n == 255}


def check_limit(w, c):
    t = text(c['alpha'], c['parts'])
    t = t[:c['extra']] if c['extra'] < 0 else t + t[:c['extra']]
    fmt = None if c['auto'] else FMT[c['alpha']]
    out = w.script([['new', 'm', 'SmsSubmit', [{'s': '12345'}, {'s' if c['alpha'] == '8' else 'u': t}]],
                    ['set', 'm', 'fmt', fmt], ['call', None, 'm', 'to_pdu', []]])[-1]
    n = submit.want_parts({'text': t, 'fmt': fmt})
    if n > 255:
        need(isinstance(out, Exc) and out.isa('ValueError'), '%d parts: %r instead of ValueError', n,
             out if isinstance(out, Exc) else '%d PDUs' % len(out))
        return 1
    eq(len(ok(out, 'encoding')), n, 'number of parts')
    got = []
    for i, p in enumerate(out):
        r = submit.parse(p, 'part')
        eq(submit.concat_of(r['udh'])[1:], (n, i + 1), 'numbering')
        got.append(r['text'])
    eq(''.join(got), t, 'text')
    return 1


def combination_cases(tier):
    return combos.submits(tier, combos.MULTI)


ASPECTS = [
    Enum('values', submit.value_cases({'7': 'Ab@ 1{' * 30, '8': 'a\xfe\0' * 50, 'u': 'a\u0416\u20ac' * 30}), lambda w, a: check_parts(w, a) or 1),
    Enum('combinations', combination_cases, check_parts),
    Search('parts', submit.attrs(long=True), check_parts, 900),
    Search('reference_history', history, check_history, 200),
    Enum('reference_wrap', wrap_cases, check_wrap),
    Enum('part_limit', limit_cases, check_limit),
]
