"""Submission, delivery and reassembly of long messages"""
from hypothesis import strategies as st
from vlib import gen, sms, submit, gsm
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.scale import ladder, top
from vlib.sut import eq, need, ok

RULE = 'a case is non-trivial when two or more messages have parts that arrive interleaved or out of order'


@st.composite
def messages(draw):
    out = []
    n = draw(ints(1, 4))
    for i in range(n):
        a = draw(submit.attrs(long=True, fixed=True))
        a['rand_id'] = (a['rand_id'] + i * 64) % 256
        m = {'a': a, 'oa': draw(gen.addr(3, 15)), 'pid': draw(ints(0, 255)), 'smsc': draw(st.one_of(st.none(), gen.addr(3, 12))),
             'scts': draw(gen.datetime_fields()) + [draw(gen.quarters)], 'first': draw(st.sampled_from([0, 4, 0x24]))}
        if out and draw(ints(0, 2)) == 0:
            m['oa'] = out[0]['oa']
        out.append(m)
    # grouping needs sender and reference to tell messages apart
    seen = set()
    for m in out:
        k = (gen.plus(m['oa']), m['a']['rand_id'])
        while k in seen:
            m['a']['rand_id'] = (m['a']['rand_id'] + 1) % 256
            k = (gen.plus(m['oa']), m['a']['rand_id'])
        seen.add(k)
    return {'messages': out, 'order': draw(ints(0, 2**32))}


def check(w, c):
    import random
    wire, whole = [], {}
    for i, m in enumerate(c['messages']):
        a = m['a']
        pdus = submit.encode(w, a)
        for p in pdus:
            r = submit.parse(p, 'part')
            first = m['first'] | (r['first'] & 0x40)
            oa = sms.address(*m['oa'])
            s = sms.smsc(*m['smsc']) if m['smsc'] else sms.smsc(None, 0)
            wire.append((i, len(pdus), sms.deliver(s, first, oa, m['pid'], r['dcs'], sms.stamp(*m['scts']), r['udl'], r['ud'])))
    order = list(range(len(wire)))
    random.Random(c['order']).shuffle(order)
    out = w.map('W.deliver', [[{'s': wire[k][2].hex()}] for k in order])
    groups = {}
    for k, a in zip(order, out):
        i, n, h = wire[k]
        ok(a, 'decoding a part')
        m = c['messages'][i]
        eq(a['number'], gen.plus(m['oa']), 'sender')
        eq(a['csca'], gen.plus(m['smsc']) if m['smsc'] else None, 'service centre')
        eq(a['pid'], m['pid'], 'protocol identifier')
        eq(a['fmt'], gen.FMT[submit.alpha_of(m['a'])], 'format')
        need(tuple(a['date']) in gen.utc_of(m['scts']), 'date %r', a['date'])
        con = a['udh'].concat if a['udh'] is not None else None
        if n == 1:
            eq(con, None, 'concatenation of a message of one part')
            eq(a['text'], submit.text_of(m['a']), 'text')
            whole[i] = True
            continue
        need(con is not None, 'a part of %d has no concatenation reference', n)
        g = groups.setdefault((a['number'], con[1]), {'cnt': set(), 'parts': {}})
        g['cnt'].add(con[2])
        need(con[3] not in g['parts'], 'two parts numbered %r in one group', con[3])
        g['parts'][con[3]] = a['text']
    for i, m in enumerate(c['messages']):
        if i in whole:
            continue
        k = (gen.plus(m['oa']), m['a']['rand_id'])
        need(k in groups, 'no parts found for sender and reference %r', k)
        g = groups[k]
        eq(g['cnt'], {len(g['parts'])}, 'announced number of parts')
        eq(sorted(g['parts']), list(range(1, len(g['parts']) + 1)), 'part numbers')
        eq(''.join(g['parts'][s] for s in sorted(g['parts'])), submit.text_of(m['a']), 'reassembled text')
    return len(groups) > 1 or any(len(g['parts']) > 2 for g in groups.values())


def plain(i, alpha, parts, sender, ref, extra=0):
    cap = {'7': 153, '8': 134, 'u': 67}[alpha]
    word = {'7': 'm%dx ', '8': 'm%d\xe9\xff', 'u': 'm%d\u0436\u20ac'}[alpha]
    n = cap * parts - extra
    t = ''.join(word % (i * 1000 + k) for k in range(n // len(word % 0) + 1))[:n]
    a = {'number': '12345', 'csca': None, 'klass': None, 'validity': None, 'srr': False, 'ref': ref, 'rand_id': ref,
         'pid': 0, 'fmt': gen.FMT[alpha], 'text': t, 'native': False}
    return {'a': a, 'oa': [sender, 1, 1], 'pid': 0, 'smsc': None, 'scts': [2010, 3, 4, 5, 6, 7, 8], 'first': 4}


def size_cases(tier):
    for al in '78u':
        for n in ladder(2, 255):
            for extra in (0, 1):
                yield {'many': [[al, n, '34600', n, extra]], 'order': n + extra}
    for n in ladder(2, top(tier, 128, 256)):
        # one sender and as many references; one reference and as many senders
        yield {'many': [['78u'[i % 3], 2 + i % 2, '34600', i, 0] for i in range(n)], 'order': n}
        yield {'many': [['78u'[i % 3], 2, '34%d' % (600 + i), 7, 0] for i in range(n)], 'order': n}


def check_size(w, c):
    return check(w, {'messages': [plain(i, *m) for i, m in enumerate(c['many'])], 'order': c['order']}) or 1


ASPECTS = [Enum('sizes', size_cases, check_size),
           Search('reassembly', messages(), check, 700)]
