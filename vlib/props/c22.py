"""Bodies of MMS messages"""
from hypothesis import strategies as st
from vlib import combos, near, snips, wsp, compose as co, mmsgen as mg
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc, Mms
from vlib.props import c19
from vlib.props.c18 import is_plain

RULE = ('a composed message is non-trivial when it has at least two parts beside the presentation; a body on the wire when it has '
        'at least one part with data; a forwarding one when two or more decoded parts are moved')


def check_encode(w, c):
    fs = co.Files(w.scratch())
    ops = co.message_ops(c, fs) + [['call', None, 'm', 'smil', []], ['call', 'e', 'm', 'encode', []], ['fn', None, 'W.from_data', [{'ref': 'e'}]],
                                   ['fn', None, 'W.msg_parts', [{'ref': 'm'}]], ['call', None, 'm', 'smil', []]]
    out = w.script(ops)
    for op, o in zip(ops, out):
        ok(o, 'operation %r' % (op,))
    smil, octets, back, listed, smil2 = out[-5:]
    eq(smil2, smil, 'presentation after encoding')
    want = [presentation(smil)] + co.parts_model(c)
    judge(octets, want, 'message')
    need(isinstance(back, Mms), 'decoding gives %r', back)
    need(len(back.parts) == len(want), '%d parts are decoded, expected %d', len(back.parts), len(want))
    for i, (g, x) in enumerate(zip(back.parts, want)):
        eq(g.data, x['data'].decode('latin-1'), 'data of decoded part %d' % i)
        eq(g.len, len(x['data']), 'length of decoded part %d' % i)
        eq((g.ctype, g.params), x['ct'], 'content type of decoded part %d' % i)
        eq(g.headers, dict(x['headers'], **{'Content-Type': x['ct']}), 'headers of decoded part %d' % i)
    eq(back.headers['Content-Type'], co.message_ct(c), 'content type of the decoded message')
    # what the message lists before it is encoded are the same parts
    need(len(listed) == len(want) - 1, 'the message lists %d parts, expected %d', len(listed), len(want) - 1)
    for i, (g, x) in enumerate(zip(listed, want[1:])):
        eq(g.data, x['data'].decode('latin-1'), 'data of listed part %d' % i)
        eq(g.len, len(x['data']), 'length of listed part %d' % i)
        eq(g.headers, dict(x['headers'], **{'Content-Type': x['ct']}), 'headers of listed part %d' % i)
    return len(want) > 2


def judge(octets, want, what):
    """the fields, media type and parameters encoded, after examining the encoded parts"""
    try:
        fields, media, par, parts = wsp.read_mms(bytes(octets))
    except wsp.Bad as e:
        need(False, '%s: malformed: %s (%s)', what, e, bytes(octets).hex()[:400])
    need(len(parts) == len(want), '%s: %d parts are encoded, expected %d', what, len(parts), len(want))
    for i, ((m, p, hs, d), x) in enumerate(zip(parts, want)):
        need(d == x['data'], '%s: part %d is encoded with data %s, expected %s', what, i, d.hex()[:300], x['data'].hex()[:300])
        eq(m, x['ct'][0], '%s: media type encoded for part %d' % (what, i))
        need(wsp.tile(p, [wsp.param(*kv) for kv in x['ct'][1].items()]), '%s: parameters %r of part %d are encoded as %s', what, x['ct'][1], i, p.hex())
        eq(sorted(hs), sorted(x['headers'].items()), '%s: headers encoded for part %d' % (what, i))
    return sorted(fields), media, sorted(par)


def presentation(smil):
    return {'data': wsp.l1(smil), 'ct': ('application/smil', {}), 'headers': {'Content-ID': '<0000>'}}


def check_forward(w, c):
    """parts of decoded messages are parts like any others"""
    fs = co.Files(w.scratch())
    ops, models, first = [], [], []
    for i, m in enumerate(c['from']):
        a, b = 'm%d' % i, 'b%d' % i
        ops += co.message_ops(m, fs, a)
        first.append(len(ops))
        ops += [['call', None, a, 'smil', []], ['call', 'e' + a, a, 'encode', []], ['fn', b, 'W.from_data', [{'ref': 'e' + a}]], ['get', b, 'data_parts', b + 'p'],
                ['fn', None, 'W.snapshot', [{'ref': b}]] if c['look'] else ['call', None, b, 'smil', []], ['call', None, b, 'smil', []],
                ['call', None, b, 'encode', []]]
    ops += co.message_ops(c['to'], fs, 'n')
    moved = []
    for i, j in c['take']:
        i %= len(c['from'])
        j %= 1 + len(co.parts_model(c['from'][i]))
        moved.append((i, j))
        q = 't%d' % len(moved)
        ops += [['fn', q, 'W.item', [{'ref': 'b%dp' % i}, j]], ['call', None, 'n', 'add_data_part', [{'ref': q}]]]
    at = len(ops)
    ops += [['call', None, 'n', 'smil', []], ['call', None, 'n', 'encode', []], ['call', None, 'n', 'encode', []]]
    ops += [['fn', None, 'W.snapshot', [{'ref': 'b%d' % i}]] for i in range(len(c['from']))]
    out = w.script(ops)
    for op, o in zip(ops, out):
        ok(o, 'operation %r' % (op,))
    for i, (m, n) in enumerate(zip(c['from'], first)):
        models.append([presentation(out[n])] + co.parts_model(m))
        x = judge(out[n + 1], models[-1], 'message %d' % i)
        y = judge(out[n + 6], [presentation(out[n + 5])] + models[-1], 'message %d, decoded and encoded' % i)
        eq(y, x, 'headers of message %d, decoded and encoded' % i)
        if c['look']:
            eq(out[at + 3 + i], out[n + 4], 'message %d after its parts were put into another' % i)
    want = [presentation(out[at])] + co.parts_model(c['to']) + [models[i][j] for i, j in moved]
    for o in out[at + 1:at + 3]:
        judge(o, want, 'message with the parts of others')
    return len(moved) > 1


forwards = st.fixed_dictionaries({'from': st.lists(co.message(pages=2, parts=2), min_size=1, max_size=2), 'to': co.message(pages=1, parts=1),
                                  'look': st.booleans(),
                                  'take': st.lists(st.tuples(ints(0, 1), ints(0, 5)), min_size=1, max_size=4)})


@st.composite
def wire(draw):
    h = draw(mg.headers(most=3))
    parts = draw(st.lists(mg.part(), max_size=5))
    for p in parts:
        p['pad'] = draw(st.sampled_from([0, 0, 0, 1, 3]))
    return {'head': h, 'parts': parts, 'pad': draw(st.sampled_from([0, 0, 1]))}


def check_wire(w, c):
    octets = bytes.fromhex(c['head']['hex']) + mg.body_octets(c['parts'], c['pad'])
    m = ok(w.fn('W.from_data', {'hex': octets.hex()}), 'decoding %s' % octets.hex()[:300])
    need(isinstance(m, Mms), 'decoding gives %r', m)
    mg.check_headers(m, c['head']['want'], c['head']['ct'])
    mg.check_parts(m.parts, c['parts'])
    return any(p['data'] for p in c['parts'])


def cases(tier):
    for n in [0, 1, 2, 126, 127, 128, 129, 200] + ([300] if tier == 'thorough' else []):
        yield {'parts': n, 'size': 1}
    for n in [0, 1, 126, 127, 128, 129, 255, 256, 257, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 131072] + ([2097151, 2097152] if tier == 'thorough' else []):
        yield {'parts': 1, 'size': n}
    for n in [255, 256, 257, 16383, 16384, 32768, 65535, 65536, 65537, 131072, 200000] + ([2097152] if tier == 'thorough' else []):
        for k in ('file', 'text', 'image', 'slide text'):
            yield {'size': n, 'from': k}
    yield {'bytes': 1}
    # the headers of a part, and the content type, of that many octets
    for n in [126, 127, 128, 129, 16382, 16383, 16384, 16385, 40000]:
        yield {'header': n}
        yield {'ct': n}
    for n in [42, 43, 63, 64, 127, 128, 129]:
        yield {'slides': n}


def check_sizes(w, c):
    wp = None
    pages = []
    if 'header' in c or 'ct' in c:
        n = c.get('header', c.get('ct'))
        if 'ct' in c:
            media, hs = 'a' * (n - 2) + '/', []
            b = wsp.media(media)
        else:
            media, hs = 'image/gif', [['X-A', 'v' * (n - 6)]]
            b = b'\x9dX-A\0' + wsp.l1(hs[0][1]) + b'\0'
        parts = [{'hex': '00ff', 'as': 'hex', 'from': 'data', 'ct': media, 'params': [], 'extra': hs},
                 {'hex': '01', 'as': 'hex', 'from': 'data', 'ct': 'image/gif', 'params': [], 'extra': []}]
        wp = [{'hex': b.hex(), 'data': '00ff', 'want': hs, 'ct': [media, []]}, {'hex': '9d', 'data': '01', 'want': [], 'ct': ['image/gif', []]}]
    elif 'slides' in c:
        f = {'name': 'x.gif', 'hex': '4749'}
        pages = [{'dur': i + 1, 'image': [f, 0, 0], 'audio': None if i % 3 else [dict(f, name='y.mp3'), 0, 0], 'text': ['slide %d' % i, 0, 0]}
                 for i in range(c['slides'])]
        parts = []
    elif 'from' in c:
        parts = []
        f = {'name': 'a.gif', 'hex': bytes(i % 251 for i in range(c['size'])).hex()}
        t = ('abcdefg' * (c['size'] // 7 + 1))[:c['size']]
        if c['from'] == 'file':
            parts = [{'from': 'file', 'file': f, 'extra': []}]
        elif c['from'] == 'text':
            parts = [{'from': 'text', 'text': t, 'extra': []}]
        else:
            pages = [{'dur': None, 'image': None, 'audio': None, 'text': None}]
            pages[0].update({'image': [f, 0, 0]} if c['from'] == 'image' else {'text': [t, 0, 0]})
        check_encode(w, {'w': None, 'h': None, 'headers': [], 'ct': None, 'pages': pages, 'parts': parts})
        return 1
    elif 'bytes' in c:
        spec = {'hex': bytes(range(256)).hex(), 'as': 'hex', 'from': 'data', 'ct': 'image/gif', 'params': [], 'extra': []}
        parts = [spec]
    else:
        parts = [{'hex': bytes((i + j) & 255 for j in range(c['size'])).hex(), 'as': 'hex', 'from': 'data', 'ct': 'image/gif', 'params': [],
                  'extra': []} for i in range(c['parts'])]
    check_encode(w, {'w': None, 'h': None, 'headers': [], 'ct': None, 'pages': pages, 'parts': parts})
    wp = wp or [{'hex': '9d', 'data': p['hex'], 'want': [], 'ct': ['image/gif', []]} for p in parts]
    check_wire(w, {'head': {'hex': '8c8484a3', 'want': [['Message-Type', 'm-retrieve-conf']],
                            'ct': ['application/vnd.wap.multipart.mixed', []]}, 'parts': wp, 'pad': 0})
    return max(len(parts), 1)


TYPES = ['text/plain', 'application/smil', 'text/vnd.wap.wml', 'image/gif', 'application/vnd.wap.multipart.alternative', 'application/vnd.wap.multipart.mixed', 'text/x-vCard',
         'application/octet-stream', 'text/html', 'a/b']
PART_HEADERS = ['Content-ID', 'Content-Location', 'Content-Disposition', 'X-A', 'Content-Base', 'Content-Encoding']


def check_piece(w, c):
    """that text as data of parts of several types, of slides and files, in part headers and in parameters"""
    ts = snips.texts(c)
    new = lambda i, t, **k: dict({'from': 'data', 'hex': t.encode('latin-1').hex(), 'as': ('hex', 'arr')[i % 2], 'ct': TYPES[i % len(TYPES)], 'params': [], 'extra': []}, **k)
    parts = [new(i + j, t) for i, t in enumerate(ts) for j in (0, 3)] + [{'from': 'text', 'text': t, 'extra': []} for t in ts if is_plain(t)]
    known = [h for h in PART_HEADERS if h in mg.TEXT_HEADERS or h not in wsp.HEADERS]
    parts += [new(i, t, extra=[[known[i % len(known)], t], [known[(i + 1) % len(known)], t + 'z']]) for i, t in enumerate(ts) if is_plain(t)]
    for t in ts:
        k = {'media': 'text/plain', 'params': [['Name', t], ['Filename', t], ['x', t]], 'tail': ''}
        if c19.fine(k):
            parts.append(new(0, t, params=k['params']))
    pages = []
    if all(' ' <= x for x in c['piece']) and co.is_xml(c['piece']):
        pages = [{'dur': None, 'image': None, 'audio': None, 'text': [t, 0, 0]} for t in ts]
    names = [t + '.gif' for t in ts if is_plain(t + '.gif') and co.fine_file({'name': t + '.gif', 'hex': ''})]
    parts += [{'from': 'file', 'file': {'name': n, 'hex': ts[0].encode('latin-1').hex()}, 'extra': []} for n in names]
    check_encode(w, {'w': None, 'h': None, 'headers': [], 'ct': None, 'pages': pages, 'parts': parts})
    body = []
    for i, t in enumerate(ts):
        for q in (False, True):
            if q or ' ' <= t[0] <= '~':
                hs = wsp.l1('X-A') + b'\0' + wsp.text(t, q) + bytes([0x80 | wsp.HEADER_CODE['Content-Location']]) + wsp.text(t, q)
                body.append({'hex': (wsp.media(TYPES[i % len(TYPES)]) + hs).hex(), 'data': t.encode('latin-1').hex(), 'want': [['X-A', t], ['Content-Location', t]],
                             'ct': [TYPES[i % len(TYPES)], []]})
    check_wire(w, {'head': {'hex': '8c8484a3', 'want': [['Message-Type', 'm-retrieve-conf']], 'ct': ['application/vnd.wap.multipart.mixed', []]}, 'parts': body, 'pad': 0})
    return len(parts) + len(pages) + len(body)


ASPECTS = [Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split), Enum('combinations', combos.messages, check_encode), Enum('sizes', cases, check_sizes), Search('composed', co.message(), check_encode, 500),
           Search('neighbours', near.pairs(co.message(), co.GROUPS, co.fine, co.FROZEN), near.check(check_encode), 200),
           Search('forwarded', forwards, check_forward, 160), Search('wire', wire(), check_wire, 900)]
