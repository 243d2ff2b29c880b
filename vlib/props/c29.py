"""WAP push"""
from hypothesis import strategies as st
from vlib import combos, forms, gen, scale, sms, snips, wsp, mmsgen as mg
from vlib.gen import ints, hexbytes
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc, Mms
from vlib.props.c28 import wire_message, outcome

RULE = ('a push is non-trivial when it has push headers and its message has at least two headers; a reassembled one when it came in '
        'at least two parts; every enumerated pair of first octets counts')


@st.composite
def push(draw, big=True):
    h = draw(mg.headers(most=5))
    body = h['hex']
    if draw(ints(0, 3)) == 0:
        body += mg.body_octets(draw(st.lists(mg.part(ints(0, 30)), max_size=2))).hex()
    n = draw(st.one_of(ints(0, 40), st.sampled_from([0, 1, 126, 127, 128, 129, 255, 256] + ([5000, 16383, 16384, 16385] if big else []))))
    b = draw(st.one_of(st.binary(min_size=1, max_size=30), st.just(b'application/vnd.wap.mms-message\x00\xaf\x84'), st.just(b'\x80'), st.just(b'\0')))
    return {'tid': draw(ints(0, 255)), 'headers': (b * (n // len(b) + 1))[:n].hex(), 'pad': draw(st.sampled_from([0, 0, 0, 1, 3])),
            'body': body, 'want': h['want'], 'ct': h['ct']}


def octets(c):
    h = bytes.fromhex(c['headers'])
    return bytes([c['tid'], 6]) + wsp.uintvar(len(h), c['pad']) + h + bytes.fromhex(c['body'])


def check_result(r, c, direct):
    ok(r, 'extracting')
    is_push, m, is_mms = r
    eq(is_push, True, 'is_a_wap_push_notification')
    need(isinstance(m, Mms), 'extracting gives %r', m)
    mg.check_headers(m, c['want'], c['ct'])
    need(m == direct, 'extracting gives %r, decoding the message %r', m, direct)
    names = {n for n, _ in c['want']}
    eq(is_mms, {'From', 'Content-Location'} <= names, 'is_mms_notification of %r' % m.headers)


def check(w, c):
    r, d = w.script([['fn', None, 'W.push', [{'hex': octets(c).hex()}]], ['fn', None, 'W.from_data', [{'hex': c['body']}]]])
    check_result(r, c, ok(d, 'decoding the message alone'))
    return bool(c['headers']) and len(c['want']) > 1


@st.composite
def notification(draw):
    """From and Content-Location, present or not"""
    names = draw(st.lists(st.sampled_from(['From', 'From', 'Content-Location', 'Content-Location', 'Subject', 'To', 'Message-Size']),
                          max_size=5)) + draw(st.sampled_from([[], ['From', 'Content-Location']]))
    b, want = b'\x8c\x82\x98\x31\x00\x8d\x90', [['Message-Type', 'm-notification-ind'], ['Transaction-Id', '1'], ['MMS-Version', '1.0']]
    for n in dict.fromkeys(names):
        o, v = mg.field(draw, n)
        b += bytes([0x80 | wsp.MMS_CODE[n]]) + o
        want.append([n, v])
    return {'tid': draw(ints(0, 255)), 'headers': draw(hexbytes(0, 40)), 'pad': 0, 'body': (b + b'\x84\xa3').hex(), 'want': want,
            'ct': ['application/vnd.wap.multipart.mixed', []]}


@st.composite
def parts(draw):
    """the pushes, and the SMS they arrive as"""
    wide = draw(st.booleans())
    top = 65535 if wide else 255
    refs = draw(st.lists(ints(0, top), min_size=1, max_size=2, unique=True))
    pushes, arrivals = [], []
    for r in refs:
        c = draw(push(False))
        data = octets(c)
        size = draw(st.one_of(ints(1, 100), ints(100, 128), st.just(128)))
        size = max(size, -(-len(data) // 200))
        cut = [data[i:i + size] for i in range(0, len(data), size)]
        ports = draw(st.booleans())
        for i, d in enumerate(cut):
            n = [len(cut), i + 1]
            ies = [[8, bytes([r >> 8, r & 255] + n).hex()] if wide else [0, bytes([r] + n).hex()]]
            if ports:
                ies.insert(draw(ints(0, 1)), [5, '0b8423f0'])
            arrivals.append([r, ies, d.hex()])
        pushes.append([r, c])
    return {'pushes': pushes, 'arrivals': draw(st.permutations(arrivals))}


def check_parts(w, case):
    pdus = []
    for _, ies, d in case['arrivals']:
        c = {'smsc': ['447785016005', 1, 1], 'first': 4, 'pid': 0, 'alpha': '8', 'dcs': 4, 'scts': [2010, 6, 28, 14, 45, 44, 4],
             'oa': ['88850100000018', 0, 8], 'udh': ies, 'payload': d}
        pdus.append({'s': gen.deliver_octets(c).hex().upper()})
    ops = []
    for r, c in case['pushes']:
        ops += [['fn', None, 'W.reassembled_push', [pdus, r]], ['fn', None, 'W.from_data', [{'hex': c['body']}]]]
    out = w.script(ops)
    for i, (r, c) in enumerate(case['pushes']):
        check_result(out[2 * i], c, ok(out[2 * i + 1], 'decoding the message alone'))
    return len(case['arrivals']) > len(case['pushes'])


def cases(tier):
    for a in range(0, 256, 16):
        yield {'from': a, 'to': a + 16}
    yield {'types': 1}


def size_cases(tier):
    for n in scale.ladder(1, scale.top(tier, 70000, 2100000)):
        yield {'n': n}
    for n in scale.ladder(1, 255):
        yield {'parts': n}


def check_size(w, c):
    """push headers of that many octets; a push in that many parts"""
    h = {'tid': 7, 'pad': 0, 'want': [['Message-Type', 'm-notification-ind'], ['From', '+1'], ['Content-Location', 'http://x']],
         'ct': ['application/vnd.wap.multipart.mixed', []], 'body': (b'\x8c\x82\x89\x04\x80+1\0' + b'\x83http://x\0\x84\xa3').hex()}
    if 'n' in c:
        check(w, dict(h, headers='8c' * c['n']))
        return 1
    n = c['parts']
    h['headers'] = '81' * (n + 10)
    data = octets(h)
    cut = [data[len(data) * i // n:len(data) * (i + 1) // n].hex() for i in range(n)]
    arrivals = [[9, [[0, bytes([9, n, i + 1]).hex()]], d] for i, d in enumerate(cut)]
    check_parts(w, {'pushes': [[9, h]], 'arrivals': arrivals[::-1]})
    return 1


NOT_STR = [None, 1, [1, 6], {'arr': '0106'}, {'u': '\x01\x06'}, {'t': [1, 6]}, {'dict': []}, {'f': '1.0'}, {'obj': 0}, []]


def check_type(w, c):
    f = 'wap.is_a_wap_push_notification'
    if 'types' in c:
        for v in NOT_STR:
            o = w.fn(f, v)
            need(isinstance(o, Exc) and o.isa('TypeError'), '%s(%r): %r instead of TypeError', f, v, o)
        for h in ('', '06', '01', 'ff'):
            eq(w.fn(f, {'hex': h}), False, '%s of %s' % (f, h))
        return len(NOT_STR)
    todo = [bytes([a, b]) + t for a in range(c['from'], c['to']) for b in range(256) for t in (b'', b'\x06\x06')]
    for b, o in zip(todo, w.map(f, [[{'hex': b.hex()}] for b in todo])):
        eq(o, b[1] == 6, '%s of %s' % (f, b.hex()))
    return len(todo)


def split(c):
    return [{'from': a, 'to': a + 1} for a in range(c['from'], c['to'])] if 'from' in c else []


def check_any(w, h):
    b = bytes.fromhex(h)
    eq(w.fn('wap.is_a_wap_push_notification', {'hex': h}), b[1:2] == b'\x06', 'is_a_wap_push_notification of %s' % h)
    return len(b) > 2


anything = st.one_of(st.binary(max_size=20), st.builds(lambda a, b: bytes([a]) + b'\x06' + b, ints(0, 255), st.binary(max_size=20)))

def combination_cases(tier):
    return combos.pushes(tier, forms.mms_fields())


def check_piece(w, c):
    n = 0
    for t in snips.texts(c):
        b = wsp.text(t, not ' ' <= t[0] <= '~')
        a = wsp.value_length(len(b) + 1) + b'\x80' + b
        fields = {'From': a, 'Content-Location': b, 'Subject': b, 'Transaction-Id': b}
        for names in (('From', 'Content-Location'), ('From',), ('Content-Location',), ('Transaction-Id', 'From', 'Subject', 'Content-Location')):
            body = b'\x8c\x82\x8d\x90' + b''.join(bytes([0x80 | wsp.MMS_CODE[k]]) + fields[k] for k in names) + b'\x84\xa3'
            want = [['Message-Type', 'm-notification-ind'], ['MMS-Version', '1.0']] + [[k, t] for k in names]
            check(w, {'tid': n & 255, 'headers': b.hex() if n % 2 else '8c', 'pad': 0, 'body': body.hex(), 'want': want, 'ct': ['application/vnd.wap.multipart.mixed', []]})
            n += 1
    return n


ASPECTS = [Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split), Enum('combinations', combination_cases, check), Enum('type', cases, check_type, split), Enum('sizes', size_cases, check_size), Search('strings', anything.map(bytes.hex), check_any, 200),
           Search('pushes', push(), check, 500), Search('notifications', notification(), check, 400), Search('parts', parts(), check_parts, 300)]
