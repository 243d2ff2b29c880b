"""MMS headers on the wire"""
from hypothesis import strategies as st
from vlib import forms, scale, snips, wsp, mmsgen as mg
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc, Mms, Violation

RULE = 'a message is non-trivial when it has at least two headers before its content type; every enumerated octet counts'


def decode(w, octets, what):
    m = ok(w.fn('W.from_data', {'hex': octets.hex()}), what)
    need(isinstance(m, Mms), '%s gives %r', what, m)
    return m


def check(w, c):
    m = decode(w, bytes.fromhex(c['hex']), 'decoding %s' % c['hex'])
    mg.check_headers(m, c['want'], c['ct'])
    need(m.parts == [], 'parts %r in a message without a body', m.parts)
    return len(c['want']) > 1


@st.composite
def one_field(draw):
    """one field between two others"""
    n = draw(st.sampled_from(mg.NAMES))
    b, v = mg.field(draw, n)
    a, z = ('Subject', 'To') if n not in ('Subject', 'To') else ('Cc', 'Bcc')
    octets = bytes([0x80 | wsp.MMS_CODE[a]]) + b'x\0' + bytes([0x80 | wsp.MMS_CODE[n]]) + b + bytes([0x80 | wsp.MMS_CODE[z]]) + b'y\0\x84\xa3'
    return {'hex': octets.hex(), 'want': [[a, 'x'], [n, v], [z, 'y']], 'ct': ['application/vnd.wap.multipart.mixed', []]}


def cases(tier):
    for n in mg.ENUMS:
        yield {'name': n}
    for n in mg.BOOLEAN + ('Priority', 'Sender-Visibility', 'Message-Class', 'MMS-Version'):
        yield {'name': n}


def check_enum(w, c):
    n = c['name']
    if n in mg.ENUMS:
        names, fallback = mg.ENUMS[n]
        vals = names + [fallback] * (128 - len(names))
    else:
        vals = {'Priority': ['Low', 'Normal', 'High'], 'Sender-Visibility': ['Hide', 'Show'], 'Message-Class': wsp.CLASSES,
                'MMS-Version': [None] * 16 + ['%d' % (i >> 4) + ('.%d' % (i & 15) if i & 15 != 15 else '') for i in range(16, 128)]
                }.get(n, [True, False])
    vals = [(128 + i, v) for i, v in enumerate(vals) if v is not None]
    outs = w.map('W.from_data', [[{'hex': (bytes([0x8d, 0x92] if n != 'MMS-Version' else [0x96, 0x61, 0]) +
                                           bytes([0x80 | wsp.MMS_CODE[n], o]) + b'\x97to\0\x84\xb3').hex()}] for o, _ in vals])
    for (o, v), m in zip(vals, outs):
        m = ok(m, '%s octet 0x%02x' % (n, o))
        first = ['MMS-Version', '1.2'] if n != 'MMS-Version' else ['Subject', 'a']
        mg.check_headers(m, [first, [n, v], ['To', 'to']], ['application/vnd.wap.multipart.related', []])
    return len(vals)


def size_cases(tier):
    for n in scale.ladder(15, scale.top(tier, 10000, 65537)):
        yield {'len': n}
    for n in scale.ladder(9, scale.top(tier, 1025, 10000)):
        yield {'count': n}


def check_size(w, c):
    """values of that length in every field that has text; that many headers"""
    ct, cto = ['application/vnd.wap.multipart.mixed', []], b'\x84\xa3'
    if 'count' in c:
        want = [['Subject', 's']] + [['X-%d' % i, 'v%d' % i] for i in range(c['count'])] + [['To', 'y']]
        b = b'\x96s\0' + b''.join(wsp.l1(n) + b'\0' + wsp.text(v) for n, v in want[1:-1]) + b'\x97y\0' + cto
        mg.check_headers(decode(w, b, '%d headers' % len(want)), want, ct)
        return 1
    v = scale.fill(c['len'])
    quoted = wsp.text(v, True)
    todo = [(n, wsp.text(v)) for n in mg.STRINGS + ('Content-Location', 'Message-ID', 'Transaction-Id', 'Message-Class', 'MMS-Version', 'X-A')]
    todo += [(n, wsp.value_length(len(b) + 1) + b'\xea' + b) for n in mg.STRINGS for b in (wsp.text(v), quoted)]
    for s in (wsp.text(v), wsp.value_length(len(quoted) + 3) + b'\x02\x03\xe8' + quoted):
        todo.append(('From', wsp.value_length(len(s) + 1) + b'\x80' + s))
    todo.append(('X-' + v, b'v\0'))
    for n, b in todo:
        x, a, z = 'v' if b == b'v\0' else v, 'Cc' if n == 'To' else 'To', 'Bcc' if n == 'Subject' else 'Subject'
        head = bytes([0x80 | wsp.MMS_CODE[n]]) if n in wsp.MMS_CODE else wsp.l1(n) + b'\0'
        b = bytes([0x80 | wsp.MMS_CODE[a]]) + b'x\0' + head + b + bytes([0x80 | wsp.MMS_CODE[z]]) + b'y\0' + cto
        mg.check_headers(decode(w, b, 'decoding %s of %d characters' % (n, len(x))), [[a, 'x'], [n, x], [z, 'y']], ct)
    return len(todo)


CTS = [(b'\x84\xa3', ['application/vnd.wap.multipart.mixed', []]), (b'\x84\xb3', ['application/vnd.wap.multipart.related', []]),
       (b'\x84\x05\xb3\x85nm\0', ['application/vnd.wap.multipart.related', [['Name', 'nm']]]), (b'\x84a/b\0', ['a/b', []])]


def pair_cases(tier):
    n = len(forms.mms_fields())
    for i in range(n):
        for t in (range(8) if tier == 'thorough' else [i % 8]):
            yield {'first': i, 'type': t}


def check_pairs(w, c):
    """a form of a field, followed by every form of every other field, in a message of that type"""
    fs = forms.mms_fields()
    todo = []
    for j in [c['second']] if 'second' in c else range(len(fs)):
        pair = [fs[c['first']], fs[j]]
        if pair[0][0] == pair[1][0]:
            continue
        if c['type'] < 7 and 'Message-Type' not in (pair[0][0], pair[1][0]):
            pair.insert(0, ('Message-Type', bytes([0x8c, 0x80 | c['type']]), wsp.MSG_TYPES[c['type']]))
        o, ct = CTS[(j + c['type']) % 4]
        todo.append((b''.join(b for _, b, _ in pair) + o, [[n, v] for n, _, v in pair], ct))
    for (b, want, ct), m in zip(todo, w.map('W.from_data', [[{'hex': b.hex()}] for b, _, _ in todo])):
        m = ok(m, 'decoding %s' % b.hex())
        need(isinstance(m, Mms), 'decoding %s gives %r', b.hex(), m)
        try:
            mg.check_headers(m, want, ct)
        except Violation as e:
            raise Violation('%s (decoding %s)' % (e, b.hex()))
    return len(todo) or False


def split_pairs(c):
    return [dict(c, second=j) for j in range(len(forms.mms_fields()))]


def check_piece(w, c):
    """that text in every field that has text, in its forms"""
    ct, n = ['application/vnd.wap.multipart.mixed', []], 0
    for v in snips.texts(c):
        quoted = wsp.text(v, True)
        bare = [quoted] if v[0] > '~' or v[0] < ' ' else [wsp.text(v), quoted]
        strings = bare + [wsp.value_length(len(b) + len(x)) + x + b for x in (b'\xea', b'\x83', b'\x02\x03\xe8') for b in bare]
        todo = [(k, b) for k in mg.STRINGS for b in strings] + [('From', wsp.value_length(len(b) + 1) + b'\x80' + b) for b in strings]
        todo += [(k, b) for k in ('Content-Location', 'Message-ID', 'Transaction-Id', 'X-A') for b in bare]
        if wsp.is_token(v):
            todo.append(('Message-Class', wsp.l1(v) + b'\0'))
        msgs = []
        for k, b in todo:
            a, z = 'Cc' if k == 'To' else 'To', 'Bcc' if k == 'Subject' else 'Subject'
            head = bytes([0x80 | wsp.MMS_CODE[k]]) if k in wsp.MMS_CODE else wsp.l1(k) + b'\0'
            msgs.append((bytes([0x80 | wsp.MMS_CODE[a]]) + b'x\0' + head + b + bytes([0x80 | wsp.MMS_CODE[z]]) + b'y\0\x84\xa3', [[a, 'x'], [k, v], [z, 'y']]))
        for (b, want), m in zip(msgs, w.map('W.from_data', [[{'hex': b.hex()}] for b, _ in msgs])):
            m = ok(m, 'decoding %s' % b.hex())
            need(isinstance(m, Mms), 'decoding %s gives %r', b.hex(), m)
            try:
                mg.check_headers(m, want, ct)
            except Violation as e:
                raise Violation('%s (decoding %s)' % (e, b.hex()))
        n += len(todo)
    return n


ASPECTS = [Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split), Enum('pairs', pair_cases, check_pairs, split_pairs), Enum('sizes', size_cases, check_size), Enum('octets', cases, check_enum), Search('fields', one_field(), check, 1200), Search('headers', mg.headers(), check, 1200)]
