"""WSP header entries, dates, quality factors"""
from hypothesis import strategies as st
from vlib import forms, near, scale, snips, wsp, mmsgen as mg
from vlib.gen import ints, is_hex
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc
from vlib.props import c19
from vlib.props.c18 import plain, tokens, is_plain

RULE = ('a header is non-trivial when its value is not a plain letter-and-digit text; a date when it is after 1970-01-01; every enumerated '
        'header name and quality factor counts')
E = 'wsp_pdu.Encoder.'
NAMES = wsp.HEADERS[:0x38]
TEXTS = [n for n in NAMES if n not in ('Accept', 'Pragma')]
APP = st.one_of(tokens, st.sampled_from(['X-Foo', 'x', 'accept', 'Pragm', 'Accept-', 'Expect', 'Cookie', 'TE'])).filter(lambda n: n not in NAMES)
tails = st.one_of(st.binary(max_size=3), st.sampled_from([b'\x80', b'\x00', b'\x81\xea', b'\x7f'])).map(bytes.hex)


def names(tier):
    for n in NAMES:
        yield {'name': n}


def check_name(w, c):
    n = c['name']
    code = bytes([0x80 | NAMES.index(n)])
    if n == 'Pragma':
        wsp.many(w, [('decode_header', code + b'\x80', (n, ('Cache-control', 'No-cache')), t) for t in (b'', b'\x80', b'a\0b\0')])
        return 3
    values = ['a', 'text/x-a b', '*/*' if n == 'Accept' else ' x']
    for v in values:
        b = code + (wsp.media(v) if n == 'Accept' else wsp.text(v))
        eq(w.fn(E + 'encode_header', {'s': n}, {'s': v}), list(b), 'encode_header(%r, %r)' % (n, v))
        wsp.many(w, [('decode_header', b, (n, v), t) for t in (b'', b'\x80', b'a\0b\0')])
    return 6


@st.composite
def encodable(draw):
    k = draw(ints(0, 3))
    if k == 0:
        n, v = 'Accept', draw(c19.medias)
        b = bytes([0x80]) + wsp.media(v)
    elif k == 1:
        n, v = draw(APP), draw(plain)
        b = wsp.l1(n) + b'\0' + wsp.text(v)
    else:
        n, v = draw(st.sampled_from(TEXTS)), draw(plain)
        b = bytes([0x80 | NAMES.index(n)]) + wsp.text(v)
    return {'name': n, 'value': v, 'hex': b.hex(), 'tail': draw(tails)}


def check_encode(w, c):
    n, v, b = c['name'], c['value'], bytes.fromhex(c['hex'])
    eq(w.fn(E + 'encode_header', {'s': n}, {'s': v}), list(b), 'encode_header(%r, %r)' % (n, v))
    if n == 'Accept':
        eq(w.fn(E + 'encode_accept_value', {'s': v}), list(b[1:]), 'encode_accept_value(%r)' % v)
    wsp.decoded(w, 'decode_header', b, (n, v), bytes.fromhex(c['tail']))
    return not v.isalnum()


def remake(c):
    """the octets of an altered header"""
    n, v = c['name'], c['value']
    try:
        b = bytes([0x80]) + wsp.media(v) if n == 'Accept' else (bytes([0x80 | NAMES.index(n)]) if n in NAMES else wsp.l1(n) + b'\0') + wsp.text(v)
    except (ValueError, UnicodeError):
        b = b''
    return dict(c, hex=b.hex())


def fine(c):
    n, v = c['name'], c['value']
    if not c['hex'] or n == 'Pragma' or not is_hex(c['tail']):
        return False
    if n == 'Accept':
        return c19.fine({'media': v, 'params': [], 'tail': ''})
    return (n in NAMES or wsp.is_token(n) and n.lower() not in [x.lower() for x in NAMES]) and is_plain(v)


@st.composite
def wire(draw):
    k = draw(ints(0, 4))
    if k == 0:
        b, v = mg.accept(draw)
        n = 'Accept'
    elif k == 1:
        n = 'Pragma'
        if draw(ints(0, 4)) == 0:
            b, v = b'\x80', ['Cache-control', 'No-cache']
        else:
            (name, (val, octets)), = c19.wire_params(draw, [1]).items()
            b, v = mg.length_form(draw, octets), [name, val]
    else:
        n = draw(st.sampled_from(TEXTS) if k == 2 else tokens)
        v = draw(mg.WIRE_TEXT)
        b = mg.text_form(draw, v)
    octets = (bytes([0x80 | NAMES.index(n)]) if k < 3 else wsp.l1(n) + b'\0') + b
    return {'hex': octets.hex(), 'value': [n, v], 'at': len(octets) - len(b), 'tail': draw(tails)}


def check_wire(w, c):
    b, (n, v), tail = bytes.fromhex(c['hex']), c['value'], bytes.fromhex(c['tail'])
    v = tuple(v) if isinstance(v, list) else v
    cases = [('decode_header', b, (n, v), tail),
             ('decode_well_known_header' if b[0] >= 128 else 'decode_application_header', b, (n, v), tail)]
    if n in ('Accept', 'Pragma') and b[0] >= 128:
        cases.append(('decode_%s_value' % n.lower(), b[c['at']:], v, tail))
    wsp.many(w, cases)
    return not (isinstance(v, str) and v.isalnum())


@st.composite
def sequences(draw):
    """headers one after the other, read from one iterator"""
    return draw(st.lists(wire(), min_size=2, max_size=8))


def check_sequence(w, hs):
    octets = b''.join(bytes.fromhex(h['hex']) for h in hs)
    ops = [['new', 'it', 'W.iter', [{'hex': octets.hex()}]]] + [['fn', None, 'wsp_pdu.Decoder.decode_header', [{'ref': 'it'}]]] * len(hs) + \
        [['call', None, 'it', 'next', []]]
    out = w.script(ops)[1:]
    for h, o in zip(hs, out):
        n, v = h['value']
        eq(o, (n, tuple(v) if isinstance(v, list) else v), 'header %s of %s' % (n, octets.hex()))
    need(isinstance(out[-1], Exc) and out[-1].isa('StopIteration'), 'octets left after the headers of %s', octets.hex())
    return True


def q_cases(tier):
    for i in range(1, 1100, 25):
        yield {'from': i, 'to': min(i + 25, 1100)}


def check_q(w, c):
    todo = []
    for n in range(c['from'], c['to']):
        for t in (b'', b'\x85'):
            todo.append(('decode_q_value', wsp.uintvar(n), c19.q_factor(n), t))
        todo.append(('decode_parameter', b'\x80' + wsp.uintvar(n), ('Q', c19.q_factor(n)), b'\x81'))
        body = b'\x83\x80' + wsp.uintvar(n)
        todo.append(('decode_content_type_value', bytes([len(body)]) + body, ('text/plain', {'Q': c19.q_factor(n)}), b'\x01'))
        todo.append(('decode_accept_value', bytes([len(body)]) + body, 'text/plain', b'\x01'))
    wsp.many(w, todo)
    return len(todo)


dates = st.one_of(mg.seconds, st.sampled_from([0, 68169599, 68169600, 951868799, 1709164800, 2**31 - 1]),
                  st.builds(lambda d, s: d * 86400 + s, ints(0, 24854), st.sampled_from([0, 1, 43200, 86399])))


@st.composite
def date_wire(draw):
    n = draw(dates)
    return {'n': n, 'hex': mg.long_form(draw, n).hex(), 'tail': draw(tails)}


def check_date(w, c):
    n = c['n']
    wsp.decoded(w, 'decode_date_value', bytes.fromhex(c['hex']), mg.value(mg.when(n)), bytes.fromhex(c['tail']))
    return n > 86400


def size_cases(tier):
    for n in scale.ladder(15, scale.top(tier, 10000, 65537)):
        yield {'len': n}
    for n in scale.ladder(9, scale.top(tier, 1025, 10000)):
        yield {'count': n}


def check_size(w, c):
    """names and values of that length; that many headers in a row"""
    if 'count' in c:
        hs = [[(b'\x8f', 'Content-MD5'), (b'X-%d\0' % i, 'X-%d' % i), (b'\x8a', 'Content-Base')][i % 3] + ('v%d' % i,) for i in range(c['count'])]
        hs = [{'hex': (b + wsp.text(v)).hex(), 'value': [n, v]} for b, n, v in hs]
        check_sequence(w, hs)
        return 1
    n = c['len']
    v = scale.fill(n)
    name = 'X-' + v[2:]
    todo = [(b'\x8a' + wsp.text(v), 'Content-Base', v), (b'\x80' + wsp.media(v), 'Accept', v), (wsp.l1(name) + b'\0' + wsp.text('v'), name, 'v'),
            (wsp.l1(name) + b'\0' + wsp.text('\xe9' + v), name, '\xe9' + v)]
    for b, k, x in todo:
        eq(w.fn(E + 'encode_header', {'s': k}, {'s': x}), list(b), 'encode_header, %d octets' % len(b))
    body = wsp.media(v) + b'\x81\x83'
    long_param = [wsp.value_length(n + 3) + b'p\0' + wsp.l1(v) + b'\0', wsp.value_length(n + 3) + wsp.l1(v) + b'\0p\0']
    todo += [(b'\x80' + wsp.value_length(len(body)) + body, 'Accept', v), (b'\x9f' + long_param[0], 'Pragma', ('p', v)),
             (b'\x9f' + long_param[1], 'Pragma', (v, 'p'))]
    wsp.many(w, [('decode_header', b, (k, x), t) for b, k, x in todo for t in (b'', b'\x80a\0')])
    return len(todo)


bad_names = st.one_of(st.just(''), st.builds(lambda a, s, b: a + s + b, st.text(st.sampled_from('abc'), max_size=4),
                                             st.sampled_from('()<>@,;:\\"/[]?={} \t\r\n\x7f\x80\xe9\xff'), st.text(st.sampled_from('abc'), max_size=4)))


def check_bad_name(w, n):
    o = w.fn(E + 'encode_header', {'s': n}, {'s': 'x'})
    need(isinstance(o, Exc) and o.isa('EncodeError'), 'encode_header(%r, ...): %r instead of EncodeError', n, o)
    return True


def pair_cases(tier):
    for i in range(len(forms.wsp_headers())):
        yield {'first': i}


def check_pairs(w, c):
    """a header before and after every other header, all of them read from one iterator"""
    hs = [{'hex': b.hex(), 'value': [n, v]} for n, b, v in forms.wsp_headers()]
    a = hs[c['first']]
    todo = [hs[c['second']]] if 'second' in c else hs
    check_sequence(w, [x for h in todo for x in (a, h)] + [a])
    return 2 * len(todo)


def split_pairs(c):
    return [dict(c, second=j) for j in range(len(forms.wsp_headers()))]


def check_piece(w, c):
    n = 0
    for t in snips.texts(c):
        wanted = [(k, t) for k in TEXTS[::9] + ['X-Foo', 'Content-Location']] + [('Accept', t), ('Accept', 'a/' + t), ('X-' + t, 'v')]
        for k, v in wanted:
            h = remake({'name': k, 'value': v, 'tail': '8a'})
            if fine(h):
                check_encode(w, h)
                n += 1
        hs = []
        for k in TEXTS[::13] + ['X-Foo']:
            b = (bytes([0x80 | NAMES.index(k)]) if k in NAMES else wsp.l1(k) + b'\0')
            hs += [{'hex': (b + wsp.text(t, q)).hex(), 'value': [k, t]} for q in (False, True) if q or ' ' <= t[0] <= '~']
        check_sequence(w, hs)
        n += len(hs)
    return n


ASPECTS = [Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split), Enum('pairs', pair_cases, check_pairs, split_pairs), 
    Enum('names', names, check_name), Enum('sizes', size_cases, check_size), Enum('quality', q_cases, check_q), Search('dates', date_wire(), check_date, 500),
    Search('encode', encodable(), check_encode, 800),
    Search('neighbours', near.pairs(encodable(), [('name',), ('value',), ('tail',)], fine, ('hex',), remake), near.check(check_encode), 500),
    Search('wire', wire(), check_wire, 1200),
    Search('sequences', sequences(), check_sequence, 400), Search('bad_names', bad_names, check_bad_name, 150),
]
