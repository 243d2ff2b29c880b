"""MMS headers and bodies on the wire: octets with the value they denote."""
import datetime
from hypothesis import strategies as st
from vlib import wsp
from vlib.gen import ints
from vlib.props.c18 import first, plain, tokens, byte_chars
from vlib.props.c19 import int_form, medias, wire as content_type_wire, versions, wire_params

APP_NAMES = st.one_of(tokens, st.sampled_from(['X-Foo', 'x', 'X-Mms-Extra', 'X-Original-Sender', 'Content-Typ', 'subject', 'TO', 'content-type', 'message-id',
                                              'accept', 'ACCEPT', 'pragma', 'X-mms-version', 'date', 'FROM', 'mms-version', 'transaction-id'])).filter(
    lambda n: n not in wsp.MMS_FIELDS and n not in wsp.HEADERS)
WIRE_TEXT = st.one_of(plain, st.text(byte_chars, max_size=40), st.text(byte_chars, min_size=25, max_size=200))
ADDR = st.one_of(st.builds(lambda n: n + '/TYPE=PLMN', st.text(st.sampled_from('0123456789+'), min_size=1, max_size=15)),
                 st.sampled_from(['a@b.c', '+34600000001', '1.2.3.4/TYPE=IPv4']), WIRE_TEXT)
BOOLEAN = ('Delivery-Report', 'Read-Reply', 'Report-Allowed')
STRINGS = ('Bcc', 'Cc', 'To', 'Subject', 'Response-Text')
ENUMS = {'Message-Type': (wsp.MSG_TYPES, '<unknown>'), 'Response-Status': (wsp.RESPONSES, 'Error-unspecified'),
         'Status': (wsp.STATUSES, 'Unrecognised')}
seconds = st.one_of(ints(0, 2**31 - 1), st.sampled_from([0, 1, 127, 128, 951782399, 951782400, 2**31 - 1]), ints(0, 10**6))


def text_form(draw, t):
    q = t[:1] > '~' or t[:1] and t[0] < ' ' or draw(ints(0, 3)) == 0
    return wsp.text(t, q)


def length_form(draw, body):
    q = len(body) > 30 or draw(ints(0, 3)) == 0
    return wsp.value_length(len(body), q, draw(ints(0, 1)) if q else 0) + body


def encoded_string(draw, t):
    if draw(st.booleans()):
        return text_form(draw, t)
    n = draw(st.one_of(st.sampled_from(sorted(wsp.CHARSETS)), ints(0, 3000)))
    return length_form(draw, int_form(draw, n) + text_form(draw, t))


def long_form(draw, n):
    return wsp.long(n, max(1, (n.bit_length() + 7) // 8) + draw(st.sampled_from([0, 0, 0, 1, 4])))


def when(n):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)
    return {'when': [d.year, d.month, d.day, d.hour, d.minute, d.second, 0]}


def accept(draw):
    """an Accept value in any of its forms, and the media type it names"""
    m = draw(medias)
    if draw(st.booleans()):
        return wsp.media(m), m
    if m in wsp.MEDIA_CODE and draw(ints(0, 4)):
        b = int_form(draw, wsp.MEDIA_CODE[m])
    else:
        b = wsp.l1(m) + b'\0'
    b += b''.join(x for _, x in wire_params(draw, [0, 1, 1, 2, 4]).values())
    return length_form(draw, b), m


def field(draw, name):
    """-> octets of the value, JSON form of what it is"""
    if name in STRINGS:
        t = draw(ADDR if name in ('To', 'Cc', 'Bcc') else WIRE_TEXT)
        return encoded_string(draw, t), t
    if name in ('Content-Location', 'Message-ID', 'Transaction-Id'):
        t = draw(st.one_of(WIRE_TEXT, st.sampled_from(['http://mms.x/abc?d=1', '<id@host>'])))
        return text_form(draw, t), t
    if name == 'Date':
        n = draw(seconds)
        return long_form(draw, n), when(n)
    if name in BOOLEAN:
        v = draw(st.booleans())
        return bytes([128 if v else 129]), v
    if name in ('Delivery-Time', 'Expiry'):
        n = draw(seconds)
        if draw(st.booleans()):
            v = ['absolute', n] if name == 'Delivery-Time' else when(n)
            return length_form(draw, b'\x80' + long_form(draw, n)), v
        return length_form(draw, b'\x81' + int_form(draw, n)), ['relative', n] if name == 'Delivery-Time' else n
    if name == 'From':
        if draw(ints(0, 3)) == 0:
            return length_form(draw, b'\x81'), '<not inserted>'
        t = draw(ADDR)
        return length_form(draw, b'\x80' + encoded_string(draw, t)), t
    if name == 'Message-Class':
        if draw(st.booleans()):
            i = draw(ints(0, 3))
            return bytes([128 + i]), wsp.CLASSES[i]
        t = draw(tokens)
        return wsp.l1(t) + b'\0', t
    if name in ENUMS:
        names, fallback = ENUMS[name]
        i = draw(st.one_of(ints(0, len(names) - 1), ints(0, 127)))
        return bytes([128 + i]), names[i] if i < len(names) else fallback
    if name == 'MMS-Version':
        v = draw(versions)
        b = wsp.version(v)
        return (b if draw(st.booleans()) else wsp.text(v)), v
    if name == 'Message-Size':
        n = draw(st.one_of(seconds, ints(0, 2**62)))
        return long_form(draw, n), n
    if name == 'Priority':
        i = draw(ints(0, 2))
        return bytes([128 + i]), ['Low', 'Normal', 'High'][i]
    if name == 'Sender-Visibility':
        i = draw(ints(0, 1))
        return bytes([128 + i]), ['Hide', 'Show'][i]
    raise KeyError(name)


NAMES = [n for n in wsp.MMS_FIELDS if n != 'Content-Type']


@st.composite
def headers(draw, most=12, ct=None):
    """{'hex': octets, 'want': [[name, value]], 'ct': [media, params]}"""
    names = draw(st.lists(st.sampled_from(NAMES), max_size=most, unique=True))
    items = [(n, None) for n in names]
    for n in draw(st.lists(APP_NAMES, max_size=2, unique=True)):
        items.insert(draw(ints(0, len(items))), (n, 'app'))
    octets, want = b'', []
    for n, app in items:
        if app:
            t = draw(WIRE_TEXT)
            octets += wsp.l1(n) + b'\0' + text_form(draw, t)
            want.append([n, t])
        else:
            b, v = field(draw, n)
            octets += bytes([0x80 | wsp.MMS_CODE[n]]) + b
            want.append([n, v])
    c = draw(content_type_wire())
    octets += b'\x84' + bytes.fromhex(c['hex'])
    return {'hex': octets.hex(), 'want': want, 'ct': [c['media'], c['params']]}


FABRICATED = {'Message-Type': 'm-send-req', 'Transaction-Id': '1234', 'MMS-Version': '1.0'}


def value(v):
    """what the worker reports for the JSON form of a value"""
    if isinstance(v, dict):
        return tuple(v['when'])
    return tuple(v) if isinstance(v, list) else v


def check_headers(m, want, ct):
    from vlib.sut import need
    got = dict(m.headers)
    for n, v in list(want) + [['Content-Type', None]]:
        need(n in got, 'header %s is not reported: %r', n, m.headers)
        x = got.pop(n)
        if n == 'Content-Type':
            need(x == (ct[0], dict(map(tuple, ct[1]))), 'content type is %r, expected %r', x, ct)
        else:
            v = value(v)
            need(x == v and (isinstance(x, bool) == isinstance(v, bool)), 'header %s is %r, expected %r', n, x, v)
    for n in got:
        need(n in FABRICATED, 'header %s: %r is reported but was not sent', n, got[n])


TEXT_HEADERS = [wsp.HEADERS[i] for i in wsp.TEXT_HEADERS]


@st.composite
def part(draw, size=st.one_of(ints(0, 20), ints(0, 300))):
    """{'hex': headers and content type octets, 'data': hex, 'want', 'ct'}"""
    c = draw(content_type_wire())
    octets, want, seen = bytes.fromhex(c['hex']), [], set()
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 4]))):
        k = draw(ints(0, 3))
        if k == 0:
            n = 'Accept'
            b, v = accept(draw)
        else:
            n = draw(st.sampled_from(TEXT_HEADERS) if k < 3 else APP_NAMES)
            v = draw(WIRE_TEXT)
            b = text_form(draw, v)
        if n in seen:
            continue
        seen.add(n)
        octets += (bytes([0x80 | wsp.HEADER_CODE[n]]) if n in wsp.HEADER_CODE else wsp.l1(n) + b'\0') + b
        want.append([n, v])
    n = draw(size)
    b = draw(st.binary(min_size=1, max_size=24))
    data = (b * (n // len(b) + 1))[:n]
    return {'hex': octets.hex(), 'data': data.hex(), 'want': want, 'ct': [c['media'], c['params']]}


def body_octets(parts, pad=0):
    out = wsp.uintvar(len(parts), pad)
    for p in parts:
        h, d = bytes.fromhex(p['hex']), bytes.fromhex(p['data'])
        out += wsp.uintvar(len(h), p.get('pad', 0)) + wsp.uintvar(len(d), p.get('pad', 0)) + h + d
    return out


def check_parts(got, parts):
    from vlib.sut import need, eq
    need(len(got) == len(parts), '%d parts are reported, expected %d', len(got), len(parts))
    for i, (g, p) in enumerate(zip(got, parts)):
        data = bytes.fromhex(p['data'])
        ct = (p['ct'][0], dict(map(tuple, p['ct'][1])))
        eq(g.data, data.decode('latin-1'), 'data of part %d' % i)
        eq(g.len, len(data), 'length of part %d' % i)
        eq(g.ctype, ct[0], 'content type of part %d' % i)
        eq(g.params, ct[1], 'content type parameters of part %d' % i)
        eq(g.headers, dict([tuple(x) for x in p['want']] + [('Content-Type', ct)]), 'headers of part %d' % i)
