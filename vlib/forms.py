"""The forms that each MMS field, WSP header and content type parameter can
have on the wire, as (octets, value) pairs: for trying all pairs of them."""
import itertools

from vlib import wsp
from vlib.mmsgen import when, STRINGS, BOOLEAN, ENUMS
from vlib.wsp import l1, short, long, text, value_length, media


def counted(b, how=0):
    return value_length(len(b), how > 0, max(0, how - 1)) + b


def texts(hard=True):
    """text values: plain, empty, one character, quoted without need, quoted by need, with every kind of octet"""
    out = [(text('plain text'), 'plain text'), (text(''), ''), (text('a'), 'a'), (text('Q', True), 'Q'), (text('\xe9t\xe9'), '\xe9t\xe9')]
    if hard:
        out += [(text('"\x7f\xff" \t\r\n'), '"\x7f\xff" \t\r\n'), (text('\x80\x81', True), '\x80\x81'),
                (text('x' * 31), 'x' * 31)]
    return out


def strings():
    out = texts()
    for i, (b, v) in enumerate(texts()):
        out.append((counted([short(0x6a), long(1000), short(3), long(106, 4)][i % 4] + b, i % 3), v))
    return out


def addresses():
    a = [('+34600000001/TYPE=PLMN', False), ('a@b.c', False), ('1.2.3.4/TYPE=IPv4', True)]
    out = [(text(v, q), v) for v, q in a] + [(counted(short(0x6a) + text(v, q), i), v) for i, (v, q) in enumerate(a)]
    return out


def mms_forms(name):
    """-> [(octets of the value, JSON form of what it is)]"""
    if name in ('To', 'Cc', 'Bcc'):
        return addresses() + strings()[:9:2]
    if name in STRINGS:
        return strings()
    if name in ('Content-Location', 'Message-ID', 'Transaction-Id'):
        return texts() + [(text('http://mms.x/abc?d=1'), 'http://mms.x/abc?d=1'), (text('<id@host>', True), '<id@host>')]
    if name == 'Date':
        return [(long(n, s), when(n)) for n, s in ((0, 1), (127, 1), (128, 2), (951782400, 4), (951782399, 5), (2**31 - 1, 4))]
    if name in BOOLEAN:
        return [(b'\x80', True), (b'\x81', False)]
    if name in ('Delivery-Time', 'Expiry'):
        d = name == 'Delivery-Time'
        out = [(counted(b'\x80' + long(n, s), i), ['absolute', n] if d else when(n)) for i, (n, s) in enumerate(((0, 1), (951782400, 4), (2**31 - 1, 5)))]
        return out + [(counted(b'\x81' + b, i), ['relative', n] if d else n) for i, (n, b) in enumerate(
            ((0, short(0)), (127, short(127)), (128, long(128)), (604800, long(604800)), (5, long(5, 4))))]
    if name == 'From':
        out = [(counted(b'\x81', i), '<not inserted>') for i in range(3)]
        for i, (b, v) in enumerate(addresses() + texts()):
            out.append((counted(b'\x80' + b, i % 3), v))
        return out
    if name == 'Message-Class':
        return [(bytes([128 + i]), v) for i, v in enumerate(wsp.CLASSES)] + [(b'Personal\0', 'Personal'), (b'x\0', 'x')]
    if name in ENUMS:
        names, other = ENUMS[name]
        return [(bytes([128 + i]), v) for i, v in enumerate(names)] + [(bytes([128 + len(names)]), other), (b'\xff', other)]
    if name == 'MMS-Version':
        return [(wsp.version(v), v) for v in ('1.0', '1.2', '1.3', '7.14', '1', '1.15')] + [(text('1.1'), '1.1'), (text('1.0', True), '1.0')]
    if name == 'Message-Size':
        return [(long(n, s), n) for n, s in ((0, 1), (1, 1), (127, 1), (128, 1), (255, 2), (65536, 3), (2**31, 4), (2**40, 8), (70000, 30))]
    if name == 'Priority':
        return [(bytes([128 + i]), v) for i, v in enumerate(['Low', 'Normal', 'High'])]
    if name == 'Sender-Visibility':
        return [(b'\x80', 'Hide'), (b'\x81', 'Show')]
    raise KeyError(name)


MMS_NAMES = [n for n in wsp.MMS_FIELDS if n != 'Content-Type']


def mms_fields():
    """[(name, octets of name and value, value)]"""
    out = [(n, bytes([0x80 | wsp.MMS_CODE[n]]) + b, v) for n in MMS_NAMES for b, v in mms_forms(n)]
    out += [('X-A', b'X-A\0' + b, v) for b, v in texts()]
    return out + [('y', b'y\0\x7f\x80\0', '\x80'), ('subject', b'subject\0lower\0', 'lower')]


def parameters():
    """[(name, octets, value)] of one parameter"""
    out = []
    for i, n in enumerate((0, 1, 3, 4, 106, 127, 1000, 2025)):
        out.append(('Charset', b'\x81' + (short(n) if n < 128 and i % 2 else long(n)), wsp.CHARSETS.get(n, str(n))))
    out += [('Charset', b'\x81\x80', '*'), ('Charset', b'\x01\x01\x81\x6a', None)]
    out.pop()
    for n in (1, 100, 101, 127, 128, 433):
        out.append(('Q', b'\x80' + wsp.uintvar(n), (n - 1) / 100.0 if n <= 100 else (n - 100) / 1000.0))
    out += [('Level', b'\x82' + wsp.version(v), v) for v in ('1', '1.0', '7.14', '8.1')]
    out += [('Type', b'\x83' + b, v) for b, v in ((short(0), 0), (short(127), 127), (long(128), 128), (long(77777, 4), 77777))]
    out += [('Type', b'\x89' + b, v) for b, v in ((short(5), 5), (b'a/b\0', 'a/b'), (b'application/smil\0', 'application/smil'))]
    for n, c in (('Name', 0x85), ('Filename', 0x86), ('Start', 0x8a), ('Start-info', 0x8b)):
        out += [(n, bytes([c]) + b, v) for b, v in (texts() if n == 'Name' else texts()[:5])]
    out += [('Padding', b'\x88' + short(v), v) for v in (0, 1, 127)]
    out.append(('Padding', b'\x01\x08\x85', 5))
    out += [('p', b'p\0' + b, v) for b, v in ((short(0), 0), (short(127), 127), (long(128), 128), (long(65536, 5), 65536), (b'\0', ''),
                                            (b'token\0', 'token'), (b'"token\0', 'token'), (b'"two words\0', 'two words'), (b'"\xe9\0', '\xe9'))]
    out += [('x-y', b'x-y\0v\0', 'v'), ('x-y', b'x-y\0\x85', 5)]
    return out


def media_types():
    return [(short(wsp.MEDIA_CODE[m]), m) for m in ('*/*', 'text/plain', 'image/gif', 'application/vnd.wap.multipart.related')] + \
        [(b'a/b\0', 'a/b'), (b'application/smil\0', 'application/smil'), (long(wsp.MEDIA_CODE['image/jpeg']), 'image/jpeg')]


def content_types():
    """[(octets, media type, [parameters])] with no or one parameter"""
    out = [(b, m, []) for b, m in media_types() if b[0] >= 32]
    out += [(counted(b, i % 3), m, []) for i, (b, m) in enumerate(media_types())]
    ms = media_types()
    for i, (n, b, v) in enumerate(parameters()):
        mb, m = ms[i % len(ms)]
        out.append((counted(mb + b, i % 3), m, [[n, v]]))
    return out


def wsp_headers():
    """[(name, octets, value)] of one WSP header"""
    names = wsp.HEADERS[:0x38]
    out = []
    for i, n in enumerate(names):
        if n not in ('Accept', 'Pragma'):
            fs = texts()
            for b, v in (fs if i < 4 else [fs[i % len(fs)]]):
                out.append((n, bytes([0x80 | i]) + b, v))
    for b, v in texts():
        out.append(('X-App', b'X-App\0' + b, v))
    out.append(('accept', b'accept\0x\0', 'x'))
    for b, m, ps in content_types():
        out.append(('Accept', b'\x80' + b, m))
    pragma = bytes([0x80 | names.index('Pragma')])
    out.append(('Pragma', pragma + b'\x80', ('Cache-control', 'No-cache')))
    for i, (n, b, v) in enumerate(parameters()):
        out.append(('Pragma', pragma + counted(b, i % 3), (n, v)))
    return out
