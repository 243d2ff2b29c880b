"""Reference model of WAP-230 (WSP) and WAP-209 (MMS) encodings."""
import json

MEDIA = ['*/*', 'text/*', 'text/html', 'text/plain', 'text/x-hdml', 'text/x-ttml', 'text/x-vCalendar', 'text/x-vCard',
         'text/vnd.wap.wml', 'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event', 'multipart/*', 'multipart/mixed',
         'multipart/form-data', 'multipart/byterantes', 'multipart/alternative', 'application/*', 'application/java-vm',
         'application/x-www-form-urlencoded', 'application/x-hdmlc', 'application/vnd.wap.wmlc',
         'application/vnd.wap.wmlscriptc', 'application/vnd.wap.wta-eventc', 'application/vnd.wap.uaprof',
         'application/vnd.wap.wtls-ca-certificate', 'application/vnd.wap.wtls-user-certificate',
         'application/x-x509-ca-cert', 'application/x-x509-user-cert', 'image/*', 'image/gif', 'image/jpeg', 'image/tiff',
         'image/png', 'image/vnd.wap.wbmp', 'application/vnd.wap.multipart.*', 'application/vnd.wap.multipart.mixed',
         'application/vnd.wap.multipart.form-data', 'application/vnd.wap.multipart.byteranges',
         'application/vnd.wap.multipart.alternative', 'application/xml', 'text/xml', 'application/vnd.wap.wbxml',
         'application/x-x968-cross-cert', 'application/x-x968-ca-cert', 'application/x-x968-user-cert',
         'text/vnd.wap.si', 'application/vnd.wap.sic', 'text/vnd.wap.sl', 'application/vnd.wap.slc', 'text/vnd.wap.co',
         'application/vnd.wap.coc', 'application/vnd.wap.multipart.related', 'application/vnd.wap.sia',
         'text/vnd.wap.connectivity-xml', 'application/vnd.wap.connectivity-wbxml', 'application/pkcs7-mime',
         'application/vnd.wap.hashed-certificate', 'application/vnd.wap.signed-certificate',
         'application/vnd.wap.cert-response', 'application/xhtml+xml', 'application/wml+xml', 'text/css',
         'application/vnd.wap.mms-message', 'application/vnd.wap.rollover-certificate', 'application/vnd.wap.locc+wbxml',
         'application/vnd.wap.loc+xml', 'application/vnd.syncml.dm+wbxml', 'application/vnd.syncml.dm+xml',
         'application/vnd.syncml.notification', 'application/vnd.wap.xhtml+xml', 'application/vnd.wv.csp.cir',
         'application/vnd.oma.dd+xml', 'application/vnd.oma.drm.message', 'application/vnd.oma.drm.content',
         'application/vnd.oma.drm.rights+xml', 'application/vnd.oma.drm.rights+wbxml']
MEDIA_CODE = {m: i for i, m in enumerate(MEDIA)}
UNSURE_MEDIA = 0x0e     # the standard itself misspells multipart/byteranges
CHARSETS = {0x07EA: 'big5', 0x03E8: 'iso-10646-ucs-2', 0x04: 'iso-8859-1', 0x05: 'iso-8859-2', 0x06: 'iso-8859-3',
            0x07: 'iso-8859-4', 0x08: 'iso-8859-5', 0x09: 'iso-8859-6', 0x0A: 'iso-8859-7', 0x0B: 'iso-8859-8',
            0x0C: 'iso-8859-9', 0x11: 'shift_JIS', 0x03: 'us-ascii', 0x6A: 'utf-8'}
HEADERS = ('Accept Accept-Charset Accept-Encoding Accept-Language Accept-Ranges Age Allow Authorization Cache-Control '
           'Connection Content-Base Content-Encoding Content-Language Content-Length Content-Location Content-MD5 '
           'Content-Range Content-Type Date Etag Expires From Host If-Modified-Since If-Match If-None-Match If-Range '
           'If-Unmodified-Since Location Last-Modified Max-Forwards Pragma Proxy-Authenticate Proxy-Authorization '
           'Public Range Referer Retry-After Server Transfer-Encoding Upgrade User-Agent Vary Via Warning '
           'WWW-Authenticate Content-Disposition '
           'X-Wap-Application-Id X-Wap-Content-URI X-Wap-Initiator-URI Accept-Application Bearer-Indication Push-Flag '
           'Profile Profile-Diff Profile-Warning '
           'Expect TE Trailer Accept-Charset Accept-Encoding Cache-Control Content-Range X-Wap-Tod Content-ID '
           'Set-Cookie Cookie Encoding-Version '
           'Profile-Warning Content-Disposition X-WAP-Security Cache-Control').split()
HEADERS_IN = {'1.1': 0x2f, '1.2': 0x38, '1.3': 0x44, '1.4': 0x48}
HEADER_CODE = {}
for _i, _n in enumerate(HEADERS[:0x38]):
    HEADER_CODE.setdefault(_n, _i)
# header fields of version 1.2 whose values are plain text on the wire
TEXT_HEADERS = [0x0a, 0x0e, 0x13, 0x16, 0x1c, 0x24, 0x26, 0x29, 0x2a, 0x2b, 0x30, 0x31, 0x35]
PARAMS = {0: 'Q', 1: 'Charset', 2: 'Level', 3: 'Type', 5: 'Name', 6: 'Filename', 7: 'Differences', 8: 'Padding',
          9: 'Type', 0x0a: 'Start', 0x0b: 'Start-info', 0x0c: 'Comment', 0x0d: 'Domain', 0x0e: 'Max-Age', 0x0f: 'Path',
          0x10: 'Secure', 0x11: 'SEC', 0x12: 'MAC', 0x13: 'Creation-date', 0x14: 'Modification-date', 0x15: 'Read-date',
          0x16: 'Size', 0x17: 'Name', 0x18: 'Filename', 0x19: 'Start', 0x1a: 'Start-info', 0x1b: 'Comment',
          0x1c: 'Domain', 0x1d: 'Path'}
PARAMS_IN = {'1.1': 0x09, '1.2': 0x0c, '1.3': 0x11, '1.4': 0x1e}

MSG_TYPES = ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind', 'm-retrieve-conf',
             'm-acknowledge-ind', 'm-delivery-ind']
STATUSES = ['Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised']
RESPONSES = ['Ok', 'Error-unspecified', 'Error-service-denied', 'Error-message-format-corrupt',
             'Error-sending-address-unresolved', 'Error-message-not-found', 'Error-network-problem',
             'Error-content-not-accepted', 'Error-unsupported-message']
CLASSES = ['Personal', 'Advertisement', 'Informational', 'Auto']
MMS_FIELDS = ['Bcc', 'Cc', 'Content-Location', 'Content-Type', 'Date', 'Delivery-Report', 'Delivery-Time', 'Expiry',
              'From', 'Message-Class', 'Message-ID', 'Message-Type', 'MMS-Version', 'Message-Size', 'Priority',
              'Read-Reply', 'Report-Allowed', 'Response-Status', 'Response-Text', 'Sender-Visibility', 'Status',
              'Subject', 'To', 'Transaction-Id']
MMS_CODE = {n: i + 1 for i, n in enumerate(MMS_FIELDS)}

SEPARATORS = set(b'()<>@,;:\\"/[]?={} \t')


class Bad(AssertionError):
    pass


# -- canonical encodings -----------------------------------------------------
def uintvar(n, pad=0):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, 0x80 | n & 0x7f)
        n >>= 7
    return bytes([0x80] * pad + out)


def short(n):
    return bytes([0x80 | n])


def long(n, size=None):
    size = size or max(1, (n.bit_length() + 7) // 8)
    return bytes([size]) + n.to_bytes(size, 'big')


def integer(n):
    return short(n) if n < 128 else long(n)


def value_length(n, quoted=False, pad=0):
    return bytes([n]) if n <= 30 and not quoted else b'\x1f' + uintvar(n, pad)


def l1(t):
    return t.encode('latin-1')


def text(t, quote=False):
    b = l1(t)
    return (b'\x7f' if quote or b[:1] >= b'\x80' else b'') + b + b'\x00'


def is_token(t):
    return bool(t) and all(32 < ord(c) < 127 and ord(c) not in SEPARATORS for c in t)


def text_value(t):
    """untyped text value"""
    if t == '':
        return b'\x00'
    if is_token(t):
        return l1(t) + b'\x00'
    return b'"' + l1(t) + b'\x00'


def version(v):
    p = v.split('.')
    if len(p) <= 2 and all(x.isdigit() for x in p):
        a = int(p[0])
        b = int(p[1]) if len(p) == 2 else 15
        if 1 <= a <= 7 and (len(p) == 1 or b <= 14):
            return bytes([0x80 | a << 4 | b])
    return text(v)


def media(m):
    return short(MEDIA_CODE[m]) if m in MEDIA_CODE else text(m)


def param(name, value):
    """canonical encoding of a parameter the library can encode"""
    if name == 'Type':
        return b'\x89' + (short(value) if isinstance(value, int) else text(value))
    if name in ('Name', 'Filename', 'Start', 'Start-info'):
        return short({'Name': 5, 'Filename': 6, 'Start': 10, 'Start-info': 11}[name]) + text(value)
    if name == 'Level':
        return b'\x82' + version(value)
    if name == 'Padding':
        return b'\x88' + short(value)
    return l1(name) + b'\x00' + (integer(value) if isinstance(value, int) else text_value(value))


def content_type_options(m, params):
    """the canonical octets, for every order of the parameters: returns a
    predicate on octets"""
    def good(octets):
        octets = bytes(octets)
        if not params:
            return octets == media(m)
        parts = [param(k, v) for k, v in params]
        n = len(media(m)) + sum(map(len, parts))
        head = value_length(n) + media(m)
        if not octets.startswith(head) or len(octets) != len(value_length(n)) + n:
            return False
        return tile(octets[len(head):], parts)
    return good


def tile(octets, parts):
    """are the octets the parts, in some order?"""
    if not parts:
        return octets == b''
    for i, p in enumerate(parts):
        if octets.startswith(p) and tile(octets[len(p):], parts[:i] + parts[i + 1:]):
            return True
    return False


# -- strict reading of what the library writes -------------------------------
class Reader(object):
    def __init__(self, b):
        self.b, self.i = bytes(b), 0

    def take(self, n):
        if n < 0 or self.i + n > len(self.b):
            raise Bad('ends early at %d (+%d of %d)' % (self.i, n, len(self.b)))
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def one(self):
        return self.take(1)[0]

    def peek(self):
        if self.i >= len(self.b):
            raise Bad('ends early')
        return self.b[self.i]

    def end(self):
        return self.i >= len(self.b)

    def uintvar(self):
        start = self.i
        n = 0
        while True:
            o = self.one()
            n = n << 7 | o & 0x7f
            if not o & 0x80:
                break
        if self.b[start] == 0x80:
            raise Bad('length not in its shortest form')
        return n

    def long(self):
        size = self.one()
        if not 1 <= size <= 30:
            raise Bad('long integer of %d octets' % size)
        d = self.take(size)
        if size > 1 and d[0] == 0:
            raise Bad('long integer not in its shortest form')
        return int.from_bytes(d, 'big')

    def integer(self):
        if self.peek() & 0x80:
            return self.one() & 0x7f
        n = self.long()
        if n < 128:
            raise Bad('integer %d not in its short form' % n)
        return n

    def value_length(self):
        o = self.one()
        if o <= 30:
            return o
        if o != 31:
            raise Bad('value length starts with %d' % o)
        n = self.uintvar()
        if n <= 30:
            raise Bad('value length %d not in its short form' % n)
        return n

    def text(self):
        end = self.b.find(b'\0', self.i)
        if end < 0:
            raise Bad('text without end')
        t = self.b[self.i:end]
        self.i = end + 1
        if t[:1] == b'\x7f':
            t = t[1:]
        return t.decode('latin-1')

    def content_type(self):
        o = self.peek()
        if o >= 0x80:
            self.i += 1
            return MEDIA[o & 0x7f], b''
        if o >= 32:
            return self.extension(), b''
        n = self.value_length()
        r = Reader(self.take(n))
        if r.peek() >= 0x80:
            m = MEDIA[r.one() & 0x7f]
        else:
            m = r.extension()
        if r.end():
            raise Bad('general form of a content type without parameters')
        return m, r.b[r.i:]

    def extension(self):
        m = self.text()
        if m in MEDIA_CODE:
            raise Bad('well-known media type %s is spelled out' % m)
        return m


def read_mms(octets):
    """[(field name, raw value octets)...], media type, raw parameters, parts
    of what the library wrote; parts are (media, raw params, [(name, value)], data)"""
    r = Reader(octets)
    fields = []
    while True:
        o = r.peek()
        start = r.i
        if o & 0x80:
            code = r.one() & 0x7f
            if not 1 <= code <= len(MMS_FIELDS):
                raise Bad('field 0x%02x' % code)
            name = MMS_FIELDS[code - 1]
            start = r.i
            if name == 'Content-Type':
                m, p = r.content_type()
                break
            skip_value(r)
        else:
            name = r.text()
            if not is_token(name):
                raise Bad('header name %r' % name)
            start = r.i
            r.text()
        fields.append((name, r.b[start:r.i]))
    parts = []
    n = r.uintvar()
    for _ in range(n):
        hl, dl = r.uintvar(), r.uintvar()
        h = Reader(r.take(hl))
        data = r.take(dl)
        pm, pp = h.content_type()
        hs = []
        while not h.end():
            if h.peek() & 0x80:
                name = HEADERS[:0x38][h.one() & 0x7f]
                if name == 'Accept':
                    hs.append((name, h.content_type()[0]))
                    continue
            else:
                name = h.text()
            hs.append((name, h.text()))
        parts.append((pm, pp, hs, data))
    if not r.end():
        raise Bad('%d octets after the last part' % (len(r.b) - r.i))
    return fields, m, p, parts


def skip_value(r):
    """WSP 8.4.1.2: the first octet says how long a field value is"""
    o = r.peek()
    if o <= 30:
        r.i += 1
        r.take(o)
    elif o == 31:
        r.i += 1
        r.take(r.uintvar())
    elif o < 128:
        r.text()
    else:
        r.i += 1


# -- running decoders of the library -----------------------------------------
def prims(w, todo):
    """[(decoder name, octets)] -> [(value or Exc, octet previewed next, octets left)]"""
    from vlib.sut import ok
    out = []
    for o in w.map('W.prim', [[{'s': n}, {'hex': bytes(b).hex()}] for n, b in todo]):
        o = ok(o, 'decoding')
        out.append((result(o['r']), o['preview'], bytes(o['rest'])))
    return out


def result(text):
    from vlib.sut import un, Exc
    r = json.loads(text)
    return un(r['ok']) if 'ok' in r else Exc(r['exc'])


def decoded(w, name, octets, want, tail=b'', what=None):
    many(w, [(name, octets, want, tail)], what)


def many(w, cases, what=None):
    """[(decoder, octets, expected value, octets that follow)]"""
    from vlib.sut import eq, need
    for (name, b, want, tail), (got, prev, rest) in zip(cases, prims(w, [(n, bytes(b) + t) for n, b, _, t in cases])):
        eq(got, want, '%s of %s' % (name, bytes(b).hex()))
        need(rest == tail, '%s of %s: %s left unread, expected %s', name, bytes(b).hex(), rest.hex(), tail.hex())
        need(prev == (tail[0] if tail else None), '%s of %s: preview shows %r', name, bytes(b).hex(), prev)
