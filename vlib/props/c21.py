"""MMS headers that are encoded"""
from hypothesis import strategies as st
from vlib import combos, scale, snips, wsp, mmsgen as mg
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc, Mms
from vlib.props.c18 import is_plain, plain, tokens
from vlib.props.c19 import medias, params, params_arg, versions, arg

RULE = ('a message is non-trivial when it has at least two headers that are not default ones, or one that cannot be encoded; every '
        'enumerated combination of message type and addresses counts')
DEFAULTS = {'Message-Type': 'm-send-req', 'Transaction-Id': '1234', 'MMS-Version': '1.0'}
ALIAS = {'X-Mms-Message-Type': 'Message-Type', 'X-Mms-Transaction-Id': 'Transaction-Id', 'X-Mms-Version': 'MMS-Version'}
FIRST = ('Message-Type', 'Transaction-Id', 'MMS-Version')
address = mg.ADDR.filter(lambda t: t and t[0] >= ' ' and t[0] != '\x7f')
kinds = {'To': address, 'Cc': address, 'Bcc': address, 'Subject': plain, 'Response-Text': plain, 'Message-ID': plain,
         'Transaction-Id': plain, 'X-Mms-Transaction-Id': plain, 'From': st.one_of(st.just(''), address), 'MMS-Version': versions,
         'X-Mms-Version': versions, 'Message-Size': st.one_of(ints(1, 2**31 - 1), ints(1, 300)),
         'Status': st.sampled_from(wsp.STATUSES), 'Message-Type': st.sampled_from(wsp.MSG_TYPES),
         'X-Mms-Message-Type': st.sampled_from(wsp.MSG_TYPES)}
app_names = mg.APP_NAMES.filter(lambda n: n not in ALIAS)


@st.composite
def message(draw):
    out = {}
    for n in draw(st.lists(st.sampled_from(sorted(kinds)), max_size=9, unique=True)):
        out[n] = draw(kinds[n])
    for n in draw(st.lists(app_names, max_size=3, unique=True)):
        out[n] = draw(plain)
    drop = draw(st.lists(st.sampled_from(sorted(DEFAULTS)), max_size=2, unique=True))
    ct = draw(st.one_of(st.none(), st.tuples(medias, params())))
    return {'set': [[k, v] for k, v in out.items()], 'del': [d for d in drop if d not in out], 'ct': ct}


def ops(c):
    r = [['new', 'm', 'message.MMSMessage', []], ['get', 'm', 'headers', 'h']]
    r += [['fn', None, 'W.delitem', [{'ref': 'h'}, {'s': d}]] for d in c['del']]
    r += [['fn', None, 'W.setitem', [{'ref': 'h'}, {'s': k}, value_arg(v)]] for k, v in c['set']]
    if c['ct']:
        r.append(['fn', None, 'W.setitem', [{'ref': 'h'}, {'s': 'Content-Type'}, {'t': [{'s': c['ct'][0]}, params_arg(c['ct'][1])]}]])
    return r + [['call', 'e', 'm', 'encode', []], ['fn', None, 'W.from_data', [{'ref': 'e'}]]]


def value_arg(v):
    if isinstance(v, list):
        return {'t': [value_arg(x) for x in v]}
    if isinstance(v, dict) and 'when' in v:
        return {'dt': v['when']}
    return arg(v)


def expected(c):
    h = dict(DEFAULTS)
    for d in c['del']:
        del h[d]
    h.update((k, v) for k, v in c['set'])
    for a, n in ALIAS.items():
        if a in h:
            h[n] = h.pop(a)
    h.setdefault('Message-Type', 'm-retrieve-conf')
    h.setdefault('MMS-Version', '1.0')
    if h['Message-Type'] == 'm-send-req' and not any(a in h for a in ('To', 'Cc', 'Bcc')):
        h['Message-Type'] = 'm-retrieve-conf'
    return h


def raw(n, v):
    """the octets of a field value"""
    if n == 'Message-Type':
        return bytes([0x80 + wsp.MSG_TYPES.index(v)])
    if n == 'Status':
        return bytes([0x80 + wsp.STATUSES.index(v)])
    if n == 'MMS-Version':
        return wsp.version(v)
    if n == 'Message-Size':
        return wsp.long(v)
    if n == 'From':
        b = b'\x80' + wsp.text(v) if v else b'\x81'
        return wsp.value_length(len(b)) + b
    return wsp.text(v)


def check(w, c):
    out = w.script(ops(c))
    need(not any(isinstance(o, Exc) for o in out[:-2]), 'composing the message: %r', out)
    octets, back = bytes(ok(out[-2], 'encoding')), ok(out[-1], 'decoding what was encoded')
    try:
        fields, media, par, parts = wsp.read_mms(octets)
    except wsp.Bad as e:
        need(False, 'the encoded message %s is malformed: %s', octets.hex(), e)
    h = expected(c)
    if 'Transaction-Id' not in h:
        t = dict(fields).get('Transaction-Id', b'')
        need(len(t) == 5 and t[:4].isdigit(), 'made up Transaction-Id %r', t)
        h['Transaction-Id'] = t[:4].decode()
    names = [n for n, _ in fields]
    eq(names[:3], list(FIRST), 'first fields')
    eq(sorted(names), sorted(h), 'encoded fields')
    for n, v in fields:
        need(v == raw(n, h[n]), 'field %s: %r is encoded as %s, expected %s', n, h[n], v.hex(), raw(n, h[n]).hex())
    ct = c['ct'] or ['application/vnd.wap.multipart.mixed', []]
    eq(media, ct[0], 'media type')
    need(wsp.tile(par, [wsp.param(k, v) for k, v in ct[1]]), 'content type parameters %r are %s', ct[1], par.hex())
    h2 = dict(h)
    if h2.get('From') == '':
        h2['From'] = '<not inserted>'
    mg.check_headers(back, list(map(list, h2.items())), ct)
    return len(c['set']) > 1


def cases(tier):
    for t in [None] + wsp.MSG_TYPES:
        for alias in (False, True):
            for a in ([], ['To'], ['Cc'], ['Bcc'], ['To', 'Bcc'], ['To', 'Cc', 'Bcc']):
                yield {'set': ([[('X-Mms-' if alias else '') + 'Message-Type', t]] if t else []) + [[x, '+1/TYPE=PLMN'] for x in a],
                       'del': [] if t or alias else ['Message-Type'], 'ct': None}


    for n in scale.ladder(15, scale.top(tier, 10000, 65537)):
        yield {'len': n}
    for n in scale.ladder(9, scale.top(tier, 1025, 4097)):
        yield {'count': n}
    for n in scale.ladder(1, 2**31 - 1):
        yield {'set': [['Message-Size', n], ['To', 'x']], 'del': [], 'ct': None}
    # empty addresses do not hide those that follow
    for a in ([('To', '')], [('To', ''), ('Cc', '+1')], [('To', ''), ('Bcc', '+1')], [('To', '+1'), ('Cc', '')], [('Cc', ''), ('Bcc', '+1')],
              [('Cc', '+1'), ('Bcc', '')], [('Bcc', '')], [('Cc', '')], [('To', ''), ('Cc', ''), ('Bcc', '+1')], [('To', ''), ('Cc', ''), ('Bcc', '')]):
        yield {'set': [list(x) for x in a], 'del': [], 'ct': None}


def check_one(w, c):
    if 'count' in c:
        check(w, {'set': [['To', 'x']] + [['X-%d' % i, 'v%d' % i] for i in range(c['count'])], 'del': [], 'ct': None})
    elif 'len' in c:
        v = scale.fill(c['len'])
        ns = [n for n in kinds if n in mg.STRINGS + ('From', 'Message-ID')] + ['Transaction-Id', 'MMS-Version', 'X-A']
        check(w, {'set': [[n, v] for n in ns] + [['X-B' + v, 'v']], 'del': [], 'ct': ['a/' + v, [['Name', v]]]})
    else:
        check(w, c)
    return 1


@st.composite
def awkward(draw):
    """a header the library may be unable to encode"""
    k = draw(ints(0, 3))
    if k == 0:
        n = draw(st.sampled_from(['Date', 'Delivery-Report', 'Delivery-Time', 'Expiry', 'Message-Class', 'Priority', 'Read-Reply',
                                  'Report-Allowed', 'Response-Status', 'Sender-Visibility', 'Content-Location']))
        _, v = mg.field(draw, n)
    elif k == 1:
        n = draw(st.builds(lambda a, c, b: a + c + b, tokens, st.sampled_from('()<>@,;:\\"/[]?={} \t\x7f\x01\n\xe9'), st.text(max_size=0)))
        v = draw(plain)
    elif k == 2:
        n = draw(st.sampled_from(['To', 'Subject', 'Message-ID', 'X-Foo', 'Transaction-Id', 'MMS-Version']))
        v = draw(st.one_of(ints(0, 1000), st.just(None), st.booleans()))
    else:
        n, v = 'Message-Size', draw(st.one_of(st.sampled_from([-1, -5, None, 'x', '12', ''])))
    return {'set': [['To', 'x'], [n, v], ['Subject', 's']] if n not in ('To', 'Subject') else [[n, v]], 'del': [], 'ct': None, 'name': n, 'v': v}


def check_awkward(w, c):
    out = w.script(ops(c))
    e, back = out[-2:]
    if isinstance(e, Exc):
        return True
    ok(back, 'decoding what was encoded of %r: %r' % (c['name'], c['v']))
    got = back.headers.get(c['name'], 'nothing')
    need(got == mg.value(c['v']) and c['v'] is not None, 'header %r: %r is encoded as one decoded as %r', c['name'], c['v'], got)
    return True


def check_piece(w, c):
    n = 0
    for t in snips.texts(c):
        if not is_plain(t):
            continue
        ns = ['Subject', 'Response-Text', 'Message-ID', 'X-A', 'X-Mms-Transaction-Id'] + (['To', 'Cc', 'Bcc', 'From'] if ' ' <= t[0] < '\x7f' else [])
        check(w, {'set': [[k, t] for k in ns], 'del': [], 'ct': None})
        check(w, {'set': [['To', 'x'], ['Subject', 's'], ['Transaction-Id', t]], 'del': [], 'ct': None})
        n += 2
        if wsp.is_token('X' + t):
            check(w, {'set': [['X' + t, 'v'], ['To', 'y']], 'del': [], 'ct': None})
            n += 1
    return n or False


ASPECTS = [Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split), Enum('combinations', combos.mms_headers, check), Enum('destinations', cases, check_one), Search('headers', message(), check, 1000), Search('unencodable', awkward(), check_awkward, 500)]
