"""Independence of objects, reuse of decoders and encoders, arguments left alone"""
from hypothesis import strategies as st
from vlib import forms, gen, submit, wsp, compose as co, mmsgen as mg
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.scale import top
from vlib.sut import eq, need, ok, Exc, Mms
from vlib.props.c15 import any_pdu, bad
from vlib.props.c19 import medias, params, params_arg
from vlib.props.c28 import wire_message, damaged, outcome
from vlib.props.c29 import push, octets as push_octets

RULE = ('interleaved operations are non-trivial when at least two objects have an operation after the first operation of another; a reused '
        'decoder when it decodes at least two different inputs; an encoder when both messages have content; arguments when there is a parameter')


# -- several objects at once -------------------------------------------------
@st.composite
def program(draw):
    k = draw(st.sampled_from(['submit', 'submit', 'deliver', 'compose', 'compose', 'decode', 'push', 'iter']))
    if k == 'submit':
        # references the caller leaves to the message are part of what it gives alone
        a, b = [draw(submit.attrs(long=draw(st.booleans()), fixed=draw(st.booleans()))) for _ in range(2)]
        return {'k': k, 'a': a, 'b': b}
    if k == 'deliver':
        return {'k': k, 'pdus': draw(st.lists(st.one_of(any_pdu(), any_pdu(), bad()), min_size=1, max_size=3))}
    if k == 'compose':
        return {'k': k, 'm': draw(co.message(pages=2, parts=2))}
    if k == 'decode':
        return {'k': k, 'data': draw(st.lists(st.one_of(wire_message(), damaged().map(lambda c: c['hex'])), min_size=1, max_size=2))}
    if k == 'iter':
        return {'k': k, 'hex': draw(st.binary(max_size=8)).hex(), 'ops': draw(st.lists(st.sampled_from(['next', 'preview', 'preview', 'reset_preview']), max_size=12))}
    p = draw(push(big=False))
    return {'k': k, 'hex': push_octets(p).hex()}


def operations(c, o, fs):
    k = c['k']
    enc = [['call', None, o, 'to_pdu', []]]
    if k == 'submit':
        r = submit.ops(c['a'], o) + enc
        r += [['set', o, 'text', submit.text_arg(c['b'])]] + submit.sets(c['b'], o) + enc
        return r + [['get', o, a] for a in ('number', 'csca', 'klass', 'validity', 'text', 'ref', 'rand_id', 'pid', 'request_status')]
    if k == 'deliver':
        r = [['new', o, 'SmsDeliver', [{'s': c['pdus'][0]}]], ['attrs', o]]
        for p in c['pdus'][1:]:
            r += [['set', o, 'pdu', {'s': p}], ['attrs', o]]
        return r + [['attrs', o]]
    if k == 'compose':
        look = [['fn', None, 'W.snapshot', [{'ref': o}]], ['call', None, o, 'smil', []], ['call', None, o, 'encode', []]]
        return co.message_ops(c['m'], fs, o) + look + look
    if k == 'decode':
        r = [['new', o, 'mms_pdu.MMSDecoder', []]]
        for i, h in enumerate(c['data']):
            r.append(['call', '%sm%d' % (o, i), o, 'decode_data', [{'arr': h}]])
        return r + [['fn', None, 'W.identity', [{'ref': '%sm%d' % (o, i)}]] for i in range(len(c['data']))]
    if k == 'iter':
        return [['new', o, 'iterator.PreviewIterator', [{'arr': c['hex']}]]] + [['call', None, o, x, []] for x in c['ops']]
    return [['fn', o, 'W.push', [{'hex': c['hex']}]], ['fn', None, 'W.identity', [{'ref': o}]]]


def view(op, o):
    if isinstance(o, Exc):
        return o.name
    if op[0] == 'call' and op[3] == 'encode':
        try:
            return co.canonical(bytes(o))
        except wsp.Bad:
            return bytes(o)
    if op[0] == 'call' and op[3] == 'to_pdu':
        return [p.key() for p in o]
    if isinstance(o, Mms):
        return outcome(o)
    return o


@st.composite
def together(draw):
    ps = draw(st.lists(program(), min_size=2, max_size=4))
    if draw(st.booleans()):
        ps[1] = dict(ps[1], **draw(st.sampled_from(ps[:1])))
    return {'programs': ps, 'order': draw(st.lists(ints(0, len(ps) - 1), max_size=80)), 'run': draw(ints(1, 4))}


def check_together(w, c):
    fs = co.Files(w.scratch())
    progs = [operations(p, 'x%d' % i, fs) for i, p in enumerate(c['programs'])]
    alone = [w.script(p) for p in progs]
    at = [0] * len(progs)
    script, whose = [], []
    for i in [i for i in c['order'] for _ in range(c['run'])] + [i for i, p in enumerate(progs) for _ in p]:
        if at[i] < len(progs[i]):
            script.append(progs[i][at[i]])
            whose.append((i, at[i]))
            at[i] += 1
    for (i, j), o in zip(whose, w.script(script)):
        op = progs[i][j]
        eq(view(op, o), view(op, alone[i][j]), 'operation %r of object %d among those of %d others, against alone' % (op[:4], i, len(progs) - 1))
    switches = [a[0] for a, b in zip(whose, whose[1:]) if a[0] != b[0]]
    return len(switches) >= len(progs)


# -- decoders and encoders used again ----------------------------------------
decode_list = st.lists(st.one_of(wire_message(), wire_message(), damaged().map(lambda c: c['hex'])), min_size=2, max_size=4)


@st.composite
def decoders(draw):
    l = draw(decode_list)
    if draw(ints(0, 2)) == 0:
        l.append(l[0])
    return {'data': l, 'edit': draw(st.booleans())}


def edits(m):
    """changes to a decoded message"""
    return [['get', m, 'headers', m + 'H'], co.setitem(m + 'H', 'Subject', {'s': 'edited'}), co.setitem(m + 'H', 'Content-Type', {'s': 'edited'}),
            ['fn', None, 'W.delitem', [{'ref': m + 'H'}, {'s': 'To'}]], ['fn', None, 'W.empty_parts', [{'ref': m}]],
            ['new', m + 'p', 'message.MMSMessagePage', []], ['call', None, m, 'add_page', [{'ref': m + 'p'}]]]


def check_decoders(w, c):
    ops, want = [['new', 'd', 'mms_pdu.MMSDecoder', []]], []
    first = {}
    for i, h in enumerate(c['data']):
        n = len(ops)
        ops += [['call', 'm%d' % i, 'd', 'decode_data', [{'arr': h}]], ['fn', None, 'W.from_data', [{'hex': h}]]]
        want.append((n + 1, n, 'decoding %s with a decoder used before, against a new one' % h))
        if h in first:
            want.append((first[h], n, 'decoding %s again' % h))
        first.setdefault(h, n)
        if c['edit']:
            ops += edits('m%d' % i)
    if not c['edit']:
        for i, h in enumerate(c['data']):
            want.append((1 + 2 * i, len(ops), 'message %d after decoding others with the same decoder' % i))
            ops.append(['fn', None, 'W.identity', [{'ref': 'm%d' % i}]])
    else:
        for i, h in enumerate(c['data']):
            want.append((first[h], len(ops), 'decoding %s after changing the messages decoded before' % h))
            ops.append(['fn', None, 'W.from_data', [{'hex': h}]])
    out = w.script(ops)
    for a, b, what in want:
        if isinstance(out[a], Exc):
            need(isinstance(out[b], Exc), '%s: %r, expected %r', what, out[b], out[a])
            continue
        eq(outcome(out[b]), outcome(out[a]), what)
    return len(set(c['data'])) > 1


@st.composite
def encoders(draw):
    ms = [draw(co.message(pages=2, parts=2)) for _ in range(draw(ints(2, 3)))]
    return {'messages': ms, 'order': draw(st.lists(ints(0, len(ms) - 1), min_size=2, max_size=5)), 'bad': draw(st.booleans())}


def check_encoders(w, c):
    fs = co.Files(w.scratch())
    ops, want = [['new', 'e', 'mms_pdu.MMSEncoder', []], ['new', 'b', 'message.MMSMessage', []], ['get', 'b', 'headers', 'bH'],
                 co.setitem('bH', 'Subject', {'obj': 0}), ['new', 'bp', 'message.DataPart', []], ['call', None, 'bp', 'set_text', [{'s': 'bad'}]],
                 ['call', None, 'b', 'add_data_part', [{'ref': 'bp'}]]], []
    for i, m in enumerate(c['messages']):
        ops += co.message_ops(m, fs, 'm%d' % i)
    for i in c['order']:
        if c['bad']:
            ops.append(['call', None, 'e', 'encode', [{'ref': 'b'}]])
        want.append((len(ops), i))
        ops += [['call', None, 'e', 'encode', [{'ref': 'm%d' % i}]], ['call', None, 'm%d' % i, 'encode', []]]
    out = w.script(ops)
    for n, i in want:
        a, b = out[n:n + 2]
        ok(b, 'encoding message %d' % i)
        eq(view(ops[n], ok(a, 'encoding with an encoder used before')), view(ops[n + 1], b), 'message %d encoded with an encoder used before, against a new one' % i)
    return sum(bool(m['pages'] or m['parts']) for m in c['messages']) > 1


# -- arguments and tables ----------------------------------------------------
@st.composite
def arguments(draw):
    return {'media': draw(medias), 'params': draw(params()), 'hex': draw(co.hexblobs), 'mms': draw(st.one_of(wire_message(), damaged().map(lambda c: c['hex']))),
            'items': draw(st.lists(ints(0, 255), max_size=20)), 'version': draw(st.sampled_from(['1.1', '1.2', '1.3', '1.4'])),
            'udh': draw(gen.ie_list(40))}


def check_arguments(w, c):
    p = params_arg(c['params'])
    tables = [['fn', 't%d' % i, 'wsp_pdu.get_' + f, [{'s': c['version']}]] for i, f in enumerate(('header_field_names', 'well_known_parameters'))]
    ops = [['fn', 'P', 'W.identity', [p]], ['fn', 'A', 'W.identity', [{'arr': c['hex']}]],
           ['fn', None, 'wsp_pdu.Encoder.encode_content_type_value', [{'s': c['media']}, {'ref': 'P'}]],
           ['new', 'd', 'message.DataPart', []], ['call', None, 'd', 'set_data', [{'ref': 'A'}, {'s': c['media']}, {'ref': 'P'}]],
           ['new', 'm', 'message.MMSMessage', []], ['call', None, 'm', 'add_data_part', [{'ref': 'd'}]], ['call', None, 'm', 'encode', []],
           ['fn', None, 'W.identity', [{'ref': 'P'}]], ['fn', None, 'W.identity', [{'ref': 'A'}]],
           ['fn', 'D', 'W.identity', [{'arr': c['mms']}]], ['fn', None, 'message.MMSMessage.from_data', [{'ref': 'D'}]],
           ['fn', None, 'W.identity', [{'ref': 'D'}]],
           ['fn', 'L', 'W.identity', [c['items']]], ['new', 'i', 'iterator.PreviewIterator', [{'ref': 'L'}]]] + \
        [['call', None, 'i', k, []] for k in ('preview', 'next', 'preview', 'preview', 'next', 'next')] + [['fn', None, 'W.identity', [{'ref': 'L'}]]] + \
        tables + [['fn', None, 'W.spoil', [{'ref': 't0'}]], ['fn', None, 'W.spoil', [{'ref': 't1'}]]] + tables
    out = w.script(ops)
    eq(ok(out[8], 'parameters'), dict(map(tuple, c['params'])), 'parameter dictionary after setting and encoding it')
    eq(ok(out[9], 'data'), bytes.fromhex(c['hex']), 'array after it was given to a part that was encoded')
    eq(ok(out[12], 'octets'), bytes.fromhex(c['mms']), 'array after it was decoded')
    eq(ok(out[21], 'items'), c['items'], 'list after iterating over it')
    b = gen.udh_octets(c['udh'])
    before, header, after, septets, same, swapped, left = [ok(o, 'user data header') for o in w.script([
        ['fn', 'U', 'W.identity', [{'arr': b.hex()}]], ['fn', None, 'udh.UserDataHeader.from_bytes', [{'ref': 'U'}]], ['fn', None, 'W.identity', [{'ref': 'U'}]],
        ['fn', None, 'utils.unpack_msg2', [{'ref': 'U'}]], ['fn', None, 'W.identity', [{'ref': 'U'}]],
        ['fn', None, 'utils.swap', [{'ref': 'U'}]], ['fn', None, 'W.identity', [{'ref': 'U'}]]])]
    eq(after, before, 'array after a user data header was read from it')
    eq(same, before, 'array after it was unpacked')
    eq(left, before, 'array after a swapped copy was made of it')
    for i in (0, 1):
        a, b = ok(out[22 + i], 'table'), ok(out[26 + i], 'table')
        need(a and a == b, 'table %r: %r after the caller changed the first one %r', tables[i][2], b, a)
    return bool(c['params'])


@st.composite
def results(draw):
    """decoded short messages and encoded ones, whose parts the caller changes"""
    return {'pdu': draw(any_pdu()), 'a': draw(submit.attrs(long=draw(st.booleans()), fixed=True))}


def check_results(w, c):
    d = [['new', 'd', 'SmsDeliver', [{'s': c['pdu']}]], ['attrs', 'd']]
    ops = d + [['fn', None, 'W.spoil_udh', [{'ref': 'd'}]]] + d
    s = submit.ops(c['a'])
    n = len(ops) + len(s)
    ops += s + [['call', 'l', 'm', 'to_pdu', []], ['fn', None, 'W.spoil', [{'ref': 'l'}]], ['call', None, 'm', 'to_pdu', []]]
    out = w.script(ops)
    for a, b in ((out[1], out[4]),):
        eq(b, ok(a, 'decoding'), 'decoding %s again after changing the first result' % c['pdu'])
    eq([p.key() for p in ok(out[n + 2], 'encoding again')], [p.key() for p in ok(out[n], 'encoding')], 'encoding again after changing the list of the first one')
    return out[1]['udh'] is not None


# -- what functions return ---------------------------------------------------
E, D = 'wsp_pdu.Encoder.', 'wsp_pdu.Decoder.'
S = lambda t: {'s': t}


def encode_calls():
    """calls that return octets"""
    for i in list(range(256)) + [256, 16383, 16384, 65536]:
        for name, top_ in (('uint_8', 255), ('uint_var', None), ('short_integer', 127), ('long_integer', None), ('integer_value', None),
                           ('value_length', None), ('short_length', 30)):
            if top_ is None or i <= top_:
                yield E + 'encode_' + name, [i]
    for t in ['', 'a', 'text', '\xe9', 'a b', 'text/plain', 'image/jpeg', 'x-a/b', '*/*', '1.0', '1.2', '7', '1.15'] + wsp.MEDIA[:40:3]:
        for name in ('text_string', 'version_value', 'token_text', 'text_value', 'extension_media', 'media_type', 'constrained_media',
                     'constrained_encoding', 'accept_value'):
            yield E + 'encode_' + name, [S(t)]
        for ps in ([], [['Name', 'n']], [['Type', 3], ['x-y', 200]]):
            for name in ('content_type_value', 'content_general_form'):
                yield E + 'encode_' + name, [S(t), params_arg(ps)]
        for n in ('Accept', 'Server', 'Content-Location', 'X-App', 'Content-ID'):
            yield E + 'encode_header', [S(n), S(t)]
        for n in ('Subject', 'To', 'From', 'X-App', 'Transaction-Id', 'Message-ID', 'Response-Text', 'MMS-Version'):
            yield 'mms_pdu.MMSEncoder.encode_header', [S(n), S(t)]
    yield E + 'encode_no_value', []
    for t in wsp.MSG_TYPES:
        yield 'mms_pdu.MMSEncoder.encode_message_type_value', [S(t)]
    for t in wsp.STATUSES:
        yield 'mms_pdu.MMSEncoder.encode_status_value', [S(t)]
    for t in ['', 'a@b']:
        yield 'mms_pdu.MMSEncoder.encode_from_value', [S(t)]
        yield 'mms_pdu.MMSEncoder.encode_encoded_string_value', [S(t)]
    for n, v in (('Name', 'n'), ('Type', 3), ('x-y', 'z'), ('x-y', 5), ('Level', '1.2'), ('Padding', 1)):
        yield E + 'encode_parameter', [S(n), v if isinstance(v, int) else S(v)]
    for z in (None, 60, [-150], [0]):
        yield 'utils.datetime_to_absolute_validity', [{'dt': [2012, 2, 29, 1, 2, 3, 0, z]}]
    for h in ('', '07', '1234'):
        yield 'utils.swap', [{'arr': h}]
    for h in ('', '01', 'FFfe'):
        yield 'utils.to_array', [S(h)]
    for v in ('1.1', '1.2', '1.3', '1.4'):
        for name in ('header_field_names', 'well_known_parameters'):
            yield 'wsp_pdu.get_' + name, [S(v)]


def decode_calls():
    """(function, octets) of values that are dictionaries, lists or tuples of them"""
    for b, m, ps in forms.content_types():
        yield 'wsp_pdu.Decoder.decode_content_type_value', b
        for p, n, v in [(x[1], x[0], x[2]) for x in forms.parameters()]:
            yield 'wsp_pdu.Decoder.decode_parameter', p
    for n, b, v in forms.wsp_headers():
        yield 'wsp_pdu.Decoder.decode_header', b
    for n, b, v in [(n, bytes([0x80 | wsp.MMS_CODE[n]]) + b, v) for n in mg.NAMES for b, v in forms.mms_forms(n)]:
        yield 'mms_pdu.MMSDecoder.decode_header', b


def returned_cases(tier):
    for i in range(24):
        yield {'calls': 'encode', 'part': i}
        yield {'calls': 'decode', 'part': i}


def check_returned(w, c):
    ops, at = [], []
    if c['calls'] == 'encode':
        calls = [[['fn', 'r', n, a]] for n, a in encode_calls()]
    else:
        calls = [[['new', 'i', 'iterator.PreviewIterator', [{'arr': b.hex()}]], ['fn', 'r', n, [{'ref': 'i'}]]] for n, b in sorted(set(decode_calls()))]
    calls = calls[c['part']::24]
    spoils = [['fn', None, 'W.spoil_returned', [{'ref': 'r'}]]]
    for call in calls:
        ops += call
        at.append([len(ops) - 1])
        ops += [['fn', None, 'W.identity', [{'ref': 'r'}]]] + spoils + call
        at[-1].append(len(ops) - 1)
    for i, call in enumerate(calls):
        ops += call
        at[i].append(len(ops) - 1)
    out = w.script(ops)
    for first, again, last in at:
        if isinstance(out[first], Exc):
            # an earlier result has been given to the helpers instead
            need(isinstance(out[last], Exc), '%r gives %r, and later %r', ops[first][2:], out[first], out[last])
            continue
        eq(out[again], out[first], '%r again after changing what it returned' % (ops[first][2:],))
        eq(out[last], out[first], '%r again after changing what it and others returned' % (ops[first][2:],))
    return len(at)


# -- new objects -------------------------------------------------------------
MIXED, OCTETS = ('application/vnd.wap.multipart.mixed', {}), ('application/octet-stream', {})
MSG = {'headers': {'Message-Type': 'm-send-req', 'Transaction-Id': '1234', 'MMS-Version': '1.0', 'Content-Type': MIXED},
       'width': 176, 'height': 220, 'pages': [], 'parts': []}
PDU, UDH = '07911326040000F0%02X0B911346610089F60000208062917314080CC8F71D14969741F977FD07', '40050B0003C70201'
NEW = {
    # object: how it is made, what is changed, what a new one shows
    'message': ([['new', 'x', 'message.MMSMessage', []]], ['data_parts', 'headers', 'pages'], ['fn', None, 'W.snapshot', [{'ref': 'x'}]], MSG),
    'page': ([['new', 'x', 'message.MMSMessagePage', []]], ['data_parts'], ['fn', None, 'W.page', [{'ref': 'x'}]],
             {'image': None, 'audio': None, 'text': None, 'duration': 4000, 'n': 0, 'parts': []}),
    'part': ([['new', 'x', 'message.DataPart', []]], ['headers', 'content_type_parameters'], None,
             [{'Content-Type': OCTETS}, {}]),
    'data': ([['new', 'x', 'message.DataPart', []], ['call', None, 'x', 'set_data', [{'s': 'd'}, {'s': 'a/b'}]]],
             ['headers', 'content_type_parameters'], None, [{'Content-Type': ('a/b', {})}, {}]),
    'text': ([['new', 'x', 'message.DataPart', []], ['call', None, 'x', 'set_text', [{'s': 'd'}]]],
             ['headers', 'content_type_parameters'], None, [{'Content-Type': ('text/plain', {})}, {}]),
    'type': ([['new', 'x', 'message.DataPart', []], ['set', 'x', 'content_type', {'s': 'a/b'}]],
             ['headers', 'content_type_parameters'], None, [{'Content-Type': ('a/b', {})}, {}]),
    'file': ([['new', 'x', 'message.DataPart', [{'s': '/dev/null/p'}]]], ['headers', 'content_type_parameters'], None,
             [{'Content-Type': ('image/gif', {}), 'Content-Location': 'p.gif'}, {}]),
    'related': ([['new', 'x', 'message.MMSMessage', []], ['new', 'p', 'message.MMSMessagePage', []], ['call', None, 'x', 'add_page', [{'ref': 'p'}]]],
                ['headers', 'pages'], ['get', 'x', 'headers'],
                dict(MSG['headers'], **{'Content-Type': ('application/vnd.wap.multipart.related', {})})),
    'decoded': ([['fn', 'x', 'message.MMSMessage.from_data', [{'arr': '8c849831008d908f818a8084a301010183aa'}]], ['get', 'x', 'data_parts', 'y']],
                ['headers', 'data_parts'], ['get', 'x', 'headers'],
                {'Message-Type': 'm-retrieve-conf', 'Transaction-Id': '1', 'MMS-Version': '1.0', 'Priority': 'Normal', 'Message-Class': 'Personal',
                 'Content-Type': MIXED}),
    'deliver': ([['new', 'x', 'SmsDeliver', [{'s': PDU % 4}]]], ['data', 'udh', 'sr'], ['get', 'x', 'data'], None),
    'report': ([['new', 'x', 'SmsDeliver', [{'s': '0006D60B911326880736F4111011719551401110117195714000'}]]], ['sr', 'data'], ['get', 'x', 'data'], None),
    'header': ([['fn', 'x', 'udh.UserDataHeader.from_bytes', [{'arr': '0003c70201'}]]], ['headers'], ['get', 'x', 'headers'], {0: b'\xc7\x02\x01'}),
}


def new_cases(tier):
    for k in sorted(NEW):
        yield {'new': k}


def check_new(w, c):
    make, spoil, look, want = NEW[c['new']]
    if c['new'] == 'file':
        make = [['new', 'x', 'message.DataPart', [{'s': co.Files(w.scratch()).path({'name': 'p.gif', 'hex': '47'})}]]]
    looks = [look] if look else [['get', 'x', a] for a in spoil]
    spoils = []
    for a in spoil:
        spoils += [['get', 'x', a, 's'], ['fn', None, 'W.spoil_all', [{'ref': 's'}]]]
    ops = make + looks + spoils + make + looks
    out = w.script(ops)
    for op, o in zip(ops, out):
        ok(o, 'operation %r' % (op,))
    n = len(looks)
    first, second = out[len(make):len(make) + n], out[-n:]
    if want is not None:
        eq(first if not look else first[0], want, 'a new object of kind %r' % c['new'])
    eq(second, first, 'a new object of kind %r after another one was changed' % c['new'])
    return 1


# -- very many of one kind ---------------------------------------------------
MANY = {}


def kind(f):
    MANY[f.__name__] = f
    return f


def mms(i):
    parts = [b'\x83'] * (i % 4)
    body = wsp.uintvar(len(parts))
    for k, ct in enumerate(parts):
        data = b'part %d of message %d' % (k, i)
        body += wsp.uintvar(len(ct)) + wsp.uintvar(len(data)) + ct + data
    return (b'\x8c\x84\x98t%d\x00\x8d\x90\x96subject %d\x00\x84\xa3' % (i, i) + body).hex()


def short_message(i):
    t = 'text %d %s' % (i, 'x' * (i % 90))
    c = {'smsc': ['346%d' % i, 1, 1], 'first': 4, 'pid': i % 256, 'dcs': 0, 'alpha': '7', 'scts': [2000 + i % 60, 1 + i % 12, 4, 5, 6, 7, i % 40],
         'oa': ['34%d' % (600 + i), i % 2, 1], 'trail': '', 'udh': [[0, '%02x0201' % (i % 256)]] if i % 3 else None,
         'payload': gsm_octets(t).hex()}
    return gen.deliver_octets(c).hex()


def gsm_octets(t):
    from vlib import gsm
    return gsm.encode(t)


def plain_submit(i):
    al = '78u'[i % 3]
    return {'number': '%d' % (1000 + i), 'csca': '+34%d' % (100 + i) if i % 5 else None, 'klass': i % 4,
            'validity': ['td', 300 * (1 + i % 144), 0] if i % 2 else None, 'srr': i % 11 < 5, 'ref': i % 256, 'rand_id': i * 7 % 256, 'pid': i % 256,
            'fmt': gen.FMT[al], 'text': ('m%d ' % i) * (1 + i * 13 % 90), 'native': False}


@kind
def decoder(n):
    """one decoder; what it returned at once, and at the end, against new decoders"""
    ops, pairs = [['new', 'd', 'mms_pdu.MMSDecoder', []]], []
    for i in range(n):
        ops += [['call', 'm%d' % i, 'd', 'decode_data', [{'arr': mms(i)}]], ['fn', None, 'W.from_data', [{'hex': mms(i)}]]]
        pairs.append((len(ops) - 2, len(ops) - 1))
    for i in range(n):
        pairs.append((len(ops), pairs[i][1]))
        ops.append(['fn', None, 'W.identity', [{'ref': 'm%d' % i}]])
    return ops, pairs


@kind
def encoder(n):
    ops, pairs = [['new', 'e', 'mms_pdu.MMSEncoder', []]], []
    for i in range(n):
        m = 'm%d' % i
        ops += [['new', m, 'message.MMSMessage', []], ['get', m, 'headers', 'h'], co.setitem('h', 'Subject', {'s': 'subject %d' % i}),
                co.setitem('h', 'To', {'s': '+34%d/TYPE=PLMN' % i})]
        for k in range(i % 3):
            ops += [['new', 'p', 'message.DataPart', []], ['call', None, 'p', 'set_text', [{'s': 'part %d of %d' % (k, i)}]],
                    ['call', None, m, 'add_data_part', [{'ref': 'p'}]]]
        ops += [['call', None, 'e', 'encode', [{'ref': m}]], ['call', None, m, 'encode', []]]
        pairs.append((len(ops) - 2, len(ops) - 1))
    for i in range(n):
        pairs.append((len(ops), pairs[i][1]))
        ops.append(['call', None, 'm%d' % i, 'encode', []])
    return ops, pairs


@kind
def encodings(n):
    """one message encoded again and again, and read back"""
    ops = [['new', 'm', 'message.MMSMessage', []], ['new', 'p', 'message.MMSMessagePage', []], ['call', None, 'p', 'add_text', [{'s': 'some text'}, 0, 10]],
           ['call', None, 'm', 'add_page', [{'ref': 'p'}]], ['new', 'd', 'message.DataPart', []], ['call', None, 'd', 'set_text', [{'s': 'part'}]],
           ['call', None, 'm', 'add_data_part', [{'ref': 'd'}]]]
    a = len(ops)
    return ops + [['call', None, 'm', 'encode', []]] * n, [(a, a + i) for i in range(n)]


@kind
def short_decoder(n):
    ops, pairs = [['new', 'd', 'SmsDeliver', [{'s': short_message(0)}]]], []
    for i in range(n):
        ops += [['set', 'd', 'pdu', {'s': short_message(i)}], ['attrs', 'd'], ['new', 'd%d' % i, 'SmsDeliver', [{'s': short_message(i)}]], ['attrs', 'd%d' % i]]
        pairs.append((len(ops) - 3, len(ops) - 1))
    for i in range(n):
        pairs.append((len(ops), pairs[i][0]))
        ops.append(['attrs', 'd%d' % i])
    return ops, pairs


@kind
def short_encoder(n):
    """one object given the attributes of many messages, and one object for each, encoded at the end"""
    ops, pairs = [['new', 'm', 'SmsSubmit', [{'s': '12345'}, {'u': 'x'}]]], []
    for i in range(n):
        a = plain_submit(i)
        ops += [['set', 'm', 'number', {'s': a['number']}], ['set', 'm', 'text', submit.text_arg(a)]] + submit.sets(a, 'm')
        ops.append(['call', None, 'm', 'to_pdu', []])
        pairs.append([len(ops) - 1])
        ops += submit.ops(a, 'm%d' % i)
    for i in reversed(range(n)):
        pairs[i].append(len(ops))
        ops.append(['call', None, 'm%d' % i, 'to_pdu', []])
    return ops, pairs


@kind
def parts(n):
    ops, pairs = [], []
    for i in range(n):
        ops += [['new', 'p%d' % i, 'message.DataPart', []],
                ['call', None, 'p%d' % i, 'set_data', [{'s': 'data %d' % i}, {'s': 'x/y%d' % i}, {'dict': [[{'s': 'n%d' % i}, {'s': 'v'}]]}]],
                ['fn', None, 'W.identity', [{'ref': 'p%d' % i}]]]
        pairs.append([len(ops) - 1])
    for i in range(n):
        pairs[i].append(len(ops))
        ops.append(['fn', None, 'W.identity', [{'ref': 'p%d' % i}]])
    return ops, pairs


@kind
def pages(n):
    ops, pairs = [], []
    for i in range(n):
        ops += [['new', 'p%d' % i, 'message.MMSMessagePage', []], ['call', None, 'p%d' % i, 'set_duration', [1 + i]],
                ['call', None, 'p%d' % i, 'add_text', [{'s': 'text %d' % i}, i, 2 * i]], ['fn', None, 'W.page', [{'ref': 'p%d' % i}]]]
        pairs.append([len(ops) - 1])
    for i in range(n):
        pairs[i].append(len(ops))
        ops.append(['fn', None, 'W.page', [{'ref': 'p%d' % i}]])
    return ops, pairs


@kind
def functions(n):
    """functions of many different values, a second time"""
    calls = []
    for i in range(n):
        for name, args in (
                ('wsp_pdu.Encoder.encode_content_type_value', [{'s': 'x-%d/y' % i}, {'dict': [[{'s': 'Name'}, {'s': 'n%d' % i}]]}]),
                ('wsp_pdu.Encoder.encode_header', [{'s': 'X-H%d' % i}, {'s': 'v%d' % i}]),
                ('wsp_pdu.Encoder.encode_uint_var', [i * i]), ('wsp_pdu.Encoder.encode_integer_value', [i * 97]),
                ('wsp_pdu.Encoder.encode_text_string', [{'s': 'text %d' % i}]),
                ('W.prim', [{'s': 'decode_text_string'}, {'hex': b'text %d\0'.hex() + '%02x' % (i % 256)}]),
                ('W.prim', [{'s': 'decode_uint_var'}, {'hex': wsp.uintvar(i * i).hex()}]),
                ('W.prim', [{'s': 'decode_header'}, {'hex': (b'X-H%d\0v%d\0' % (i, i)).hex()}]),
                ('W.encode', [{'u': 'text \u20ac %d' % i}, {'s': 'gsm0338'}, {'s': 'strict'}]),
                ('W.decode', [{'hex': (b'text \x1b\x65 %d' % i).hex()}, {'s': 'gsm0338'}, {'s': 'strict'}]),
                ('utils.pack_8bits_to_7bits', [{'s': 'text %d' % i}]), ('utils.unpack_msg', [{'s': '%08x' % (i * 7919)}]),
                ('utils.encode_str', [{'s': 'text %d' % i}]),
                ('W.validity', [{'td': [i, 0, 0]}])):
            calls.append(['fn', None, name, args])
    m = len(calls)
    return calls * 2, [(i, m + i) for i in range(m)]


def many_cases(tier):
    for k in sorted(MANY):
        yield {'many': k, 'n': top(tier, 300 if k != 'functions' else 1200, 2500)}


def check_many(w, c):
    ops, pairs = MANY[c['many']](c['n'])
    out = w.script(ops)
    for a, b in pairs:
        x, y = out[a], out[b]
        if isinstance(x, Exc) or isinstance(y, Exc):
            need(c['many'] == 'functions' and x == y, '%s among %d: %r and %r', ops[b][:4], c['n'], x, y)
            continue
        eq(view(ops[b], y), view(ops[a], x), '%r among %d of a kind' % (ops[b][:4], c['n']))
    return len(pairs)


ASPECTS = [Enum('returned', returned_cases, check_returned), Enum('many', many_cases, check_many), Enum('new_objects', new_cases, check_new), Search('together', together(), check_together, 500), Search('decoders', decoders(), check_decoders, 400),
           Search('encoders', encoders(), check_encoders, 200), Search('arguments', arguments(), check_arguments, 400),
           Search('results', results(), check_results, 400)]
