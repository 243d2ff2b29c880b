"""Content types with parameters; tables of assigned numbers"""
from hypothesis import strategies as st
from vlib import near, scale, snips, wsp
from vlib.gen import ints, is_hex
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc
from vlib.props.c18 import first, plain, tokens, byte_chars, is_plain

RULE = ('a content type is non-trivial when it has at least one parameter; every enumerated media code, charset and table '
        'entry counts')
PLAIN = 'Q Charset Level Type Name Filename Differences Padding Start Start-info Comment Domain Path'.split()
ext_media = st.one_of(
    st.builds(lambda a, b: a + '/' + b, tokens, tokens), st.builds(lambda a, b: a + b, first, st.text(byte_chars, max_size=60)),
    st.sampled_from(['application/smil', 'image/x-foo', 'text', 'audio/amr', 'a' * 40])).filter(lambda m: m not in wsp.MEDIA_CODE)
known = st.sampled_from([m for i, m in enumerate(wsp.MEDIA) if i != wsp.UNSURE_MEDIA])
medias = st.one_of(known, ext_media)
value_text = st.one_of(plain, tokens, st.just('')).filter(lambda t: t[:1] != '\x7f')
ext_text = st.builds(lambda a, b: a + b, first, st.text(byte_chars, max_size=30))
MAXI = 2**31 - 1
integers = st.one_of(ints(0, 127), ints(0, MAXI), st.sampled_from([127, 128, 255, 256, 65535, 65536, MAXI]))
versions = st.builds(lambda a, b: '%d' % a if b is None else '%d.%d' % (a, b), ints(1, 7), st.one_of(st.none(), ints(0, 14))) | \
    st.sampled_from(['8.1', '1.2.3', '0.1', 'x', '1.15', '7.99'])
untyped_names = st.one_of(tokens, st.sampled_from(['name', 'x-y', 'type', 'boundary', 'q'])).filter(lambda n: n not in PLAIN)


@st.composite
def params(draw):
    out = {}
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 5]))):
        k = draw(st.sampled_from(['Type', 'Type', 'Name', 'Filename', 'Start', 'Start-info', 'Level', 'Padding', None, None, None]))
        if k == 'Type':
            v = draw(st.one_of(ints(0, 127), ext_text))
        elif k in ('Name', 'Filename', 'Start', 'Start-info'):
            v = draw(plain)
        elif k == 'Level':
            v = draw(versions)
        elif k == 'Padding':
            v = draw(ints(0, 127))
        else:
            k = draw(untyped_names)
            v = draw(st.one_of(integers, value_text))
        out[k] = v
    return [[k, v] for k, v in out.items()]


def arg(v):
    return {'s': v} if isinstance(v, str) else v


def params_arg(p):
    return {'dict': [[{'s': k}, arg(v)] for k, v in p]}


def check_encode(w, c):
    m, p, tail = c['media'], c['params'], bytes.fromhex(c['tail'])
    o = ok(w.fn('wsp_pdu.Encoder.encode_content_type_value', {'s': m}, params_arg(p)), 'encoding %r %r' % (m, p))
    need(isinstance(o, list) and all(type(x) is int and 0 <= x < 256 for x in o), 'encoding %r %r gives %r', m, p, o)
    need(wsp.content_type_options(m, p)(o), 'encoding %r %r gives %s', m, p, bytes(o).hex())
    wsp.decoded(w, 'decode_content_type_value', bytes(o), (m, dict(map(tuple, p))), tail)
    return bool(p)


CHARSET_NUMBERS = st.one_of(st.sampled_from(sorted(wsp.CHARSETS)), ints(1, 3000), st.just('any'))


def int_form(draw, n):
    """some well-formed octets of an integer"""
    if n < 128 and draw(st.booleans()):
        return wsp.short(n)
    size = max(1, (n.bit_length() + 7) // 8)
    return wsp.long(n, size + draw(st.sampled_from([0, 0, 1, 3])))


def quality(draw):
    n = draw(st.one_of(ints(1, 100), ints(101, 1099), st.sampled_from([1, 100, 101, 127, 128, 433, 1099])))
    return q_factor(n), wsp.uintvar(n)


def q_factor(n):
    return (n - 1) / 100.0 if n <= 100 else (n - 100) / 1000.0


def wire_params(draw, sizes):
    out = {}
    for _ in range(draw(st.sampled_from(sizes))):
        k = draw(st.sampled_from(['Charset', 'Charset', 'Type', 'Name', 'Filename', 'Start', 'Start-info', 'Level', 'Padding',
                                  'Q', None, None]))
        if k == 'Q':
            v, b = quality(draw)
            code = 0
        elif k == 'Charset':
            n = draw(CHARSET_NUMBERS)
            v, b = ('*', b'\x80') if n == 'any' else (wsp.CHARSETS.get(n, str(n)), int_form(draw, n))
            code = 1
        elif k == 'Type':
            if draw(st.booleans()):
                v, code = draw(integers), 3
                b = int_form(draw, v)
            else:
                v, code = draw(st.one_of(ints(0, 127), ext_text)), 9
                b = wsp.short(v) if isinstance(v, int) else wsp.l1(v) + b'\0'
        elif k in ('Name', 'Filename', 'Start', 'Start-info'):
            v = draw(plain)
            code, b = {'Name': 5, 'Filename': 6, 'Start': 10, 'Start-info': 11}[k], wsp.text(v, draw(st.booleans()))
        elif k == 'Level':
            v, code = draw(versions), 2
            b = wsp.version(v)
        elif k == 'Padding':
            v, code = draw(ints(0, 127)), 8
            b = wsp.short(v)
        else:
            k, code = draw(untyped_names), None
            v = draw(st.one_of(integers, value_text))
            if isinstance(v, int):
                b = int_form(draw, v)
            elif wsp.is_token(v) and draw(st.booleans()):
                b = b'"' + wsp.l1(v) + b'\0'
            else:
                b = wsp.text_value(v)
        head = wsp.l1(k) + b'\0' if code is None else int_form(draw, code)
        out[k] = (v, head + b)
    return out


@st.composite
def wire(draw):
    m = draw(medias)
    if m in wsp.MEDIA_CODE and draw(ints(0, 4)):
        mb = int_form(draw, wsp.MEDIA_CODE[m])
    else:
        mb = wsp.l1(m) + b'\0'
    out = wire_params(draw, [0, 1, 1, 2, 3, 6])
    body = mb + b''.join(b for _, b in out.values())
    tail = draw(st.binary(max_size=3)).hex()
    if not out and len(mb) > 1 and mb[0] >= 32 and draw(st.booleans()):
        octets = mb
    elif not out and mb[0] >= 0x80 and draw(st.booleans()):
        octets = mb
    else:
        q = draw(st.booleans())
        octets = wsp.value_length(len(body), q, draw(ints(0, 2)) if q or len(body) > 30 else 0) + body
    return {'hex': octets.hex(), 'media': m, 'params': [[k, v] for k, (v, _) in out.items()], 'tail': tail}


def check_wire(w, c):
    wsp.decoded(w, 'decode_content_type_value', bytes.fromhex(c['hex']),
                (c['media'], dict(map(tuple, c['params']))), bytes.fromhex(c['tail']))
    return bool(c['params'])


def cases(tier):
    for i in range(0, len(wsp.MEDIA)):
        if i != wsp.UNSURE_MEDIA:
            yield {'code': i}
    yield {'charsets': 1}
    yield {'tables': 1}


def check_known(w, c):
    if 'code' in c:
        i, m = c['code'], wsp.MEDIA[c['code']]
        eq(w.fn('wsp_pdu.Encoder.encode_content_type_value', {'s': m}, {'dict': []}), [0x80 | i], 'media type %s' % m)
        eq(w.fn('wsp_pdu.Encoder.encode_media_type', {'s': m}), [0x80 | i], 'media type %s' % m)
        T = b'\x05'
        wsp.many(w, [('decode_content_type_value', [0x80 | i], (m, {}), T), ('decode_content_type_value', [1, 0x80 | i], (m, {}), T),
                     ('decode_content_type_value', [2, 1, i], (m, {}), T), ('decode_media_type', [0x80 | i], m, T),
                     ('decode_constrained_media', [0x80 | i], m, T),
                     ('decode_content_type_value', [4, 0x80 | i, 0x81, 1, 106], (m, {'Charset': 'utf-8'}), T)])
        return 8
    if 'charsets' in c:
        todo = []
        for n in sorted(set(range(1, 128)) | set(wsp.CHARSETS) | {128, 1000, 1001, 1013, 2025, 2027, 2026, 65535}):
            name = wsp.CHARSETS.get(n, str(n))
            todo += [('decode_well_known_charset', b, name, t) for b in ([wsp.short(n)] if n < 128 else []) + [wsp.long(n)] for t in (b'', b'\x7f')]
        todo += [('decode_well_known_charset', b'\x80', '*', t) for t in (b'', b'\x7f', b'\x80')]
        wsp.many(w, todo)
        return len(todo)
    tables = {}
    for v in ('1.1', '1.2', '1.3', '1.4'):
        h = ok(w.fn('wsp_pdu.get_header_field_names', {'s': v}), 'get_header_field_names(%s)' % v)
        eq([x for x in h], wsp.HEADERS[:wsp.HEADERS_IN[v]], 'header field names of version %s' % v)
        p = ok(w.fn('wsp_pdu.get_well_known_parameters', {'s': v}), 'get_well_known_parameters(%s)' % v)
        eq({k: x[0] for k, x in p.items()}, {k: x for k, x in wsp.PARAMS.items() if k < wsp.PARAMS_IN[v]},
           'parameters of version %s' % v)
        tables[v] = (h, p)
    vs = sorted(tables)
    for a, b in zip(vs, vs[1:]):
        need(tables[b][0][:len(tables[a][0])] == tables[a][0], 'header names of %s do not extend those of %s', b, a)
        need(all(tables[b][1].get(k) == x for k, x in tables[a][1].items()), 'parameters of %s do not extend those of %s', b, a)
    eq(w.fn('wsp_pdu.get_header_field_names'), tables['1.2'][0], 'default header field names')
    eq(w.fn('wsp_pdu.get_well_known_parameters'), tables['1.2'][1], 'default parameters')
    for v in ('1.0', '1.5', '1', '2.1', '', '1.2.3', '1.22', '1,2', '2', 'x', '1.-1', '0.4', '3.3'):
        for f in ('get_header_field_names', 'get_well_known_parameters'):
            o = w.fn('wsp_pdu.' + f, {'s': v})
            need(isinstance(o, Exc) and o.isa('ValueError'), '%s(%r): %r instead of ValueError', f, v, o)
    return sum(len(h) + len(p) for h, p in tables.values())


def check_bad_version(w, v):
    for f in ('get_header_field_names', 'get_well_known_parameters'):
        o = w.fn('wsp_pdu.' + f, {'s': v})
        need(isinstance(o, Exc) and o.isa('ValueError'), '%s(%r): %r instead of ValueError', f, v, o)
    return True


bad_versions = st.text(st.sampled_from('0123456789.'), max_size=6).filter(lambda v: v not in wsp.HEADERS_IN)

def size_cases(tier):
    for n in scale.ladder(15, scale.top(tier, 20000, 65537)):
        yield {'len': n}
    for n in scale.ladder(7, scale.top(tier, 513, 4097)):
        yield {'count': n}
    for n in scale.ladder(1, MAXI):
        yield {'n': n}


def check_size(w, c):
    """names and values of that length, that many parameters, integers of every width"""
    if 'count' in c:
        ps = [[['p%04d' % i, 'v%d' % (i % 9)], ['p%04d' % i, 1000 + i]][i % 2] for i in range(c['count'])]
        b = ok(w.fn('wsp_pdu.Encoder.encode_content_type_value', {'s': 'a/b'}, params_arg(ps)), 'encoding %d parameters' % len(ps))
        wsp.decoded(w, 'decode_content_type_value', bytes(b), ('a/b', dict(map(tuple, ps))), b'\x81')
        octets = b''.join(wsp.param(k, v) for k, v in ps)
        n = len(octets) + 4
        need(bytes(b)[:-len(octets)] == wsp.value_length(n) + b'a/b\0' and len(b) == n + len(wsp.value_length(n)), 'encoding %d parameters', len(ps))
        wsp.decoded(w, 'decode_content_type_value', wsp.value_length(n) + b'a/b\0' + octets, ('a/b', dict(map(tuple, ps))), b'')
        return 2
    if 'n' in c:
        todo = [['a/b', [['p', c['n']], ['Name', 'x']]]]
    else:
        v = scale.fill(c['len'])
        todo = [[v, []], [v, [['p', 'v']]]] + [['a/b', [[k, v], ['z', 'y']]] for k in ('Type', 'Name', 'Filename', 'Start', 'Start-info', 'Level', 'p')] + \
            [['a/b', [['p', v + ' ' + v], ['Name', 'y']]], ['a/b', [['p' + v, 'v'], ['Name', 'y']]], ['a/b', [['p' + v, 77777]]]]
    for m, ps in todo:
        check_encode(w, {'media': m, 'params': ps, 'tail': '81'})
    return len(todo)


def pair_cases(tier):
    from vlib import forms
    for i in range(len(forms.parameters())):
        for m in (range(len(forms.media_types())) if tier == 'thorough' else [i % len(forms.media_types())]):
            yield {'first': i, 'media': m}


def check_pairs(w, c):
    """a form of a parameter, followed by every form of every other parameter"""
    from vlib import forms
    ps, (mb, m) = forms.parameters(), forms.media_types()[c['media']]
    todo = []
    for j in [c['second']] if 'second' in c else range(len(ps)):
        a, b = ps[c['first']], ps[j]
        if a[0] != b[0]:
            for how in range(3):
                todo.append(('decode_content_type_value', forms.counted(mb + a[1] + b[1], how), (m, {a[0]: a[2], b[0]: b[2]}), [b'', b'\0', b'\x81a'][how]))
    wsp.many(w, todo)
    return len(todo) or False


def split_pairs(c):
    from vlib import forms
    return [dict(c, second=j) for j in range(len(forms.parameters()))]


encodables = st.fixed_dictionaries({'media': medias, 'params': params(), 'tail': st.binary(max_size=3).map(bytes.hex)})


def ext_ok(t):
    return bool(t) and ' ' <= t[0] < '\x7f' and all('\0' < x <= '\xff' for x in t)


def fine(c):
    m = c['media']
    if m in wsp.MEDIA_CODE:
        if m == wsp.MEDIA[wsp.UNSURE_MEDIA]:
            return False
    elif m.lower() in wsp.MEDIA_CODE or not ext_ok(m):
        return False
    names = [k for k, _ in c['params']]
    if len(set(names)) != len(names) or not is_hex(c['tail']):
        return False
    for k, v in c['params']:
        if k == 'Type':
            good = 0 <= v <= 127 if isinstance(v, int) else ext_ok(v) and v.lower() not in wsp.MEDIA_CODE
        elif k in ('Name', 'Filename', 'Start', 'Start-info'):
            good = is_plain(v)
        elif k == 'Level':
            good = False
        elif k == 'Padding':
            good = 0 <= v <= 127
        else:
            good = k and wsp.is_token(k) and k not in PLAIN and (k.lower() == k or k.capitalize() not in PLAIN) and \
                (0 <= v <= MAXI if isinstance(v, int) else is_plain(v))
        if not good:
            return False
    return True


def check_piece(w, c):
    n = 0
    for t in snips.texts(c):
        for m, ps in [[t, []], ['a/' + t, [['p', 'v']]], ['text/x-' + t, []]] + [['a/b', [[k, t], ['q', 'y']]] for k in ('Type', 'Name', 'Filename', 'Start', 'Start-info', 'p')] + \
                [['text/plain', [['Name', t], ['Filename', t], ['x-p', t]]], ['image/gif', [['x-' + t, 'v']]]]:
            k = {'media': m, 'params': ps, 'tail': '81'}
            if fine(k):
                check_encode(w, k)
                n += 1
    return n or False


ASPECTS = [
    Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split),
    Enum('pairs', pair_cases, check_pairs, split_pairs),
    Enum('sizes', size_cases, check_size),
    Enum('assigned', cases, check_known),
    Search('versions', bad_versions, check_bad_version, 150),
    Search('encode', encodables, check_encode, 1000),
    Search('neighbours', near.pairs(encodables, [('media',), ('params',), ('tail',)], fine), near.check(check_encode), 600),
    Search('decode', wire(), check_wire, 1500),
]
