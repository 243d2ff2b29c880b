"""WSP texts, tokens, quoted strings, versions"""
from hypothesis import strategies as st
from vlib import near, snips, wsp
from vlib.gen import ints, is_hex
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = 'a text is non-trivial when it has a character that is no letter or digit; every enumerated version counts'
E = 'wsp_pdu.Encoder.encode_'
SPECIAL = '"\\ ;,=\'\t\r\n\x01\x0c\x1f\x20\x7f\x80\x85\xa0\xad\xff<>@()%+&#'
byte_chars = st.one_of(st.sampled_from(SPECIAL), st.characters(min_codepoint=32, max_codepoint=126), st.characters(min_codepoint=1, max_codepoint=255))
first = st.one_of(st.sampled_from([c for c in SPECIAL if ' ' <= c < '\x7f']), st.characters(min_codepoint=32, max_codepoint=126))


# what a reader or writer of text may treat specially, in the middle, at the end or many times over
SNIPS = snips.LATIN


def texts(first):
    return st.one_of(st.builds(lambda a, b, s, n, c: a + b + s * n + c, first, st.text(byte_chars, max_size=5), st.sampled_from(SNIPS), st.sampled_from([1, 1, 2, 7]),
                               st.one_of(st.just(''), st.text(byte_chars, max_size=5))), st.just(''), st.builds(lambda a, b, c: a + b + c, first, st.text(byte_chars, max_size=12), st.text(st.sampled_from(SPECIAL), max_size=2)),
                     st.builds(lambda a, b: a + b, first, st.text(byte_chars, max_size=50)),
                     st.builds(lambda a, n: a * n, first, ints(1, 300)))


ascii_first = texts(first)
plain = st.one_of(ascii_first, ascii_first, texts(st.characters(min_codepoint=128, max_codepoint=255)))
token_chars = st.sampled_from([chr(i) for i in range(33, 127) if i not in wsp.SEPARATORS])
tokens = st.text(token_chars, min_size=1, max_size=40)
tails = st.binary(max_size=3).map(bytes.hex)


def is_plain(t):
    return t == '' or (' ' <= t[0] < '\x7f' or t[0] >= '\x80') and all('\0' < x <= '\xff' for x in t)


def trivial(t):
    return t.isalnum()


def check_text(w, c):
    t, tail = c[0], bytes.fromhex(c[1])
    want = wsp.text(t)
    eq(w.fn(E + 'text_string', {'s': t}), list(want), 'encode_text_string(%r)' % t)
    cases = [(d, b, t, tail) for d in ('decode_text_string', 'decode_uri_value')
             for b in (want, wsp.text(t, True))]
    cases += [('mms:decode_encoded_string_value', want, t, tail)]
    media = '' < t < '\x7f'
    if media:
        cases.append(('decode_extension_media', want, t, tail))
    wsp.many(w, cases)
    if media:
        eq(w.fn(E + 'extension_media', {'s': t}), list(want), 'encode_extension_media(%r)' % t)
    return not trivial(t)


wire_text = st.one_of(st.text(byte_chars, max_size=40), st.text(st.sampled_from(SPECIAL), max_size=4), st.builds(
    lambda a, b: a + b, st.characters(min_codepoint=128, max_codepoint=255), st.text(byte_chars, max_size=10)))


def check_quoted(w, c):
    t, tail = c[0], bytes.fromhex(c[1])
    cases = []
    if t[:1] != '\x7f':
        b = b'"' + wsp.l1(t) + b'\0'
        cases += [('decode_quoted_string', b, t, tail), ('decode_text_value', b, t, tail), ('decode_untyped_value', b, t, tail)]
    cases.append(('decode_text_string', wsp.text(t, True), t, tail))
    wsp.many(w, cases)
    return not trivial(t)


def check_token(w, c):
    t, tail = c[0], bytes.fromhex(c[1])
    want = wsp.l1(t) + b'\0'
    for k in ('token_text', 'text_value'):
        eq(w.fn(E + k, {'s': t}), list(want), 'encode_%s(%r)' % (k, t))
    wsp.many(w, [(d, want, t, tail) for d in ('decode_token_text', 'decode_text_value', 'decode_untyped_value')])
    return not trivial(t)


not_token = st.one_of(
    st.just(''), st.builds(lambda a, c, b: a + c + b, st.text(token_chars, max_size=6),
                           st.sampled_from([chr(i) for i in range(256) if not wsp.is_token(chr(i)) and i]), st.text(token_chars, max_size=6)))


def check_not_token(w, t):
    o = w.fn(E + 'token_text', {'s': t})
    need(isinstance(o, Exc) and o.isa('EncodeError'), 'encode_token_text(%r): %r instead of EncodeError', t, o)
    if t[:1] == '\x7f':
        return True
    want = wsp.text_value(t)
    eq(w.fn(E + 'text_value', {'s': t}), list(want), 'encode_text_value(%r)' % t)
    wsp.many(w, [('decode_text_value', want, t, b''), ('decode_text_value', want, t, b'\x01')])
    return True


def media_cases(tier):
    return [{'first': i} for i in range(0, 128)]


def check_media(w, c):
    """an extension media type is text that starts with a printable character"""
    for rest in ('', '/x', 'pplication/x.\xe9\x01'):
        t = chr(c['first']) + rest
        o = w.fn(E + 'extension_media', {'s': t})
        if 32 <= c['first'] < 127:
            eq(o, list(wsp.l1(t)) + [0], 'encode_extension_media(%r)' % t)
            wsp.many(w, [('decode_extension_media', bytes(o), t, b'\x81')])
        else:
            need(isinstance(o, Exc) and o.isa('EncodeError'), 'encode_extension_media(%r): %r instead of EncodeError', t, o)
    return 3


def version_cases(tier):
    for a in range(0, 12):
        yield {'major': a}


def check_versions(w, c):
    a = c['major']
    vs = ['%d' % a] + ['%d.%d' % (a, b) for b in range(0, 20)] + ['%d.%d.%d' % (a, 1, 2), '%d.x' % a, 'v%d' % a, '%d.' % a, '%d.100' % a]
    for v in vs:
        want = wsp.version(v)
        eq(w.fn(E + 'version_value', {'s': v}), list(want), 'encode_version_value(%r)' % v)
        wsp.many(w, [('decode_version_value', b, v, t) for b in (want,) for t in (b'', b'\x85')])
    if 1 <= a <= 7:
        for b in range(16):
            v = '%d' % a if b == 15 else '%d.%d' % (a, b)
            wsp.decoded(w, 'decode_version_value', bytes([0x80 | a << 4 | b]), v, b'\x31')
            wsp.decoded(w, 'decode_version_value', wsp.text(v), v, b'\x31')
    return len(vs)


text_version = st.builds(lambda a, b: a + b, first, st.text(first, max_size=12)).filter(
    lambda v: not any(ch.isdigit() for ch in v) or v.count('.') > 1)


def check_text_version(w, v):
    want = wsp.text(v)
    eq(w.fn(E + 'version_value', {'s': v}), list(want), 'encode_version_value(%r)' % v)
    wsp.decoded(w, 'decode_version_value', want, v, b'\x85')
    return True


def length_cases(tier):
    for n in [126, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000] + \
            ([16384, 32767, 32768, 65535, 65536, 65537] if tier == 'thorough' else []):
        for c in 'a~':
            yield {'n': n, 'c': c}


def check_length(w, c):
    """texts and tokens of that many characters, whose end is not like their start"""
    t = c['c'] * (c['n'] - 1) + 'z'
    check_text(w, [t, '61'])
    check_text(w, [t[:-1] + '\xe9', '84'])
    check_quoted(w, [t, '01'])
    check_token(w, [t if c['c'] == 'a' else t[:-2] + '-z', '00'])
    return 4


def check_piece(w, c):
    ts = [t for t in snips.texts(c)]
    for t in ts:
        if is_plain(t):
            check_text(w, [t, '81'])
        check_quoted(w, [t, '00'])
        if wsp.is_token(t):
            check_token(w, [t, '61'])
        else:
            check_not_token(w, t)
    return len(ts)


ASPECTS = [
    Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split),
    Enum('lengths', length_cases, check_length),
    Enum('extension_media', media_cases, check_media),
    Enum('versions', version_cases, check_versions),
    Search('text_versions', text_version, check_text_version, 200),
    Search('texts', st.tuples(plain, tails), check_text, 700),
    Search('near_texts', near.pairs(st.tuples(plain, tails), [(0,), (1,)], lambda c: is_plain(c[0]) and is_hex(c[1])), near.check(check_text), 400),
    Search('near_quoted', near.pairs(st.tuples(wire_text, tails), [(0,), (1,)], lambda c: all('\0' < x <= '\xff' for x in c[0]) and is_hex(c[1])),
           near.check(check_quoted), 300),
    Search('near_tokens', near.pairs(st.tuples(tokens, tails), [(0,), (1,)], lambda c: wsp.is_token(c[0]) and is_hex(c[1])), near.check(check_token), 200),
    Search('quoted', st.tuples(wire_text, tails), check_quoted, 600),
    Search('tokens', st.tuples(tokens, tails), check_token, 400),
    Search('not_tokens', not_token, check_not_token, 500),
]
