"""GSM 03.38 codec"""
from hypothesis import strategies as st
from vlib import gen, gsm, near, snips
from vlib.gen import text_chars, gsm_chars, ints
from vlib.runner import Search, Enum
from vlib.sut import Exc, eq, need

RULE = ('a text is non-trivial when it is not empty and has an extension character, a character outside '
        'the alphabet, or a byte needing error handling; every enumerated code point, byte and escape pair counts')
NAME = {'s': 'gsm0338'}
MODES = ('strict', 'ignore', 'replace')


def check_encode(w, texts):
    args = [[{'u': t}, NAME, {'s': m}] for t in texts for m in MODES]
    out = w.map('W.encode', args)
    good = []
    for i, t in enumerate(texts):
        strict, ign, rep = out[3 * i:3 * i + 3]
        if gsm.is_gsm(t):
            want = gsm.encode(t).decode('latin-1')
            eq(strict, want, 'encoding %r' % t)
            eq(ign, want, 'encoding %r with ignore' % t)
            eq(rep, want, 'encoding %r with replace' % t)
            good.append(t)
        else:
            need(isinstance(strict, Exc) and strict.isa('UnicodeError'),
                 'strict encoding of %r gave %r instead of UnicodeError', t, strict)
            eq(ign, gsm.encode_lossy(t, 'ignore').decode('latin-1'), 'encoding %r with ignore' % t)
            eq(rep, gsm.encode_lossy(t, 'replace').decode('latin-1'), 'encoding %r with replace' % t)
    back = w.map('W.decode', [[{'hex': gsm.encode(t).hex()}, NAME, {'s': 'strict'}] for t in good])
    for t, b in zip(good, back):
        eq(b, t, 'decoding the septets of %r' % t)
    for t, r in zip(texts, w.map('gsm0338.is_gsm_text', [[{'u': t}] for t in texts])):
        need(r is gsm.is_gsm(t), 'is_gsm_text(%r) is %r', t, r)


def check_decode(w, datas):
    out = w.map('W.decode', [[{'hex': d.hex()}, NAME, {'s': m}] for d in datas for m in MODES])
    for i, d in enumerate(datas):
        for m, o in zip(MODES, out[3 * i:3 * i + 3]):
            try:
                want = gsm.decode(d, m)
            except UnicodeError:
                need(isinstance(o, Exc) and o.isa('UnicodeError'),
                     'strict decoding of %s gave %r instead of UnicodeError', d.hex(), o)
            else:
                eq(o, want, 'decoding %s with %s' % (d.hex(), m))


def bmp_cases(tier):
    for a in range(0, 0x10000, 1024):
        if not 0xd800 <= a < 0xe000:
            yield {'from': a, 'to': a + 1024}
    if tier == 'thorough':
        for a in range(0x10000, 0x110000, 8192):
            yield {'from': a, 'to': a + 8192, 'step': 7}


def check_bmp(w, c):
    cps = range(c['from'], c['to'], c.get('step', 1))
    check_encode(w, [chr(x) for x in cps])
    return len(cps)


def split_bmp(c):
    return [{'from': x, 'to': x + 1} for x in range(c['from'], c['to'], c.get('step', 1))]


def byte_cases(tier):
    for pre, post in (('', ''), ('61', '62'), ('1b3c', '1b')):
        yield {'pre': pre, 'post': post}


def check_bytes(w, c):
    datas = [bytes([b]) for b in range(256) if b != 0x1b or not c['post']] + [bytes([0x1b, b]) for b in range(128)]
    check_decode(w, [bytes.fromhex(c['pre']) + d + bytes.fromhex(c['post']) for d in datas])
    return len(datas)


def check_text(w, t):
    check_encode(w, [t])
    return any(ch not in gsm.ENCODE for ch in t)


@st.composite
def octets(draw):
    out = b''
    for _ in range(draw(ints(0, 24))):
        k = draw(ints(0, 9))
        if k < 5:
            out += bytes([draw(ints(0, 127).filter(lambda x: x != 0x1b))])
        elif k < 8:
            out += bytes([0x1b, draw(st.one_of(ints(0, 127), st.sampled_from(sorted(gsm.EXT_DECODE))))])
        else:
            out += bytes([draw(ints(128, 255))])
    return (out + draw(st.sampled_from([b'', b'', b'\x1b']))).hex()


def check_octets(w, h):
    d = bytes.fromhex(h)
    check_decode(w, [d])
    return 0x1b in d or any(b > 127 for b in d)


FAR = [255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 10000, 16384, 32768, 65535, 65536]


def far_cases(tier):
    for n in FAR:
        yield {'n': n}


def check_far(w, c):
    """one odd character far into the text, or the last one"""
    n = c['n']
    texts = ['a' * n, '€' * n] + ['ab' * (n // 2) + x + y for x in ('\u0416', '€', '\x1b', 'z') for y in ('', 'c' * 9)]
    check_encode(w, texts)
    check_decode(w, [b'a' * n + x + y for x in (b'\x1b\x65', b'\x80', b'\x1b', b'\0') for y in (b'', b'b' * 9) if x != b'\x1b' or not y])
    return len(texts)


def check_piece(w, c):
    ts = snips.texts(c)
    check_encode(w, ts)
    check_decode(w, [gsm.encode(t) for t in ts if gsm.is_gsm(t)] + [t.encode('latin-1') for t in ts if all(x <= '\xff' for x in t)])
    return len(ts)


ASPECTS = [
    Enum('pieces', snips.cases(snips.BMP), check_piece, snips.split),
    Enum('far', far_cases, check_far),
    Enum('code_points', bmp_cases, check_bmp, split_bmp),
    Enum('bytes', byte_cases, check_bytes),
    Search('texts', st.one_of(st.text(text_chars, max_size=40), st.text(gsm_chars, max_size=200)), check_text, 1600),
    Search('long_texts', st.one_of(gen.recipe('7', (160, 153), 8), gen.recipe('u', (70, 67), 8)).map(gen.build), check_text, 300),
    Search('octets', octets(), check_octets, 1600),
    Search('neighbours', near.pairs(st.one_of(st.text(text_chars, max_size=40), st.text(gsm_chars, max_size=200))), near.check(check_text), 600),
    Search('near_octets', near.pairs(octets(), fine=gen.is_hex), near.check(check_octets), 400),
]
