"""3GPP TS 23.038 default alphabet, written as the table of the standard
(columns of 16), and the septet packing of section 6.1.2.1."""

_COLS = ('@£$¥èéùìòÇ\nØø\rÅå'
         'Δ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ'
         ' !"#¤%&\'()*+,-./'
         '0123456789:;<=>?'
         '¡ABCDEFGHIJKLMNO'
         'PQRSTUVWXYZÄÖÑÜ§'
         '¿abcdefghijklmno'
         'pqrstuvwxyzäöñüà')
assert len(_COLS) == 128
ESC = 0x1b
DECODE = {i: c for i, c in enumerate(_COLS) if i != ESC}
ENCODE = {c: i for i, c in DECODE.items()}
EXT_DECODE = {0x0a: '\x0c', 0x14: '^', 0x28: '{', 0x29: '}', 0x2f: '\\', 0x3c: '[',
              0x3d: '~', 0x3e: ']', 0x40: '|', 0x65: '€'}
EXT_ENCODE = {c: i for i, c in EXT_DECODE.items()}
NBSP = '\xa0'
BASIC = ''.join(sorted(ENCODE))
EXT = ''.join(sorted(EXT_ENCODE))
ALPHABET = BASIC + EXT
# look-alikes for lossy encoding: what the Greek capitals and c-cedilla look like
LOOKALIKE = {'ç': 0x09}
LOOKALIKE.update({g: ord(l) for g, l in zip('ΑΒΕΗΙΚΜΝΟΡΤΧΥΖ', 'ABEHIKMNOPTXYZ')})


def is_gsm(text):
    return all(c in ENCODE or c in EXT_ENCODE for c in text)


def encode(text):
    out = bytearray()
    for c in text:
        if c in ENCODE:
            out.append(ENCODE[c])
        else:
            out += bytes((ESC, EXT_ENCODE[c]))
    return bytes(out)


def encode_lossy(text, errors):
    out = bytearray()
    for c in text:
        if c in ENCODE:
            out.append(ENCODE[c])
        elif c in EXT_ENCODE:
            out += bytes((ESC, EXT_ENCODE[c]))
        elif errors == 'replace':
            out.append(LOOKALIKE.get(c, ord('?')))
    return bytes(out)


def decode(septets, errors='strict'):
    out = []
    i = 0
    while i < len(septets):
        s = septets[i]
        i += 1
        if s == ESC:
            if i < len(septets):
                out.append(EXT_DECODE.get(septets[i], NBSP))
                i += 1
            else:
                out.append(NBSP)
        elif s in DECODE:
            out.append(DECODE[s])
        elif errors == 'strict':
            raise UnicodeError(s)
        elif errors == 'replace':
            out.append('?')
    return ''.join(out)


def pack(septets, fill=0):
    """septets -> octets, the first one at bit `fill`; a number of octets that
    just holds them"""
    v = 0
    for i, s in enumerate(septets):
        v |= s << (fill + 7 * i)
    bits = fill + 7 * len(septets)
    return v.to_bytes((bits + 7) // 8, 'little') if bits else b''


def unpack(octets, count, fill=0):
    v = int.from_bytes(octets, 'little')
    return bytes((v >> (fill + 7 * i)) & 0x7f for i in range(count))
