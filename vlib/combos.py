"""Messages in which every combination of a few of their attributes occurs."""
import random

from vlib import gsm, sms
from vlib.cover import rows
from vlib.gen import DCS, FMT

STRENGTH = {'quick': 3, 'thorough': 4}
SEEDS = {'quick': 1, 'thorough': 4}
DAY, WEEK = 86400, 7 * 86400

NUMBERS = ['123', '+34600123456', '+346001234', '900', '1234567890', '+12345678901234567890', '0012345678901234567']
CSCAS = [None, '', '+34600000000', '346', '+3460', '12345678901234567890']
VALIDITIES = [None, ['td', 300, 0], ['td', 43200, 1], ['td', 43201, 0], ['td', DAY, 0], ['td', 3 * DAY, 999999],
              ['td', 30 * DAY, 0], ['td', 63 * WEEK, 0],
              ['dt', [2009, 1, 2, 3, 4, 5], None, 'plain'], ['dt', [2012, 2, 29, 23, 59, 59], 8, 'fixed'],
              ['dt', [2068, 12, 31, 0, 0, 0], -14, 'vary'], ['dt', [2000, 1, 1, 0, 0, 0], 0, 'fixed'],
              ['dt', [2010, 10, 10, 10, 10, 10], 56, 'plain']]


def text_of(spec):
    """the text that a choice such as ('7', 160, 'ext') names"""
    alpha, n, how = spec
    if alpha == '7':
        base = 'Hola, ma\u00f1ana @ las 8:00\n\u00a1adi\u00f3s! \u0394'.replace('\u00f3', '\u00f2')
        t = (base * (n // len(base) + 1))[:n]
        if how == 'ext' and n > 1:
            t = t[:n - 2] + '\u20ac'        # the escape takes the last two septets
        elif how == 'edge' and n > 153:
            t = t[:152] + '{' + t[154:]     # an escape that would be cut by the end of the first part
        elif how == 'at' and n:
            t = t[:-1] + '@'
        return t
    if alpha == '8':
        t = ''.join(chr(i * 7 % 256) for i in range(n))
        return t[:-1] + {'nul': '\0', 'ext': '\xff'}[how] if how and n else t
    t = ('\u0416\u4e2d\u00e1a' * (n // 4 + 1))[:n]
    return t[:-1] + '\u3000' if how == 'ext' and n else t


SINGLE = [('7', 0, ''), ('7', 1, ''), ('7', 7, 'at'), ('7', 8, 'at'), ('7', 9, 'ext'), ('7', 159, ''), ('7', 160, ''),
          ('7', 160, 'ext'), ('8', 0, ''), ('8', 1, ''), ('8', 139, 'nul'), ('8', 140, 'ext'), ('u', 1, ''), ('u', 69, ''),
          ('u', 70, 'ext')]
MULTI = [('7', 161, ''), ('7', 161, 'ext'), ('7', 200, 'edge'), ('7', 306, ''), ('7', 306, 'ext'), ('7', 307, 'edge'), ('7', 459, 'at'),
         ('8', 141, ''), ('8', 268, 'nul'), ('8', 269, ''), ('u', 71, ''), ('u', 134, 'ext'), ('u', 135, ''), ('u', 201, '')]


def submits(tier, texts, fixed=False):
    dims = {'number': NUMBERS, 'csca': CSCAS, 'klass': [None, 0, 1, 2, 3], 'validity': VALIDITIES, 'srr': [False, True],
            'ref': [0, 1, 255, 256] if fixed else [None, 0, 1, 255, 256, 70001],
            'rand_id': [0, 7, 255] if fixed else [None, 0, 7, 255, 256],
            'pid': [0, 1, 0x40, 0xff], 'text': texts, 'explicit': [False, True], 'native': [False, True]}
    for r in rows(dims, STRENGTH[tier]):
        spec = r.pop('text')
        r['text'] = text_of(spec)
        explicit = r.pop('explicit')
        r['fmt'] = FMT[spec[0]] if explicit or spec[0] == '8' else None
        yield r


ADDRESSES = [['346001', 1, 1], ['34600', 1, 1], ['123456', 0, 1], ['1', 0, 0], ['12', 2, 1], ['12345678901234567890', 1, 1],
             ['1234567890123456789', 3, 9], ['0', 6, 15], ['900', 7, 1]]
NAMES = ['a', 'Vodafone', 'seven@7', 'abcdefgh', '\u20acuro', 'ElevenChars', 'end  ']
STAMPS = [[2012, 2, 29, 23, 59, 58, -5], [2000, 1, 1, 0, 0, 0, 0], [2068, 12, 31, 23, 59, 59, 8], [2009, 3, 1, 0, 10, 0, -40],
          [2010, 12, 31, 23, 0, 59, -79], [2011, 1, 1, 0, 30, 1, 79], [2005, 10, 20, 12, 0, 0, 56]]
UDHS = {'none': None, 'empty': [], 'c8': [[0, '070201']], 'c8z': [[0, '000000']], 'c16': [[8, '01070302']], 'p8': [[4, '1122']],
        'p16': [[5, '0b8423f0']], 'c8p16': [[0, 'ff0201'], [5, '0b8423f0']], 'p16c8': [[5, '0b8423f0'], [0, 'ff0201']],
        'c16p8': [[8, 'ffff0302'], [4, '0000']], 'other': [[0x70, '']], 'other1': [[0x24, 'a5']], 'otherc8': [[0x0a, '000102'], [0, '800302']],
        'long': [[0x25, 'a5' * 40], [0, '010202']]}
LENGTHS = ['0', '1', '7', '8', 'half', 'full-1', 'full']


def delivers(tier, trailing=True, headers=None):
    heads = headers or sorted(UDHS)
    senders = ADDRESSES + [['', 0, 1]]
    dims = {'smsc': [None] + ADDRESSES, 'first': [0x00, 0x04, 0x24, 0x80, 0xac], 'oa': [['oa', i] for i in range(len(senders))] +
            [['name', i] for i in range(len(NAMES))], 'pid': [0, 1, 0x41, 0x80, 0xff], 'coding': ['7', '8', 'u'], 'group': list(range(6)),
            'scts': STAMPS, 'udh': heads, 'length': LENGTHS, 'kind': [0, 1, 2], 'trail': ['', '00', 'ff1b0041'] if trailing else ['']}
    for i, r in enumerate(rows(dims, STRENGTH[tier])):
        al = r.pop('coding')
        r['alpha'] = al
        g = DCS[al]
        r['dcs'] = g[(r.pop('group') * 5 + i // 7 % 5) % len(g)]
        k, j = r.pop('oa')
        if k == 'name':
            r['alnum'], r['plan'] = NAMES[j], i % 3
        else:
            r['oa'] = senders[j]
        r['udh'] = UDHS[r['udh']]
        head = 0 if r['udh'] is None else 1 + sum(2 + len(d) // 2 for _, d in r['udh'])
        room = 140 - head
        cap = (room * 8 - (-(8 * head) % 7)) // 7 if al == '7' else room if al == '8' else room // 2
        n = {'0': 0, '1': 1, '7': 7, '8': 8, 'half': cap // 2, 'full-1': cap - 1, 'full': cap}[r.pop('length')]
        kind = r.pop('kind')
        rnd = random.Random(i)
        if al == 'u':
            t = (['plain text', '\u0416\u4e2d\u00e1 ', '\u3000\ufeff\u00a0\0'][kind] * n)[:n]
            r['payload'] = t
        elif al == '8':
            r['payload'] = [bytes(n), bytes(rnd.randrange(256) for _ in range(n)), b'\xff\x00\x1b\x80'.ljust(n, b'a')[:n]][kind].hex()
        else:
            r['payload'] = [bytes(n), bytes(rnd.choice(b'aZ 09\x01\x1f\x7f') for _ in range(n)), (b'\x1b\x65a' * n)[:n]][kind].hex()
        yield r


VALID = ['01302141301480', '01302141301400', '90010100000008', '99213132959544', '0012319595958b', '10101010101021']
INVALID = ['99999999999999', '00000000000000', '013021413014ff', 'ffffffffffffff', '01132141301480', '0130214130a480']


def reports(tier):
    from vlib import gen
    dims = {'smsc': [None] + ADDRESSES, 'first': [0x02, 0x06, 0x26, 0x22, 0x0e], 'mr': [0, 1, 127, 128, 255],
            'ra': ADDRESSES, 'scts': VALID + INVALID, 'dt': VALID + INVALID,
            'status': [None, 0, 1, 2, 0x10, 0x20, 0x30, 0x31, 0x40, 0x7f, 0x80, 0xff], 'trail': ['', '00', '0011223344']}
    for r in rows(dims, STRENGTH[tier]):
        if r['status'] is None:
            r['trail'] = ''
        yield r


# -- multimedia messages -----------------------------------------------------
SPANS = [[0, 0], [0, 1], [1, 0], [5, 5], [-1, 20], [20, -1], [100, 100], [100, 101], [101, 0], [3999, 4001], [200, 5000]]


def image(name='a & "b".jpg'):
    return {'name': name, 'hex': '00ff1a0d0a'}


FILES = {'image': [image(), image('x.GIF'), {'name': 'empty.png', 'hex': ''}],
         'audio': [image('s.mp3'), image('none'), {'name': 'big.mp3', 'hex': 'a5' * 130}],
         'text': ['plain', 'say <"&\'>', '', '\xc3\xa9\xe2\x82\xac', 'x' * 130]}
PARTS = [None,
         {'from': 'data', 'hex': '', 'as': 'hex', 'ct': 'image/gif', 'params': [], 'extra': []},
         {'from': 'data', 'hex': '00ff00', 'as': 'arr', 'ct': 'a/b', 'params': [['Name', 'n'], ['p', 5]], 'extra': [['X-A', 'v'], ['Content-ID', '<0000>']]},
         {'from': 'data', 'hex': '61' * 128, 'as': 'hex', 'ct': 'application/smil', 'params': [['Type', 'a/b']], 'extra': [['Content-Location', 'l']]},
         {'from': 'text', 'text': 'some text', 'extra': []},
         {'from': 'text', 'text': '', 'extra': [['Server', 's']]},
         {'from': 'file', 'file': image('att.jpg'), 'extra': []},
         {'from': 'file', 'file': image('f.txt'), 'extra': [['Content-Location', 'other'], ['x', 'y']]},
         {'from': 'text', 'text': 'new', 'extra': [], 'before': {'from': 'file', 'file': image('old.jpg'), 'extra': [['X-A', 'v']]}}]
CTS = [None, ['application/vnd.wap.multipart.related', [['Type', 'application/smil'], ['Start', '<0000>']]],
       ['application/vnd.wap.multipart.mixed', []], ['a/b', [['p', 'v'], ['Name', 'n']]]]


def messages(tier, slides=(0, 1, 2, 3)):
    """composed messages: the media of two slides, their times, attached parts"""
    dims = {'w': [None, 1, 176, 640], 'h': [None, 1, 220, 480], 'slides': list(slides), 'ct': list(range(len(CTS))),
            'order': [0, 1, 2], 'part1': list(range(len(PARTS))), 'part2': list(range(len(PARTS))),
            'to': [0, 1], 'subject': [0, 1]}
    for i in (1, 2):
        dims['dur%d' % i] = [None, 1, 100, 4000]
        for k in ('image', 'audio', 'text'):
            dims['%s%d' % (k, i)] = [0, 1, 2]
            dims['%s%dat' % (k, i)] = list(range(len(SPANS)))
    for n, r in enumerate(r for seed in range(SEEDS[tier]) for r in rows(dims, 3, seed)):
        pages = []
        for i in (1, 2):
            p = {'dur': r['dur%d' % i]}
            for k in ('image', 'audio', 'text'):
                p[k] = None
                x = r['%s%d' % (k, i)]
                if x:
                    p[k] = [FILES[k][(n + x) % len(FILES[k])]] + SPANS[r['%s%dat' % (k, i)]]
            pages.append(p)
        pages = (pages + [dict(pages[0])])[:r['slides']]
        order = {}
        if r['order'] and pages:
            order['pages'] = [0] if r['order'] == 1 else [len(pages) - 1, 0]
        c = {'w': r['w'], 'h': r['h'], 'headers': [['To', '+1/TYPE=PLMN']] * r['to'] + [['Subject', 's']] * r['subject'],
             'ct': CTS[r['ct']], 'pages': pages, 'parts': [PARTS[r[k]] for k in ('part1', 'part2') if r[k]], 'order': order}
        if r['order'] == 2 and c['parts']:
            c['order']['parts'] = [0]
        yield c


HEADER_VALUES = {'To': ['+34600123456/TYPE=PLMN', 'a@b.c', '\xe9'], 'Cc': ['+1', ''], 'Bcc': ['+2', ''], 'Subject': ['s', 'two words', '', '\xe9\xe8', '"q'],
                 'Response-Text': ['r', ''], 'Message-ID': ['<1@x>', 'm' * 31], 'From': ['', '+3/TYPE=PLMN', '\xff@x', 'f' * 40],
                 'Message-Size': [1, 127, 128, 65536, 2**31 - 1], 'Status': ['Expired', 'Retrieved', 'Unrecognised'],
                 'X-Foo': ['v', ''], 'subject': ['lower'], 'Content-Typ': ['a/b']}
DEFAULTED = {'Message-Type': [None, 'del'] + ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind', 'm-retrieve-conf',
                                            'm-acknowledge-ind', 'm-delivery-ind'],
             'Transaction-Id': [None, 'del', 't', '', '\xe9'], 'MMS-Version': [None, 'del', '1.0', '1.2', '7.14', '2', '1.15'],
             'X-Mms-Message-Type': [None, 'm-send-req', 'm-retrieve-conf', 'm-delivery-ind'], 'X-Mms-Transaction-Id': [None, 'alias'],
             'X-Mms-Version': [None, '1.1', '1.2.3']}


def mms_headers(tier):
    """headers of a message to be encoded"""
    dims = {k: [None] + list(range(len(v))) for k, v in HEADER_VALUES.items()}
    dims.update({k: list(range(len(v))) for k, v in DEFAULTED.items()})
    dims['ct'] = [None, 0, 1, 2, 3]
    for i, r in enumerate(rows(dims, STRENGTH[tier])):
        c = {'set': [], 'del': [], 'ct': None if not r['ct'] else CTS[r['ct']]}
        for k in DEFAULTED:
            v = DEFAULTED[k][r[k]]
            if v == 'del':
                c['del'].append(k)
            elif v is not None:
                c['set'].append([k, v])
        for k in HEADER_VALUES:
            if r[k] is not None:
                c['set'].append([k, HEADER_VALUES[k][r[k]]])
        random.Random(i).shuffle(c['set'])
        yield c


def pushes(tier, fields):
    """a push: transaction identifier, push headers, padding of their length, the fields of the message and its body"""
    dims = {'tid': [0, 1, 6, 127, 128, 255], 'n': [0, 1, 31, 127, 128, 129, 300], 'fill': ['00', '06', '80', 'ff', '8c8498', '7f41'],
            'pad': [0, 1, 3], 'from': [0, 1, 2], 'at': [0, 1, 2], 'type': list(range(8)), 'body': [0, 1, 2], 'ct': [0, 1, 2, 3],
            'first': [0, 1]}
    froms = [None] + [f for f in fields if f[0] == 'From'][::5][:2]
    ats = [None] + [f for f in fields if f[0] == 'Content-Location'][::4][:2]
    cts = [('84a3', ['application/vnd.wap.multipart.mixed', []]), ('84b3', ['application/vnd.wap.multipart.related', []]),
           ('8404612f6200', ['a/b', []]), ('84058c85' + '6e6d00', None)]
    cts[3] = ('8405b3' + '856e6d00', ['application/vnd.wap.multipart.related', [['Name', 'nm']]])
    for r in rows(dims, STRENGTH[tier] + 1):
        hs = [x for x in (froms[r['from']], ats[r['at']]) if x]
        if r['first']:
            hs = hs[::-1]
        b, want = b'', []
        if r['type'] < 7:
            b, want = bytes([0x8c, 0x80 | r['type']]), [['Message-Type', ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind',
                                                        'm-retrieve-conf', 'm-acknowledge-ind', 'm-delivery-ind'][r['type']]]]
        for n, o, v in hs:
            b += o
            want.append([n, v])
        o, ct = cts[r['ct']]
        b += bytes.fromhex(o) + [b'', b'\x00', b'\x01\x01\x03\x9dabc'][r['body']]
        fill = bytes.fromhex(r['fill'])
        yield {'tid': r['tid'], 'headers': (fill * (r['n'] // len(fill) + 1))[:r['n']].hex(), 'pad': r['pad'], 'body': b.hex(), 'want': want, 'ct': ct}
