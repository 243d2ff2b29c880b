"""MMS messages composed of slides and attached parts.

A message is described by JSON:
  {'w', 'h', 'headers': [[name, value]...], 'ct': None or [media, params],
   'pages': [{'image': [FILE, begin, end] or None, 'audio': ..., 'text': [TEXT, begin, end] or None, 'dur': n or None,
             'mh': {medium: [[part header, value or None (deleted)]...]}}],
   'parts': [{'from': 'file', 'file': FILE} or {'from': 'data', 'hex', 'as', 'ct', 'params'} or {'from': 'text', 'text'}, each with
             'extra': [[header, value]...], 'before': a part whose content it had before]}
  'order': {'pages' or 'parts': [index...]} gives those that are added again, after each was added once.
FILE is {'name', 'hex', and perhaps 'at': where it is, from PLACES}.
"""
import os
from hypothesis import strategies as st
from vlib import wsp, mmsgen as mg
from vlib.gen import ints, is_hex
from vlib.props.c18 import plain, tokens, is_plain
from vlib.props.c19 import medias, params, params_arg, arg

# names whose type is the same on every system
TYPES = {'.gif': 'image/gif', '.png': 'image/png', '.jpg': 'image/jpeg', '.jpeg': 'image/jpeg', '.txt': 'text/plain',
         '.html': 'text/html', '.mp3': 'audio/mpeg', '.zzq': 'application/octet-stream', '': 'application/octet-stream'}
safe = st.text(st.sampled_from('abcXYZ0189-_ &<\'"#%;+,()~:?=@!$'), min_size=1, max_size=12).filter(lambda n: n.strip() == n)
extensions = st.sampled_from(sorted(TYPES)).flatmap(lambda e: st.sampled_from([e, e, e.upper()]))
some_names = st.one_of(st.builds(lambda a, e: a + e, safe, extensions), st.builds(lambda a, b, e: a + b + e, safe, st.sampled_from(
    ['.', '..', '.b', '.txt', '.mp3', '.1.2', '. x']), extensions), st.sampled_from(['.gif', '.a.jpg', '..png', 'a.']),
    st.builds(lambda a, n, e: a * n + e, st.sampled_from('aZ9_'), ints(90, 240), extensions))

# only those whose extension is above, or is a lone dot
file_names = some_names.filter(lambda n: os.path.splitext(n)[1].lower() in TYPES or n.endswith('.'))


def type_of(name):
    e = os.path.splitext(name)[1]
    return TYPES.get(e if e in TYPES else e.lower(), TYPES[''])


blobs = st.one_of(st.binary(max_size=20), st.binary(max_size=20).flatmap(
    lambda b: st.sampled_from([0, 1, 126, 127, 128, 129, 255, 256, 1000, 16383, 16384]).map(lambda n: (b * (n // len(b) + 1))[:n] if b else b'')))
hexblobs = blobs.map(bytes.hex)
PLACES = ['link', 'link', 'dir', './', 'd/../', 'a b/', 'x.gif/', 'y.mp3/', '~/', '%41/', 'a\\b/', '..a/', "it's/", '$HOME/', 'z.zzq/']
files = st.one_of(*[st.fixed_dictionaries({'name': file_names, 'hex': hexblobs})] * 4 + [st.fixed_dictionaries(
    {'name': file_names, 'hex': hexblobs, 'at': st.sampled_from(PLACES)})])
xml_text = st.text(st.one_of(st.sampled_from('aZ09 <>&"\'é€中\u00a0]'), st.characters(min_codepoint=0xa0, max_codepoint=0xfffd, exclude_categories=['Cs']),
                             st.characters(min_codepoint=32, max_codepoint=126)), max_size=30)
# native strings, as one character per byte
utf8 = xml_text.map(lambda t: t.encode('utf-8').decode('latin-1'))
some_text = st.one_of(utf8, st.text(st.characters(min_codepoint=0, max_codepoint=127), max_size=30))
ENDS = ['\0', '\0\0', '\n', '\r\n', '\r', ' ', '   ', '\t', '\x0c', '\x1a', '\x7f', '\xff', '\xa0', '\xef\xbb\xbf', '<', '&', '"']
any_text = st.one_of(some_text, some_text, st.builds(lambda t, e, n: t + e * n, some_text, st.sampled_from(ENDS), ints(1, 3)),
                     st.builds(lambda t, e, n: e * n + t, some_text, st.sampled_from(ENDS), ints(1, 3)))
times = st.one_of(st.just(0), ints(-5, 5000), ints(3990, 4010))


@st.composite
def span(draw):
    b, e = draw(times), draw(times)
    if e > 0 and e < b:
        b, e = e, b
    return [b, e]


@st.composite
def page(draw, text=any_text):
    p = {'dur': draw(st.one_of(st.none(), ints(1, 9000)))}
    for k in ('image', 'audio', 'text'):
        p[k] = None
        if draw(st.booleans()):
            p[k] = [draw(text if k == 'text' else files)] + draw(span())
            if draw(ints(0, 4)) == 4:
                names = st.sampled_from(['Content-ID', 'Content-ID', 'Content-Location', 'X-Part', 'Server'])
                hs = [[n, draw(safe)] for n in draw(st.lists(names, min_size=1, max_size=2, unique=True))]
                if k != 'text' and hs[0][0] == 'Content-ID' and draw(st.booleans()):
                    hs = [h for h in hs if h[0] != 'Content-Location'] + [['Content-Location', None]]
                p.setdefault('mh', {})[k] = hs
    return p


EXTRA = [n for n in mg.TEXT_HEADERS] + ['Content-Location', 'Content-Location', 'Content-ID']


@st.composite
def extra(draw):
    names = draw(st.lists(st.one_of(st.sampled_from(EXTRA), mg.APP_NAMES), max_size=3, unique=True))
    return [[n, draw(plain)] for n in names]


@st.composite
def part(draw, nested=True):
    k = draw(st.sampled_from(['file', 'data', 'data', 'text']))
    p = {'from': k, 'extra': draw(extra()) if draw(st.booleans()) else []}
    if k == 'file':
        p['file'] = draw(files)
    elif k == 'text':
        p['text'] = draw(st.one_of(plain, any_text))
    else:
        p.update({'hex': draw(hexblobs), 'as': draw(st.sampled_from(['hex', 'arr'])), 'ct': draw(medias), 'params': draw(params())})
    if nested and draw(ints(0, 3)) == 3:
        p['before'] = draw(part(nested=False))
    return p


headers = st.lists(st.tuples(st.sampled_from(['To', 'Cc', 'Subject', 'X-Foo', 'Message-ID', 'From']), plain.filter(bool)), max_size=3,
                   unique_by=lambda x: x[0]).map(lambda l: [list(x) for x in l])


orders = st.one_of(st.just({}), st.just({}), st.dictionaries(st.sampled_from(['pages', 'parts']), st.lists(ints(0, 3), max_size=3)))


def added(c, k):
    """indexes of the pages or parts, in the order in which they are added"""
    if 'added' in c:
        return c['added'][k]
    n = len(c[k])
    o = list(range(n))
    return o + [i % n for i in c.get('order', {}).get(k, ())] if n else o


def message_pages(c):
    return [c['pages'][i] for i in added(c, 'pages')]


@st.composite
def message(draw, text=any_text, pages=3, parts=3):
    return {'w': draw(st.one_of(st.none(), ints(1, 2000))), 'h': draw(st.one_of(st.none(), ints(1, 2000))), 'headers': draw(headers),
            'ct': draw(st.one_of(st.none(), st.none(), st.tuples(medias, params()).map(list))),
            'pages': draw(st.lists(page(text), max_size=pages)), 'parts': draw(st.lists(part(), max_size=parts)), 'order': draw(orders)}


class Files(object):
    """writes the files of cases into a scratch directory"""
    def __init__(self, d):
        self.d, self.n, self.done = d, 0, {}

    def path(self, f):
        k = (f['name'], f['hex'], f.get('at'))
        if k not in self.done:
            self.n += 1
            sub = os.path.join(self.d, str(self.n))
            os.mkdir(sub)
            at = f.get('at', '')
            if at.endswith('/'):
                for x in at.split('/'):
                    if x not in ('.', '..', ''):
                        os.mkdir(os.path.join(sub, x))
                sub += '/' + at[:-1]
            p = real = sub + '/' + f['name']
            if at in ('link', 'dir'):
                # the file, or the directory it is in, is a symbolic link to one of another name
                other = os.path.join(self.d, 'other%d.jpg' % self.n)
                if at == 'link':
                    os.symlink(other, p)
                    real = other
                else:
                    os.rename(sub, other)
                    os.symlink(other, sub)
            with open(real, 'wb') as o:
                o.write(bytes.fromhex(f['hex']))
            self.done[k] = p
        return self.done[k]


def setitem(dst, k, v):
    return ['fn', None, 'W.setitem', [{'ref': dst}, {'s': k}, v]]


def ct_arg(ct):
    return {'t': [{'s': ct[0]}, params_arg(ct[1])]}


def add_medium(o, kind, m, fs):
    v, b, e = m
    return ['call', None, o, 'add_' + kind, [{'s': v if kind == 'text' else fs.path(v)}, b, e]]


def page_ops(o, p, fs):
    r = [['new', o, 'message.MMSMessagePage', []]]
    if p['dur'] is not None:
        r.append(['call', None, o, 'set_duration', [p['dur']]])
    for k in ('image', 'audio', 'text'):
        if p[k]:
            r.append(add_medium(o, k, p[k], fs))
            r += [['fn', None, 'W.medium_header', [{'ref': o}, {'s': k}, {'s': n}, None if v is None else {'s': v}]]
                  for n, v in p.get('mh', {}).get(k, ())]
    return r


def set_part(o, p, fs):
    """operations that give an existing part its content"""
    r = []
    if p.get('before'):
        r += set_part(o, p['before'], fs)
        if p['before']['extra']:
            r.append(['get', o, 'data'])        # the content has been read
    if p['from'] == 'file':
        r.append(['call', None, o, 'from_file', [{'s': fs.path(p['file'])}]])
    elif p['from'] == 'text':
        r.append(['call', None, o, 'set_text', [{'s': p['text']}]])
    else:
        a = [{p['as']: p['hex']}, {'s': p['ct']}]
        if p['params']:
            a.append(params_arg(p['params']))
        r.append(['call', None, o, 'set_data', a])
    if p['extra']:
        r.append(['get', o, 'headers', o + 'h'])
        r += [setitem(o + 'h', k, {'s': v}) for k, v in p['extra']]
    return r


def part_ops(o, p, fs):
    return [['new', o, 'message.DataPart', []]] + set_part(o, p, fs)


def message_ops(c, fs, o='m'):
    r = [['new', o, 'message.MMSMessage', []], ['get', o, 'headers', o + 'H']]
    for k, a in (('w', 'width'), ('h', 'height')):
        if c[k] is not None:
            r.append(['set', o, a, c[k]])
    r += [['fn', None, 'W.delitem', [{'ref': o + 'H'}, {'s': k}]] for k in c.get('del', ())]
    r += [setitem(o + 'H', k, arg(v)) for k, v in c['headers']]
    for k, x, make, add in (('pages', 'p', page_ops, 'add_page'), ('parts', 'd', part_ops, 'add_data_part')):
        made = set()
        for i in added(c, k):
            q = '%s%s%d' % (o, x, i)
            if i not in made:
                made.add(i)
                r += make(q, c[k][i], fs)
            r.append(['call', None, o, add, [{'ref': q}]])
    if c['ct']:
        r.append(setitem(o + 'H', 'Content-Type', ct_arg(c['ct'])))
    return r


def file_part(f):
    return {'data': bytes.fromhex(f['hex']), 'ct': (type_of(f['name']), {}), 'headers': {'Content-Location': f['name']}}


def text_part(t):
    return {'data': wsp.l1(t), 'ct': ('text/plain', {}), 'headers': {}}


def medium_part(p, k):
    m = text_part(p[k][0]) if k == 'text' else file_part(p[k][0])
    for n, v in p.get('mh', {}).get(k, ()):
        if v is None:
            m['headers'].pop(n, None)
        else:
            m['headers'][n] = v
    return m


def part_model(p):
    if p['from'] == 'file':
        m = file_part(p['file'])
    elif p['from'] == 'text':
        m = text_part(p['text'])
    else:
        m = {'data': bytes.fromhex(p['hex']), 'ct': (p['ct'], dict(map(tuple, p['params']))), 'headers': {}}
    m['headers'] = dict(m['headers'], **dict(map(tuple, p['extra'])))
    return m


def parts_model(c):
    """the parts after the presentation, in order"""
    out = []
    for p in message_pages(c):
        for k in ('image', 'audio', 'text'):
            if p[k]:
                out.append(medium_part(p, k))
    return out + [part_model(c['parts'][i]) for i in added(c, 'parts')]


def message_ct(c):
    if c['ct']:
        return (c['ct'][0], dict(map(tuple, c['ct'][1])))
    return ('application/vnd.wap.multipart.' + ('related' if c['pages'] else 'mixed'), {})


def canonical(octets):
    """what the octets say, whatever the order of headers and parameters"""
    fields, m, p, parts = wsp.read_mms(octets)
    return (fields[:3], sorted(fields[3:]), m, sorted(p), [(a, sorted(b), sorted(h), d) for a, b, h, d in parts])


# -- messages altered a little -------------------------------------------------
GROUPS = [('w',), ('h',), ('headers',), ('ct',), ('pages', 'order', 'durations'), ('parts', 'order')]
FROZEN = ('at', 'order', 'from', 'as', 'ct', 'params', 'before', 'extra', 'headers', 'mh', 'durations', 'to')


def is_utf8(t):
    try:
        t.encode('latin-1').decode('utf-8')
    except UnicodeError:
        return False
    return True


def fine_file(f):
    n = f['name']
    e = os.path.splitext(n)[1]
    return bool(n) and len(n) < 250 and n.strip() == n and n not in ('.', '..') and '/' not in n and '\0' not in n and n.isascii() and \
        (e.lower() in TYPES or n.endswith('.')) and is_hex(f['hex'])


def fine(c):
    """is an altered message one that can be composed?"""
    if any(c[k] is not None and c[k] < 1 for k in ('w', 'h')):
        return False
    for p in c['pages']:
        if p['dur'] is not None and p['dur'] < 1:
            return False
        for k in ('image', 'audio', 'text'):
            if p[k]:
                v, b, e = p[k]
                if e > 0 and e < b or not (is_xml(v) if k == 'text' else fine_file(v)):
                    return False
    for p in c['parts']:
        if p['from'] == 'file' and not fine_file(p['file']) or p['from'] == 'text' and not is_plain(p['text']) or 'hex' in p and not is_hex(p['hex']):
            return False
    return True


def is_xml(t):
    """only characters that a presentation can hold"""
    return is_utf8(t) and all(' ' <= x and not '\x7f' <= x <= '\x9f' and x not in '\ufffe\uffff' for x in t.encode('latin-1').decode('utf-8'))
