"""The presentation of a message"""
import itertools
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib import combos, near, scale, snips, wsp, compose as co
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = 'a message is non-trivial when its slides have at least two media, one of them with a begin or an end; every enumerated slide counts'
TAG = {'image': 'img', 'text': 'text', 'audio': 'audio'}


def check(w, c):
    fs = co.Files(w.scratch())
    ops = co.message_ops(c, fs)
    for i, d in c.get('durations', ()):
        if c['pages']:
            ops.append(['call', None, 'mp%d' % (i % len(c['pages'])), 'set_duration', [d]])
    ops += [['call', None, 'm', 'smil', []], ['get', 'm', 'data_parts']]
    out = w.script(ops)
    for op, o in zip(ops, out):
        ok(o, 'operation %r' % (op,))
    smil, parts = out[-2:]
    need(isinstance(smil, str), 'the presentation is %r', smil)
    check_smil(wsp.l1(smil), c)
    if c['pages']:
        eq(parts[0], smil, 'first data part of the message')
    n = sum(1 for p in c['pages'] for k in TAG if p[k])
    return n > 1 and any(p[k][1] > 0 or p[k][2] > 0 for p in c['pages'] for k in TAG if p[k])


def check_smil(octets, c):
    try:
        root = ET.fromstring(octets)
    except ET.ParseError as e:
        need(False, 'the presentation is not well-formed: %s\n%s', e, octets.decode('latin-1'))
    eq(root.tag, 'smil', 'root element')
    layout = root.findall('head/layout/root-layout')
    eq(len(layout), 1, 'number of root layouts')
    eq((layout[0].get('width'), layout[0].get('height')), (str(c['w'] or 176), str(c['h'] or 220)), 'width and height')
    eq(len(root.findall('body')), 1, 'number of bodies')
    pars = list(root.find('body'))
    eq([p.tag for p in pars], ['par'] * len(co.added(c, 'pages')), 'elements of the body')
    dur = [4000 if p['dur'] is None else p['dur'] for p in c['pages']]
    for i, d in c.get('durations', ()):
        if dur:
            dur[i % len(dur)] = d
    at = co.added(c, 'pages')
    for i, (par, p, d) in enumerate(zip(pars, co.message_pages(c), [dur[j] for j in at])):
        eq(par.get('duration') or par.get('dur'), str(d), 'duration of slide %d' % i)
        eq(sorted(e.tag for e in par), sorted(t for k, t in TAG.items() if p[k]), 'media of slide %d' % i)
        for k, t in TAG.items():
            if not p[k]:
                continue
            v, b, e = p[k]
            el = par.find(t)
            src = el.get('src')
            hs = co.medium_part(p, k)['headers']
            want = v if k == 'text' else hs.get('Content-Location') or hs['Content-ID']
            eq(src.encode('utf-8').decode('latin-1'), want, 'source of %s %d' % (k, i))
            if b > 0 or e > 0:
                want = (str(max(b, 0)), str(d if e <= 0 or e > d else e))
            else:
                want = (None, None)
            eq((el.get('begin'), el.get('end')), want, 'begin and end of %s %d (given %d, %d; duration %d)' % (k, i, b, e, d))


@st.composite
def slides(draw):
    c = draw(co.message(co.utf8, pages=4, parts=1))
    if not c['pages']:
        c['pages'] = [draw(co.page(co.utf8))]
    c['durations'] = draw(st.lists(st.tuples(ints(0, 5), ints(1, 6000)).map(list), max_size=2))
    return c


F = {'name': 'a & "b".jpg', 'hex': '00ff'}


def cases(tier):
    ts = [-1, 0, 1, 99, 100, 101]
    for b in ts:
        for e in ts:
            if e > 0 and e < b:
                continue
            yield {'b': b, 'e': e}
    for n in scale.ladder(1, 2**31 - 2):
        yield {'big': n}
    for n in (1, 2, 10, 11, 60, 99, 100, 101, 128, 255, 256, 257, 300):
        yield {'n': n}


def check_times(w, c):
    base = {'w': None, 'h': 333, 'headers': [], 'ct': None, 'parts': []}
    pages = []
    if 'big' in c:
        n = c['big']
        base.update(w=n, h=n + 1)
        for b, e in ((0, 0), (n - 1, n), (n, n), (n, n + 1), (1, n), (0, n), (n + 1, 0)):
            pages.append({'dur': n, 'image': [F, b, e], 'audio': [F, 0, e], 'text': ['t', b, 0]})
    elif 'n' in c:
        for i in range(c['n']):
            pages.append({'dur': i + 1, 'image': None, 'audio': None, 'text': ['page %d' % i, 0, 0]})
    else:
        for on in itertools.product((0, 1), repeat=3):
            p = {'dur': 100}
            for k, y in zip(('image', 'audio', 'text'), on):
                p[k] = [F if k != 'text' else 'say <"&\'>', c['b'], c['e']] if y else None
            pages.append(p)
    check(w, dict(base, pages=pages))
    return len(pages)


def combination_cases(tier):
    return combos.messages(tier, slides=(1, 2, 3))


def check_piece(w, c):
    """that text as text, as location and as part of a file name"""
    pages = []
    for t in snips.texts(c):
        t8 = t.encode('utf-8').decode('latin-1')
        if not co.is_xml(t8):
            continue
        f = {'name': t + '.gif', 'hex': '47'}
        f = f if co.fine_file(f) else F
        pages.append({'dur': None, 'image': [f, 0, 0], 'audio': [dict(F, name='s.mp3'), 0, 0], 'text': [t8, 0, 0],
                      'mh': {'audio': [['Content-Location', t8]] if len(pages) % 2 else [['Content-ID', t8], ['Content-Location', None]]}})
    if pages:
        check(w, {'w': None, 'h': None, 'headers': [], 'ct': None, 'parts': [], 'pages': pages})
    return 3 * len(pages) or False


ASPECTS = [Enum('pieces', snips.cases(snips.BMP), check_piece, snips.split), Enum('combinations', combination_cases, check), Enum('times', cases, check_times), Search('slides', slides(), check, 700),
           Search('neighbours', near.pairs(slides(), co.GROUPS, co.fine, co.FROZEN), near.check(check), 250)]
