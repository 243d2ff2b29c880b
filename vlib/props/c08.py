"""Attribute validation of SmsSubmit"""
from hypothesis import strategies as st
from vlib import snips, submit
from vlib.gen import ints, number, digits, validity, validity_arg, zone_minutes, history as many
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc, DT, TD

RULE = 'a history is non-trivial when it has an accepted and a refused assignment'

odd_number = st.one_of(
    digits(0, 2).filter(bool), digits(21, 40), st.just('+'), digits(0, 2).map('+'.__add__), digits(21, 25).map('+'.__add__),
    st.builds(lambda a, c, b: a + c + b, digits(1, 5),
              st.sampled_from([' ', '+', '-', 'a', 'F', '*', '#', '.', '\t', '(', '²', '٣', 'é', '\x00', '０', 'x']), digits(1, 5)),
    st.builds(lambda c, b: c + b, st.sampled_from([' ', '++', '-', 'a', '*', '#', '\t', '\n', '00+', '٣']), digits(3, 12)),
    st.builds(lambda b, c: b + c, digits(3, 12), st.sampled_from([' ', '+', 'a', 'F', '\t', '\n', '\n', '\r', '\x00', '٣'])),
    digits(20, 21).map(lambda t: t + '\n'))


def ok_number(t):
    if not t:
        return True
    d = t[1:] if t[0] == '+' else t
    return 3 <= len(d) <= 20 and all('0' <= c <= '9' for c in d)


numbers = st.one_of(number(), number(), odd_number, st.none(), st.just(''),
                    st.text(st.sampled_from('+0123456789 a-'), max_size=24))
klasses = st.one_of(ints(0, 3), ints(-5, 10), st.sampled_from([255, 256, -1, 4, 2**31 - 1, -2**31]),
                    st.sampled_from([None, {'s': '1'}, {'u': '0'}, {'f': '1.0'}, [], [1], {'f': '0.0'}, {'dict': []}, {'obj': 0}, {'f': '3.0'}, {'t': [1]}, {'s': ''}, {'s': '3'}]))
validities = st.one_of(validity().map(lambda v: ['v', v]), st.tuples(ints(-10**6, 10**6), ints(0, 86399)).map(lambda t: ['td', list(t)]),
                       st.sampled_from([0, 1, 170, {'s': ''}, {'s': '2010'}, {'f': '1.5'}, [], {'dict': []}, {'obj': 0},
                                        {'date': [2011, 3, 4]}, {'time': [1, 2, 3]}, {'tzinfo': 60}, {'t': [1, 2]}, {'s': '1 day'}, {'u': '5'}, {'long': 5},
                                        {'f': '86400.0'}, False, True]).map(lambda v: ['x', v]))
step = st.one_of(st.tuples(st.sampled_from(['number', 'csca']), numbers, st.booleans()),
                 st.tuples(st.sampled_from(['number', 'csca']), numbers, st.booleans()),
                 st.tuples(st.just('klass'), klasses, st.just(False)),
                 st.tuples(st.just('validity'), validities, st.just(False)),
                 st.tuples(st.just('encode'), st.none(), st.just(False)))
history = st.tuples(number(), many(step))


def native(v, flag):
    if v is None:
        return None
    return {'s': v} if flag and all(ord(c) < 256 for c in v) else {'u': v}


def shape(v):
    """model of a stored validity"""
    if v is None:
        return None
    if 'td' in v:
        x = v['td']
        return TD(x if len(x) == 3 else x + [0])
    x = v['dt']
    z = x[7]
    off = None if z is None else zone_minutes(z) * 60
    return DT(x[:7] + ([] if off is None else [off]))


def judge(step):
    """-> (argument, None if accepted, otherwise the exceptions allowed), stored value"""
    k, v, flag = step
    if k in ('number', 'csca'):
        return native(v, flag), None if ok_number(v) else 'ValueError', v
    if k == 'klass':
        if not isinstance(v, int):
            return v, 'TypeError', v
        return v, None if 0 <= v <= 3 else 'ValueError', v
    kind, x = v
    if kind == 'v':
        a = validity_arg(x)
        return a, None, shape(a)
    if kind == 'td':
        a = {'td': x + [0]}
        return a, None, shape(a)
    return x, 'TypeError', None


GETS = ('number', 'csca', 'klass', 'validity')


def check(w, c):
    first, steps = c
    script = [['new', 'm', 'SmsSubmit', [{'s': first}, {'u': 'hola'}]], ['set', 'm', 'rand_id', 5], ['set', 'm', 'ref', 9]]
    model = {'number': first, 'csca': None, 'klass': None, 'validity': None}
    args = {'number': {'s': first}}
    plan = [None] * 3
    acc = ref = 0
    for s in steps:
        if s[0] == 'encode':
            script.append(['call', None, 'm', 'to_pdu', []])
            plan.append(('any',))
            continue
        a, bad, stored = judge(s)
        script.append(['set', 'm', s[0], a])
        plan.append(('set', s, bad))
        if bad is None:
            model[s[0]] = stored
            args[s[0]] = a
            acc += 1
        else:
            ref += 1
        for g in GETS:
            script.append(['get', 'm', g])
            plan.append(('get', s, g, model[g]))
    script.append(['call', None, 'm', 'to_pdu', []])
    plan.append(('any',))
    fresh = [['new', 'f', 'SmsSubmit', [args['number'], {'u': 'hola'}]], ['set', 'f', 'rand_id', 5], ['set', 'f', 'ref', 9]]
    for k in ('csca', 'klass', 'validity'):
        if k in args:
            fresh.append(['set', 'f', k, args[k]])
    out = w.script(script + fresh + [['call', None, 'f', 'to_pdu', []]])
    for p, o in zip(plan, out):
        if p is None:
            ok(o, 'construction')
        elif p[0] == 'set':
            _, (k, v, _f), bad = p
            if bad is None:
                ok(o, 'assigning %s = %r' % (k, v))
            else:
                need(isinstance(o, Exc) and o.isa(bad), 'assigning %s = %r: %r instead of %s', k, v, o, bad)
        elif p[0] == 'get':
            eq(o, p[3], 'attribute %s after assigning %r' % (p[2], p[1]))
    n = len(plan)
    for o in out[n:-1]:
        ok(o, 'building a fresh object')
    got, want = out[n - 1], out[-1]
    if isinstance(want, Exc):
        need(isinstance(got, Exc), 'encodes to %r, a fresh equal object is refused: %r', got, want)
    else:
        eq([p.key() for p in ok(got, 'encoding')], [p.key() for p in want], 'encoding, against a fresh equal object')
    return acc > 0 and ref > 0


def check_new(w, c):
    v, flag = c
    out = w.script([['new', 'm', 'SmsSubmit', [native(v, flag), {'u': 'x'}]], ['get', 'm', 'number']])
    if ok_number(v):
        ok(out[0], 'SmsSubmit(%r)' % v)
        eq(out[1], v, 'number')
    else:
        need(isinstance(out[0], Exc) and out[0].isa('ValueError'), 'SmsSubmit(%r): %r instead of ValueError', v, out[0])
    return bool(v)


def check_piece(w, c):
    """numbers with that text in, before, after or instead of them"""
    s, n = c['piece'], 0
    for t in [s, '123' + s, s + '123', '12' + s + '34', '+' + s + '123', '+34' + s + '600', s + '+123', '1234567890123456789' + s, '+123' + s]:
        check(w, ['123', [['number', '456', False], ['number', t, False], ['csca', t, len(t) % 2 > 0], ['encode', None, False], ['csca', '+789', False], ['csca', t, False]]])
        check_new(w, [t, False])
        n += 1
    return n


ASPECTS = [Enum('pieces', snips.cases([s for s in snips.BMP if s.isascii()] + ['\u0660', '\uff11', '\xb2', '\u2460', '\xa0', '\u3000', '\ufeff', '\u0967']), check_piece), Search('history', history, check, 1200), Search('construct', st.tuples(numbers, st.booleans()), check_new, 1200)]
