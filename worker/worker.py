# -*- coding: utf-8 -*-
# Runs under Jython 2.7.  Executes scripts of operations against the
# `messaging` package of /repo and answers one JSON line per request.
import sys
REPO = '/repo'
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import os
os.umask(0o077)
# the code under test never gets the real stdin/stdout
_IN, _OUT = sys.stdin, sys.stdout
sys.stdin = open(os.devnull)
import json
from array import array
from datetime import date, datetime, time, timedelta, tzinfo
try:
    from cStringIO import StringIO
except ImportError:
    from StringIO import StringIO
import java.lang.Throwable
import java.lang.OutOfMemoryError
import java.lang.StackOverflowError

from messaging.sms import SmsSubmit, SmsDeliver
from messaging.sms import gsm0338, udh as udh_mod, wap, pdu as pdu_mod
from messaging.mms import message, mms_pdu, wsp_pdu, iterator
from messaging import utils

if not utils.__file__.startswith(REPO + '/'):
    raise SystemExit('messaging does not come from %s' % REPO)


class BudgetExceeded(BaseException):
    pass


class Tz(tzinfo):
    def __init__(self, minutes):
        self.m = timedelta(minutes=minutes)

    def utcoffset(self, dt):
        return self.m

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'X'


class Varying(tzinfo):
    """a zone with summer time: the offset depends on the month"""
    def __init__(self, minutes, month, other):
        self.x = minutes, month, other

    def utcoffset(self, dt):
        if dt is None:
            return None
        return timedelta(minutes=self.x[0] if dt.month == self.x[1] else self.x[2])

    def dst(self, dt):
        return None if dt is None else timedelta(minutes=60 if dt.month == self.x[1] else 0)

    def tzname(self, dt):
        return None if dt is None else 'S' if dt.month == self.x[1] else 'W'


def unhex(h):
    return h.encode('latin-1').decode('hex')


class Env(dict):
    pass


def de(v, env):
    """JSON value -> Python value"""
    if isinstance(v, list):
        return [de(x, env) for x in v]
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == 'ref':
            return env[x]
        if k == 's':       # native string
            return x.encode('latin-1')
        if k == 'u':
            return x
        if k == 'hex':     # native string of bytes
            return unhex(x)
        if k == 'arr':
            return array('B', unhex(x))
        if k == 'ints':
            return [ord(c) for c in unhex(x)]
        if k == 'td':
            return timedelta(x[0], x[1], x[2])
        if k == 'dt':
            tz = x[7] if len(x) > 7 else None
            if tz is None:
                t = None
            elif isinstance(tz, list):
                t = utils.FixedOffset(tz[0], 'X')
            elif isinstance(tz, dict):
                t = Varying(*tz['vary'])
            else:
                t = Tz(tz)
            return datetime(*(list(x[:7]) + [t]))
        if k == 'dict':
            return dict((de(a, env), de(b, env)) for a, b in x)
        if k == 't':
            return tuple(de(y, env) for y in x)
        if k == 'f':
            return float(x)
        if k == 'tzinfo':
            return Tz(x)
        if k == 'date':
            return date(*x)
        if k == 'time':
            return time(*x)
        if k == 'long':
            return long(x)
        if k == 'obj':
            return object()
        raise ValueError('bad tag %r' % k)
    if isinstance(v, unicode):
        raise ValueError('untagged string')
    return v


def ser(v, depth=0):
    if depth > 8:
        return {'o': 'deep'}
    d = depth + 1
    if v is None or v is True or v is False:
        return v
    if isinstance(v, (int, long)):
        return int(v)
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, unicode):
        return {'u': v}
    if isinstance(v, str):
        return {'s': v.decode('latin-1')}
    if isinstance(v, datetime):
        off = v.utcoffset()
        r = [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
        if off is not None:
            r.append(off.days * 86400 + off.seconds)
        return {'dt': r}
    if isinstance(v, timedelta):
        return {'td': [v.days, v.seconds, v.microseconds]}
    if isinstance(v, array):
        return {'b': v.tostring().encode('hex')}
    if isinstance(v, tuple):
        return {'t': [ser(x, d) for x in v]}
    if isinstance(v, (list, xrange)):
        return [ser(x, d) for x in v]
    if isinstance(v, dict):
        return {'d': sorted([[ser(a, d), ser(b, d)] for a, b in v.items()])}
    if isinstance(v, pdu_mod.Pdu):
        return {'pdu': [ser(v.pdu), ser(v.length), ser(v.cnt), ser(v.seq)]}
    if isinstance(v, message.DataPart):
        data = v.data
        return {'part': {'headers': ser(v.headers, d),
                         'ctype': ser(v.content_type, d),
                         'params': ser(v.content_type_parameters, d),
                         'data': ser(data), 'len': ser(len(v))}}
    if isinstance(v, message.MMSMessage):
        return {'mms': {'headers': ser(v.headers, d),
                        'ctype': ser(v.content_type, d),
                        'parts': [ser(x, d) for x in v.data_parts]}}
    if isinstance(v, udh_mod.ConcatReference):
        return {'concat': [v.ref, v.cnt, v.seq, ser(v.eight_bits)]}
    if isinstance(v, udh_mod.PortAddress):
        return {'ports': [v.dest_port, v.orig_port, ser(v.eight_bits)]}
    if isinstance(v, udh_mod.UserDataHeader):
        return {'udh': {'concat': ser(v.concat), 'ports': ser(v.ports),
                        'headers': ser(v.headers, d)}}
    if isinstance(v, utils.FixedOffset):
        return {'fixed': ser(v.utcoffset(None))}
    return {'o': type(v).__name__}


DELIVER_ATTRS = ('csca', 'number', 'text', 'date', 'pid', 'dcs', 'fmt', 'type',
                 'mtype', 'sr', 'udh', 'data', 'pdu')


def exc(e):
    names = [c.__name__ for c in type(e).__mro__] if hasattr(type(e), '__mro__') else [type(e).__name__]
    try:
        msg = unicode(e)
    except Exception:
        msg = repr(e)
    return {'exc': [names[0], names, msg[:200]]}


def lookup(name):
    parts = name.split('.')
    obj = {'gsm0338': gsm0338, 'udh': udh_mod, 'wap': wap, 'pdu': pdu_mod,
           'message': message, 'mms_pdu': mms_pdu, 'wsp_pdu': wsp_pdu,
           'iterator': iterator, 'utils': utils, 'SmsSubmit': SmsSubmit,
           'SmsDeliver': SmsDeliver, 'W': HELPERS}[parts[0]]
    for p in parts[1:]:
        obj = getattr(obj, p)
    return obj


class HELPERS(object):
    """Compound operations, to save round trips"""

    @staticmethod
    def encode(text, enc, errors):
        return text.encode(enc, errors)

    @staticmethod
    def decode(data, enc, errors):
        return data.decode(enc, errors)

    @staticmethod
    def deliver(pdu, strict=True):
        return HELPERS.attrs(SmsDeliver(pdu, strict))

    @staticmethod
    def attrs(sms):
        return dict((a, getattr(sms, a)) for a in DELIVER_ATTRS)

    @staticmethod
    def prim(name, data):
        """Decodes one primitive; reports what is left unread"""
        it = iterator.PreviewIterator(array('B', data))
        return HELPERS.prim_on(name, it)

    @staticmethod
    def prim_on(name, it):
        cls = mms_pdu.MMSDecoder if name.startswith('mms:') else wsp_pdu.Decoder
        fn = getattr(cls, name.split(':')[-1])
        try:
            res = {'ok': ser(fn(it))}
        except Exception, e:
            res = exc(e)
        seen = None
        try:
            seen = it.preview()
        except StopIteration:
            pass
        rest = []
        while True:
            try:
                rest.append(it.next())
            except StopIteration:
                break
        return {'r': json.dumps(res), 'preview': seen, 'rest': rest}

    @staticmethod
    def prim_steps(data, steps):
        """decoders tried one after another on one iterator"""
        it = iterator.PreviewIterator(array('B', data))
        out = []
        for s in steps:
            if s == 'next':
                out.append(it.next())
            elif s == 'look':
                out.append(it.preview())
                it.reset_preview()
            else:
                cls = mms_pdu.MMSDecoder if s.startswith('mms:') else wsp_pdu.Decoder
                try:
                    res = {'ok': ser(getattr(cls, s.split(':')[-1])(it))}
                except Exception, e:
                    res = exc(e)
                out.append(json.dumps(res))
        return {'steps': out, 'rest': list(it)}

    @staticmethod
    def iter(data):
        return iterator.PreviewIterator(array('B', data))

    @staticmethod
    def from_bytes_udh(data):
        return udh_mod.UserDataHeader.from_bytes(data)

    @staticmethod
    def validity(t):
        return utils.timedelta_to_relative_validity(t)

    @staticmethod
    def validity_range(start, stop, step, unit):
        out = []
        for i in xrange(start, stop, step):
            try:
                out.append(utils.timedelta_to_relative_validity(timedelta(**{str(unit): i})))
            except ValueError:
                out.append(-1)
        return out

    @staticmethod
    def slen(x):
        return len(x)

    @staticmethod
    def item(x, i):
        return x[i]

    @staticmethod
    def setitem(x, k, v):
        x[k] = v

    @staticmethod
    def delitem(x, k):
        del x[k]

    @staticmethod
    def has(x, k):
        return k in x

    @staticmethod
    def raw(x):
        """the fields of a data part, without reading its data"""
        return {'headers': x.headers, 'ctype': x.content_type}

    @staticmethod
    def medium_header(p, kind, name, value):
        headers = getattr(p, kind)[0].headers
        if value is None:
            headers.pop(name, None)
        else:
            headers[name] = value

    @staticmethod
    def page(p):
        def one(m):
            return None if m is None else (m[0], m[1], m[2])
        return {'image': one(p.image), 'audio': one(p.audio),
                'text': one(p.text), 'duration': p.duration,
                'n': p.number_of_parts(), 'parts': list(p.data_parts)}

    @staticmethod
    def page_ids(p):
        """media of a page, and which of image/audio/text each part is"""
        names = []
        for part in p.data_parts:
            for n in ('image', 'audio', 'text'):
                m = getattr(p, n)
                if part is m or (m is not None and part is m[0]):
                    names.append(n)
        return names

    @staticmethod
    def msg_parts(m):
        """the DataPart objects a message lists"""
        return [p for p in m.data_parts if isinstance(p, message.DataPart)]

    @staticmethod
    def snapshot(m):
        """everything a user can see of a message being composed"""
        return {'headers': m.headers, 'width': m.width, 'height': m.height,
                'pages': [HELPERS.page(p) for p in m.pages],
                'parts': HELPERS.msg_parts(m)}

    @staticmethod
    def from_data(data):
        before = array('B', data)
        arr = array('B', data)
        try:
            return message.MMSMessage.from_data(arr)
        finally:
            if arr != before:
                raise AssertionError('the input was modified')

    @staticmethod
    def write(path, data):
        """what another program does to a file of the caller's"""
        if data is None:
            if os.path.exists(path):
                os.unlink(path)
        else:
            with open(path, 'wb') as f:
                f.write(data)

    @staticmethod
    def read(path):
        with open(path, 'rb') as f:
            return array('B', f.read())

    @staticmethod
    def preview_ops(items, ops, lazy=False):
        it = iterator.PreviewIterator((x for x in items) if lazy else items)
        out = []
        for o in ops:
            try:
                if o == 'n':
                    out.append(it.next())
                elif o == 'p':
                    out.append(it.preview())
                elif o == 'r':
                    out.append({'r': it.reset_preview()})
                elif o == 'i':
                    out.append({'same': iter(it) is it})
                elif o == 'l':
                    out.append({'rest': [x for x in it]})
            except StopIteration:
                out.append('stop')
        return out

    @staticmethod
    def preview_runs(n, runs, lazy):
        """runs of one operation over the items 0 to n - 1"""
        return HELPERS.preview_ops(range(n), [o for o, k in runs for _ in range(k)], lazy)

    @staticmethod
    def submit_each(start, stop, step, before, after):
        """messages of one character each, between two texts"""
        out = []
        for x in range(start, stop, step):
            out.append(SmsSubmit('123', before + unichr(x) + after).to_pdu())
        return out

    @staticmethod
    def push(data):
        """a push as the documentation reads it"""
        m = wap.extract_push_notification(data)
        return [wap.is_a_wap_push_notification(data), m, wap.is_mms_notification(m)]

    @staticmethod
    def reassemble(pdus):
        """the texts of the messages the PDUs are parts of"""
        whole = {}
        for p in pdus:
            s = SmsDeliver(p)
            k = s.udh.concat
            if k is None:
                whole[len(whole) + 100000] = {1: s.text}
                continue
            whole.setdefault(k.ref, {})[k.seq] = s.text
        return dict((r, ''.join([t for _, t in sorted(parts.items())])) for r, parts in whole.items())

    @staticmethod
    def reassembled_push(pdus, ref):
        return HELPERS.push(HELPERS.reassemble(pdus)[ref])

    @staticmethod
    def identity(x):
        return x

    @staticmethod
    def empty_parts(m):
        for p in m.data_parts:
            p.headers.clear()
            p.set_text('edited')

    @staticmethod
    def spoil(x):
        if isinstance(x, dict):
            for k in list(x)[::2]:
                del x[k]
            x['spoilt'] = ('spoilt', 'spoilt')
        else:
            x.reverse()
            del x[::2]
            x.append('spoilt')

    @staticmethod
    def spoil_all(x):
        """changes every container that can be reached through dictionaries, lists and tuples"""
        if isinstance(x, dict):
            for y in list(x.values()):
                HELPERS.spoil_all(y)
            x['spoilt'] = 'spoilt'
        elif isinstance(x, tuple):
            for y in x:
                HELPERS.spoil_all(y)
        elif isinstance(x, list):
            for y in x:
                HELPERS.spoil_all(y)
            x.append('spoilt')

    @staticmethod
    def spoil_returned(x):
        if isinstance(x, array):
            x.append(7)
        else:
            HELPERS.spoil_all(x)

    @staticmethod
    def spoil_udh(sms):
        if sms.udh is not None:
            sms.udh.headers.clear()
            for k in ('concat', 'ports'):
                x = getattr(sms.udh, k)
                if x is not None:
                    for a in list(vars(x)):
                        setattr(x, a, 77)


def run_one(op, env):
    kind = op[0]
    if kind == 'new' or kind == 'fn':
        _, dst, name, args = op[:4]
        kw = op[4] if len(op) > 4 else {}
        kw = dict((str(k), de(v, env)) for k, v in kw.items())
        res = lookup(name)(*de(args, env), **kw)
        if dst:
            env[dst] = res
        return None if kind == 'new' else ser(res)
    if kind == 'call':
        _, dst, obj, meth, args = op[:5]
        res = getattr(env[obj], meth)(*de(args, env))
        if dst:
            env[dst] = res
        return ser(res)
    if kind == 'get':
        cur = env[op[1]]
        for p in op[2].split('.'):
            cur = getattr(cur, p)
        if len(op) > 3 and op[3]:
            env[op[3]] = cur
        return ser(cur)
    if kind == 'set':
        setattr(env[op[1]], op[2], de(op[3], env))
        return None
    if kind == 'attrs':
        return ser(HELPERS.attrs(env[op[1]]))
    raise ValueError('bad op %r' % kind)


def run_script(script, env):
    out = []
    for op in script:
        try:
            out.append({'ok': run_one(op, env)})
        except Exception, e:
            out.append(exc(e))
        except (java.lang.OutOfMemoryError, java.lang.StackOverflowError), e:
            out.append({'java': str(type(e).__name__)})
        except java.lang.Throwable, e:
            out.append({'java': str(e)[:200]})
    return out


def run_map(name, arglists):
    fn = lookup(name)
    out = []
    for args in arglists:
        try:
            out.append({'ok': ser(fn(*de(args, {})))})
        except Exception, e:
            out.append(exc(e))
        except java.lang.Throwable, e:
            out.append({'java': str(e)[:200]})
    return out


def with_budget(fn, budget):
    left = [budget]

    def tr(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise BudgetExceeded()
        return tr
    sys.settrace(tr)
    try:
        res = fn()
    finally:
        sys.settrace(None)
    if left[0] < 0:
        # swallowed by a bare except of the code under test
        raise BudgetExceeded()
    return res


def map_with_budget(name, arglists, budget):
    """every call has the whole budget"""
    return [with_budget(lambda: run_map(name, [args]), budget)[0] for args in arglists]


def coverage_script(script, env):
    """run_script, also returning the set of executed (file, line) edges"""
    seen = {}
    last = [0]

    def local(frame, event, arg):
        if event == 'line' or event == 'call':
            here = (frame.f_code.co_filename, frame.f_lineno)
            k = (last[0], here)
            seen[k] = seen.get(k, 0) + 1
            last[0] = here
        return local

    def tr(frame, event, arg):
        if '/messaging/' in frame.f_code.co_filename:
            return local(frame, event, arg)
        return None
    sys.settrace(tr)
    try:
        res = run_script(script, env)
    finally:
        sys.settrace(None)
    out = []
    for (a, b), n in seen.items():
        bucket = 1
        while n > bucket and bucket < 64:
            bucket *= 4
        out.append('%s>%s:%d*%d' % (a and a[1], b[0].rsplit('/', 1)[-1], b[1], bucket))
    return res, out


def main():
    real_out, real_err = sys.stdout, sys.stderr
    _OUT.write('{"ready": true}\n')
    _OUT.flush()
    while True:
        line = _IN.readline()
        if not line:
            break
        req = json.loads(line)
        cap = StringIO()
        sys.stdout = cap
        rsp = {}
        try:
            try:
                if 'map' in req and 'budget' in req:
                    rsp['out'] = map_with_budget(req['map'], req['args'], req['budget'])
                elif 'map' in req:
                    rsp['out'] = run_map(req['map'], req['args'])
                elif 'budget' in req:
                    rsp['out'] = with_budget(
                        lambda: run_script(req['script'], Env()), req['budget'])
                elif 'cover' in req:
                    rsp['out'], rsp['cov'] = coverage_script(req['script'], Env())
                else:
                    rsp['out'] = run_script(req['script'], Env())
            except BudgetExceeded:
                rsp['budget_exceeded'] = True
            except KeyboardInterrupt:
                raise
            except Exception, e:
                import traceback
                rsp['harness'] = traceback.format_exc()
        finally:
            sys.stdout, sys.stderr = real_out, real_err
        printed = cap.getvalue()
        if printed:
            rsp['printed'] = printed[:200].decode('latin-1') if isinstance(printed, str) else printed[:200]
        _OUT.write(json.dumps(rsp))
        _OUT.write('\n')
        _OUT.flush()


main()
