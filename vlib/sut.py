"""Client of the Jython worker that runs the code under test."""
import json, os, select, subprocess, tempfile, shutil, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKER = os.path.join(HERE, 'worker', 'worker.py')
CALL_TIMEOUT = 60.0
BUDGET_TIMEOUT = 150.0
STEP_BUDGET = 8000000


class HarnessError(Exception):
    """The machinery, not the code under test, failed"""


class Violation(AssertionError):
    """The property does not hold on this case"""


class NoAnswer(Violation):
    """A call does not end. Finding that out takes minutes, so such a case is not shrunk"""


class Exc(object):
    """An exception raised by the code under test"""
    def __init__(self, v):
        self.name, self.mro, self.msg = v

    def isa(self, *names):
        return any(n in self.mro for n in names)

    def __repr__(self):
        return '%s(%r)' % (self.name, self.msg)

    def __eq__(self, o):
        return isinstance(o, Exc) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class B(bytes):
    """A native (Python 2 `str`) string"""


class Arr(bytes):
    """An array of octets"""


def un(v):
    """decode a serialised value; native strings become text with one
    character per byte, so that u'abc' and 'abc' compare equal like in
    Python 2"""
    if isinstance(v, dict):
        (k, x), = v.items()
        if k in ('u', 's'):
            return x
        if k == 'b':
            return Arr(bytes.fromhex(x))
        if k == 't':
            return tuple(un(y) for y in x)
        if k == 'd':
            return {un(a): un(b) for a, b in x}
        if k == 'dt':
            return DT(x)
        if k == 'td':
            return TD(x)
        if k == 'f':
            return float(x)
        if k == 'pdu':
            return PduV(*[un(y) for y in x])
        if k == 'part':
            return Part(**{a: un(b) for a, b in x.items()})
        if k == 'mms':
            return Mms(un(x['headers']), un(x['ctype']), [un(y) for y in x['parts']])
        if k == 'concat':
            return ('concat',) + tuple(x)
        if k == 'ports':
            return ('ports',) + tuple(x)
        if k == 'udh':
            return Udh(un(x['concat']), un(x['ports']), un(x['headers']))
        if k == 'fixed':
            return ('fixed', un(x))
        if k == 'o':
            return ('object', x)
        raise HarnessError('bad tag %r' % k)
    if isinstance(v, list):
        return [un(y) for y in v]
    return v


class DT(tuple):
    def __new__(cls, x): return tuple.__new__(cls, x)
    def __repr__(self): return 'datetime%s' % (tuple(self),)


class TD(tuple):
    def __new__(cls, x): return tuple.__new__(cls, x)
    @property
    def seconds_total(self): return self[0] * 86400 + self[1]


class PduV(object):
    def __init__(self, pdu, length, cnt, seq):
        self.pdu, self.length, self.cnt, self.seq = pdu, length, cnt, seq

    def __repr__(self):
        return 'Pdu(%s, length=%r, cnt=%r, seq=%r)' % (self.pdu, self.length, self.cnt, self.seq)

    def key(self):
        return (self.pdu, self.length, self.cnt, self.seq)


class Part(object):
    def __init__(self, headers, ctype, params, data, len):
        self.headers, self.ctype, self.params, self.data, self.len = headers, ctype, params, data, len

    def key(self):
        return (self.headers, self.ctype, self.params, self.data, self.len)

    def __repr__(self):
        return 'Part%r' % (self.key(),)

    def __eq__(self, o):
        return isinstance(o, Part) and o.key() == self.key()


class Mms(object):
    def __init__(self, headers, ctype, parts):
        self.headers, self.ctype, self.parts = headers, ctype, parts

    def __eq__(self, o):
        return isinstance(o, Mms) and (o.headers, o.ctype, o.parts) == (self.headers, self.ctype, self.parts)

    def __repr__(self):
        return 'Mms(%r, %r)' % (self.headers, self.parts)


class Udh(object):
    def __init__(self, concat, ports, headers):
        self.concat, self.ports, self.headers = concat, ports, headers

    def key(self):
        return (self.concat, self.ports, sorted(self.headers.items()))

    def __eq__(self, o):
        return isinstance(o, Udh) and o.key() == self.key()

    def __repr__(self):
        return 'Udh(%r, %r, %r)' % (self.concat, self.ports, self.headers)


# -- argument tags -----------------------------------------------------------
def s(x): return {'s': x}                       # native string, latin-1
def u(x): return {'u': x}                       # unicode
def hx(b): return {'hex': bytes(b).hex()}       # native string of bytes
def arr(b): return {'arr': bytes(b).hex()}
def ints(b): return {'ints': bytes(b).hex()}
def ref(n): return {'ref': n}


class Worker(object):
    def __init__(self, tz='America/St_Johns'):
        self.proc = None
        self.tz = tz
        self.calls = 0
        self.budget_runs = 0
        self._scratch = None

    def scratch(self):
        """an empty directory, the same for every call of this worker"""
        if self._scratch is None:
            self._scratch = tempfile.TemporaryDirectory(prefix='vscratch-')
        for n in os.listdir(self._scratch.name):
            p = os.path.join(self._scratch.name, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        return self._scratch.name

    def start(self):
        self.home = tempfile.mkdtemp(prefix='vwork-')
        os.chmod(self.home, 0o755)
        env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               'HOME': self.home, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': self.tz,
               'PYTHONDONTWRITEBYTECODE': '1'}
        self.err = open(os.path.join(self.home, 'stderr'), 'w+b')
        self.proc = subprocess.Popen(
            ['java', '-Xmx1g', '-Xss4m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1',
             '-Djava.io.tmpdir=' + self.home, '-jar', '/usr/share/java/jython.jar',
             '-Dpython.home=/usr', '-Dpython.executable=/usr/bin/jython',
             '-B', '-Dpython.cachedir.skip=true', WORKER],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=self.home, close_fds=True)
        self.buf = b''
        first = self._readline(180)
        if first is None or json.loads(first) != {'ready': True}:
            self.err.flush(); self.err.seek(0)
            tail = self.err.read()[-2000:].decode('utf-8', 'replace')
            self.stop()
            raise HarnessError('worker did not start: %s' % tail)

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout, self.err):
                try:
                    f.close()
                except OSError:
                    pass
            shutil.rmtree(self.home, ignore_errors=True)
            self.proc = None

    def _readline(self, timeout):
        fd = self.proc.stdout.fileno()
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                return None if not self.buf else None
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def _send(self, req, timeout):
        if self.proc is None or self.proc.poll() is not None:
            if self.proc is not None:
                self.stop()
            self.start()
        data = json.dumps(req).encode('ascii') + b'\n'
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        return self._readline(timeout)

    def request(self, req, quiet=False):
        self.calls += 1
        line = self._send(req, CALL_TIMEOUT)
        if line is None:
            # no answer: decide by executed lines, in a fresh worker, whether
            # this does not end or the machine was just slow
            self.stop()
            self.budget_runs += 1
            line = self._send(dict(req, budget=STEP_BUDGET), BUDGET_TIMEOUT)
            if line is None:
                self.stop()
                raise NoAnswer('the code under test gives no answer (killed the interpreter, or '
                               'runs without end in one statement)')
        rsp = json.loads(line)
        if rsp.get('budget_exceeded'):
            raise NoAnswer('does not terminate: more than %d lines executed' % STEP_BUDGET)
        if 'harness' in rsp:
            raise HarnessError(rsp['harness'])
        self.printed = rsp.get('printed')
        if self.printed and quiet:
            raise Violation('prints on standard output: %r' % self.printed)
        return rsp

    @staticmethod
    def outcome(o):
        if 'ok' in o:
            return un(o['ok'])
        if 'exc' in o:
            return Exc(o['exc'])
        raise Violation('the interpreter itself failed: %s' % o.get('java'))

    def script(self, ops, quiet=False):
        return [self.outcome(o) for o in self.request({'script': ops}, quiet)['out']]

    def map(self, fn, arglists):
        return [self.outcome(o) for o in self.request({'map': fn, 'args': arglists})['out']]

    def cover(self, ops):
        r = self.request({'script': ops, 'cover': 1})
        return [self.outcome(o) for o in r['out']], r.get('cov', [])

    # shorthands
    def fn(self, name, *args, **kw):
        return self.script([['fn', None, name, list(args), kw]])[0]


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def ok(v, what):
    """the outcome must not be an exception"""
    if isinstance(v, Exc):
        raise Violation('%s raised %r' % (what, v))
    return v


def eq(got, want, what):
    if isinstance(got, Exc):
        raise Violation('%s: raised %r, expected %r' % (what, got, want))
    if got != want or type(got) is bool and type(want) is not bool and want not in (0, 1):
        raise Violation('%s: got %r, expected %r' % (what, got, want))
