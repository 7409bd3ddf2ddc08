"""Concrete execution of a harness case on the plain code (no solver, no
instrumentation).  Reads jobs as JSON on stdin, writes results as JSON."""
import json
import logging
import os
import shutil
import signal
import struct
import sys
import tempfile
import traceback
import zlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, REPO)


class ViolC(BaseException):
    pass


class AbortC(BaseException):
    pass


class TimeoutC(BaseException):
    pass


def decode(x):
    if isinstance(x, dict):
        if 'b' in x:
            return bytes.fromhex(x['b'])
        if 's' in x:
            return ''.join(map(chr, x['s']))
        if 't' in x:
            return tuple(decode(i) for i in x['t'])
        return {decode(k): decode(v) for k, v in x['d']}
    if isinstance(x, list):
        return [decode(i) for i in x]
    return x


def plain(x):
    t = type(x)
    if isinstance(x, (list, tuple)):
        return (list if isinstance(x, list) else tuple)(plain(i) for i in x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((plain(k) for k in x), key=repr)
    if t in (int, float, str, bytes, bool, type(None)):
        return x
    if t is bytearray:
        return bytes(x)
    if isinstance(x, int):
        return int(x)
    return repr(t.__name__)


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (
            isinstance(a, bool) or isinstance(b, bool)):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if a is None or b is None:
        return True if a is None else a is b       # None: not evaluated symbolically
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    return type(a) is type(b) and a == b


class HConc:
    symbolic = False

    def __init__(self, inputs, tmp):
        self.vals = inputs
        self.names = {}
        self.obs = []
        self.tmp = tmp

    def _get(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        n = n if k == 0 else '%s#%d' % (n, k)
        if n not in self.vals:
            raise AbortC('input %s not in the record' % n)
        return self.vals[n]

    def bytes(self, name, n, alphabet=None):
        return self._get(name)

    def text(self, name, n, ranges=None):
        return self._get(name)

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def real(self, name, lo=None, hi=None, isint=False):
        v = self._get(name)
        return int(v) if isint else float(v)

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def assume(self, cond):
        if not cond:
            raise AbortC('assumption')

    def check(self, cond, label, detail=''):
        if not cond:
            raise ViolC(label)

    def equal(self, a, b, label):
        if not deq(a, b):
            raise ViolC('%s: got %.300r, expected %.300r' % (label, a, b))

    def close(self, a, b, label, tol=None):
        if not abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b)):
            raise ViolC('%s: got %r, expected %r' % (label, a, b))

    def closeseq(self, a, b, label, tol=None):
        a, b = list(a), list(b)
        if len(a) != len(b):
            raise ViolC(label + ' (length)')
        for x, y in zip(a, b):
            self.close(x, y, label)

    def fail(self, label):
        raise ViolC(label)

    def reach(self, label):
        pass

    def observe(self, name, value):
        self.obs.append((name, plain(value)))

    @staticmethod
    def and_(*a):
        return all(a)

    @staticmethod
    def or_(*a):
        return any(a)

    @staticmethod
    def not_(a):
        return not a

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def eq(a, b):
        return deq(a, b)

    def realize(self, x):
        return x

    def branch(self, c):
        return bool(c)

    def vfile(self, name, data):
        p = os.path.join(self.tmp, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def outpath(self, name):
        return os.path.join(self.tmp, name)

    def readfile(self, path):
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()

    def exactrepr(self, on):
        pass

    def numerals(self):
        pass

    def number(self, text):
        return float(text)

    def deflate(self, data):
        n = len(data)
        return b'\x78\x01' + b'\x01' + struct.pack('<HH', n, n ^ 0xffff) + data + \
            struct.pack('>L', zlib.adler32(data))

    def clean(self, s, label=''):
        return s


def deq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and \
            all(deq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in a and deq(a[k], v) for k, v in b.items())
    return a == b


def run_job(mod, job):
    cases = {c.name: c for c in mod.cases(job.get('tier', 'quick'))}
    c = cases[job['case']]
    inputs = {k: decode(v) for k, v in job['inputs'].items()}
    tmp = tempfile.mkdtemp(prefix='sxreplay')
    h = HConc(inputs, tmp)
    res = {'status': 'ok', 'what': ''}

    def onalarm(*a):
        raise TimeoutC()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(job.get('timeout', 20)))
    try:
        c.fn(h, **c.params)
    except ViolC as e:
        res = {'status': 'violation', 'what': str(e)}
    except AbortC as e:
        res = {'status': 'abort', 'what': str(e)}
    except TimeoutC:
        res = {'status': 'violation', 'what': 'no end within %s s' % job.get('timeout', 20), 'hang': True}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-3:]
        res = {'status': 'violation', 'what': 'exception %s: %.300s' % (type(e).__name__, e), 'where': where,
               'exc': type(e).__name__}
    finally:
        signal.alarm(0)
        shutil.rmtree(tmp, ignore_errors=True)
    if 'obs' in job and res['status'] == 'ok':
        exp = [(n, decode(v)) for n, v in job['obs']]
        bad = len(exp) != len(h.obs)
        if not bad:
            for (n, v), (n2, v2) in zip(exp, h.obs):
                if n != n2 or not same(v, v2):
                    bad = True
                    res['diff'] = '%s: symbolic %.200r, real %.200r' % (n, v, v2)
                    break
        if bad:
            res['status'] = 'differs'
            res['what'] = res.get('diff', 'different observations')
    return res


def isolated(mod, job):
    """each job in its own process, so that no job sees another's caches"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(run_job(mod, job), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {'status': 'violation', 'what': 'the process died', 'died': True}
    return json.loads(data)


def main():
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(5000)
    import importlib
    name = sys.argv[1]
    jobs = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mod = importlib.import_module('harness.' + name)
    res = [isolated(mod, j) for j in jobs]
    json.dump(res, out)
    out.close()


if __name__ == '__main__':
    main()
