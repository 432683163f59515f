"""Executable contracts: shared helpers and independent oracles.

Runs under /opt/venv/bin/python with conc/shim (a stand-in for the parts of
PyCrypto 2.6.1 that do not work on Python 3.12) and /repo on the path.  Uses
only the public interface of keyczar; every expected value is computed here from
hashlib, hmac, base64, M2Crypto's EVP and pow(), never with keyczar's own code.
"""
import base64, binascii, hashlib, hmac as hmaclib, io, json, os, random, sys, time, traceback
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')

from M2Crypto import EVP as _EVP
real_urandom = os.urandom


class Abort(Exception):
    pass


class T(object):
    def __init__(self, seed, tier, budget):
        self.seed, self.tier = seed, tier
        self.rng = random.Random(seed * 7919 + 17)
        self.n = 0
        self.distinct = set()
        self.fails = []
        self.samples = []
        self.t0 = time.time()
        self.budget = budget

    def left(self):
        return self.budget - (time.time() - self.t0)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def fail(self, what, inp):
        self.fails.append(dict(what=what, input=_show(inp)))
        if len(self.fails) >= 3:
            raise Abort()

    def note(self, what, inp):
        self.n += 1
        k = hash((what, repr(inp)))
        if k not in self.distinct:
            self.distinct.add(k)
            if len(self.samples) < 6 and (self.n % 37 == 1):
                self.samples.append(dict(what=what, input=_show(inp)))

    def ok(self, cond, what, /, **inp):
        self.note(what, inp)
        if not cond:
            self.fail(what, inp)
        return cond

    def eq(self, got, want, what, /, **inp):
        self.note(what, inp)
        if type(got) != type(want) or got != want:
            inp = dict(inp, got=got, want=want)
            self.fail(what, inp)
            return False
        return True

    def call(self, what, fn, /, *a, **inp):
        """fn(*a) must not raise; returns None-marker on failure."""
        self.note(what, inp or dict(args=a))
        try:
            return fn(*a)
        except Exception as e:
            self.fail(what + ': raised %s' % type(e).__name__,
                      dict(inp or dict(args=a), error=repr(e), tb=traceback.format_exc()[-1500:]))
            raise Skip()

    def raises(self, exc, what, fn, /, *a, **inp):
        self.note(what, inp or dict(args=a))
        try:
            r = fn(*a)
        except Exception as e:
            if isinstance(e, exc):
                return e
            self.fail(what + ': raised %s instead' % type(e).__name__,
                      dict(inp or dict(args=a), error=repr(e), tb=traceback.format_exc()[-1500:]))
            return None
        self.fail(what + ': not refused', dict(inp or dict(args=a), got=r))
        return None

    def group(self, fn, *a):
        """Runs one group of checks; a Skip ends only the group."""
        try:
            fn(self, *a)
        except Skip:
            pass

    # -- data -----------------------------------------------------------------
    def bs(self, n):
        return ''.join(map(chr, self.rng.choices(range(256), k=n)))

    def msgs(self, lens):
        for n in lens:
            yield self.bs(n)

    def interesting(self):
        """Byte strings with shapes that mishandled data tends to have."""
        yield ''
        for c in '\x00\x01\xff\x10 \n\r=-_a"\\':
            yield c
            yield c * 2
            yield c * 16
            yield c * 17
        yield '\x00' * 4 + 'x'
        yield 'x' + '\x00' * 20
        yield ''.join(map(chr, range(256)))
        yield 'hello\nworld\r\n  x '
        yield 'a' * 15 + '\x01'
        yield 'a' * 16 + '\x10' * 16
        for x in getattr(self, 'extra', ()):      # values the verifier proposed
            if isinstance(x, str) and len(x) < 3000 and all(ord(ch) < 256 for ch in x):
                yield x


class Skip(Exception):
    pass


def _show(x):
    if isinstance(x, str):
        return dict(latin1_hex=binascii.hexlify(x.encode('latin-1')).decode()) \
            if all(ord(c) < 256 for c in x) and any(not 32 <= ord(c) < 127 for c in x) else x[:4000]
    if isinstance(x, bytes):
        return dict(hex=binascii.hexlify(x).decode())
    if isinstance(x, dict):
        return {str(k): _show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_show(v) for v in x[:200]]
    if isinstance(x, (int, bool, float)) or x is None:
        return x if not isinstance(x, int) or abs(x) < 2**53 else hex(x)
    return repr(x)[:2000]


# -- oracles --------------------------------------------------------------------
def sb(s):
    return s.encode('latin-1')


def bs(b):
    return b.decode('latin-1')


def sha1(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(sb(p))
    return bs(h.digest())


def hmac1(key, msg):
    return bs(hmaclib.new(sb(key), sb(msg), hashlib.sha1).digest())


def b64e(s):
    return base64.urlsafe_b64encode(sb(s)).decode().rstrip('=')


def b64d(s):
    return bs(base64.urlsafe_b64decode(s + '=' * (-len(s) % 4)))


def be(n, k=None):
    if k is None:
        k = (n.bit_length() + 7) // 8
    return bs(n.to_bytes(k, 'big'))


def num(s):
    return int.from_bytes(sb(s), 'big')


def i4(n):
    return be(n % 2**32, 4)


def pack(s):
    return '' if s is None else i4(len(s)) + s


def pad(m):
    p = 16 - len(m) % 16
    return m + chr(p) * p


def cbc(op, key, iv, data):
    c = _EVP.Cipher(alg='aes_%d_cbc' % (len(key) * 8), key=sb(key), iv=sb(iv), op=op, padding=0)
    return bs(c.update(sb(data)) + c.final())


def cbc_enc(key, iv, data):
    return cbc(1, key, iv, data)


def cbc_dec(key, iv, data):
    return cbc(0, key, iv, data)


def mgf1(seed, n):
    out = ''
    i = 0
    while len(out) < n:
        out += sha1(seed, i4(i))
        i += 1
    return out[:n]


def xor(a, b):
    return ''.join(chr(ord(x) ^ ord(y)) for x, y in zip(a, b))


def oaep_encode(msg, k, seed, label=''):
    db = sha1(label) + '\0' * (k - len(msg) - 42) + '\1' + msg
    mdb = xor(db, mgf1(seed, k - 21))
    return '\0' + xor(seed, mgf1(mdb, 20)) + mdb


def oaep_decode(em):
    """Returns the message or None; em has exactly k bytes."""
    if len(em) < 42 or em[0] != '\0':
        return None
    mdb = em[21:]
    seed = xor(em[1:21], mgf1(mdb, 20))
    db = xor(mdb, mgf1(seed, len(mdb)))
    if db[:20] != sha1(''):
        return None
    rest = db[20:].lstrip('\0')
    if not rest or rest[0] != '\1':
        return None
    return rest[1:]


SHA1_PREFIX = '\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14'


def emsa(msg, k):
    t = SHA1_PREFIX + sha1(msg)
    return '\0\1' + '\xff' * (k - len(t) - 3) + '\0' + t


def der_len(n):
    return chr(n) if n < 128 else chr(0x80 | len(be(n))) + be(n)


def der(tag, body):
    return chr(tag) + der_len(len(body)) + body


def der_int(n):
    k = n.bit_length() // 8 + 1
    return der(2, bs(n.to_bytes(k, 'big', signed=True)))


def der_seq(*parts):
    return der(0x30, ''.join(parts))


def der_oid(*arcs):
    out = chr(arcs[0] * 40 + arcs[1])
    for a in arcs[2:]:
        s = chr(a & 127)
        a >>= 7
        while a:
            s = chr(128 | a & 127) + s
            a >>= 7
        out += s
    return der(6, out)


RSA_OID = der_oid(1, 2, 840, 113549, 1, 1, 1)
DSA_OID = der_oid(1, 2, 840, 10040, 4, 1)
NULL = '\5\0'


def der_parse(s, i=0):
    """-> (tag, body, end)"""
    tag = ord(s[i])
    n = ord(s[i + 1])
    i += 2
    if n & 128:
        k = n & 127
        n = num(s[i:i + k])
        i += k
    assert i + n <= len(s)
    return tag, s[i:i + n], i + n


def der_items(body):
    out = []
    i = 0
    while i < len(body):
        t, b, i = der_parse(body, i)
        out.append((t, b))
    return out


def der_intval(item):
    assert item[0] == 2
    return int.from_bytes(sb(item[1]), 'big', signed=True)


def dsa_check(k, msg, r, s):
    p, q, g, y = k['p'], k['q'], k['g'], k['y']
    if not (0 < r < q and 0 < s < q):
        return False
    w = pow(s, -1, q)
    h = num(sha1(msg))
    return pow(g, h * w % q, p) * pow(y, r * w % q, p) % p % q == r


def dsa_sign(k, msg, rng):
    while 1:
        n = rng.randrange(2, k['q'] - 1)
        r = pow(k['g'], n, k['p']) % k['q']
        s = pow(n, -1, k['q']) * (num(sha1(msg)) + k['x'] * r) % k['q']
        if r and s:
            return r, s


# -- keys -------------------------------------------------------------------------
POOL = json.load(open(os.path.join(HERE, 'testkeys.json')))


class HK(object):
    """An HMAC key as plain data."""
    type = 'HMAC_SHA1'

    def __init__(self, key):
        self.key = key
        self.size = 256
        self.raw_id = sha1(key)[:4]

    def json(self):
        return json.dumps(dict(size=self.size, hmacKeyString=b64e(self.key)))

    def rawsig_ok(self, msg, sig):
        return sig == hmac1(self.key, msg)

    def sign(self, msg, rng=None):
        return hmac1(self.key, msg)


class AK(object):
    type = 'AES'

    def __init__(self, key, mac):
        self.key, self.mac = key, mac
        self.size = len(key) * 8
        self.raw_id = sha1(i4(len(key)), key, mac)[:4]

    def json(self):
        return json.dumps(dict(mode='CBC', size=self.size, aesKeyString=b64e(self.key),
                               hmacKey=dict(size=256, hmacKeyString=b64e(self.mac))))

    def encrypt(self, msg, iv):
        b = '\0' + self.raw_id + iv + cbc_enc(self.key, iv, pad(msg))
        return b + hmac1(self.mac, b)

    def parse(self, ct):
        """Returns the plaintext if ct is exactly Header|IV|CBC(pad(m))|MAC, else None."""
        if len(ct) < 41 or ct[:5] != '\0' + self.raw_id or ct[-20:] != hmac1(self.mac, ct[:-20]):
            return None
        body = ct[21:-20]
        if len(body) % 16 or not body:
            return None
        p = cbc_dec(self.key, ct[5:21], body)
        n = ord(p[-1])
        if not 1 <= n <= 16 or p[-n:] != chr(n) * n:
            return None
        return p[:-n]


def zp(n):
    return '\0' + be(n)


class RK(object):
    type = 'RSA_PRIV'

    def __init__(self, d):
        self.__dict__.update(d)
        self.size = self.bits
        self.k = (self.n.bit_length() + 7) // 8
        self.raw_id = sha1(pack(be(self.n)), pack(be(self.e)))[:4]

    def pubjson(self):
        return json.dumps(dict(modulus=b64e(zp(self.n)), publicExponent=b64e(zp(self.e)), size=self.size))

    def json(self):
        return json.dumps(dict(publicKey=json.loads(self.pubjson()),
                               privateExponent=b64e(zp(self.d)), primeP=b64e(zp(self.p)),
                               primeQ=b64e(zp(self.q)), primeExponentP=b64e(zp(self.d % (self.p - 1))),
                               primeExponentQ=b64e(zp(self.d % (self.q - 1))),
                               crtCoefficient=b64e(zp(pow(self.q, -1, self.p))), size=self.size))

    def rawsig_ok(self, msg, sig):
        return pow(num(sig), self.e, self.n) == num(emsa(msg, self.k))

    def sign(self, msg, rng=None):
        return be(pow(num(emsa(msg, self.k)), self.d, self.n), self.k)

    def encrypt(self, msg, seed):
        em = oaep_encode(msg, self.k, seed)
        return '\0' + self.raw_id + be(pow(num(em), self.e, self.n))

    def parse(self, ct):
        if ct[:5] != '\0' + self.raw_id:
            return None
        c = num(ct[5:])
        if c >= self.n:
            return None
        return oaep_decode(be(pow(c, self.d, self.n), self.k))

    @property
    def limit(self):
        return self.k - 42


class DK(object):
    type = 'DSA_PRIV'

    def __init__(self, d):
        self.__dict__.update(d)
        self.d = d
        self.size = 1024
        self.raw_id = sha1(*[pack(be(v)) for v in (self.p, self.q, self.g, self.y)])[:4]

    def pubjson(self):
        return json.dumps(dict(p=b64e(zp(self.p)), q=b64e(zp(self.q)), g=b64e(zp(self.g)),
                               y=b64e(zp(self.y)), size=1024))

    def json(self):
        return json.dumps(dict(publicKey=json.loads(self.pubjson()), x=b64e(zp(self.x)), size=1024))

    def rawsig_ok(self, msg, sig):
        try:
            t, b, e = der_parse(sig)
            if t != 0x30 or e != len(sig):
                return False
            it = der_items(b)
            if len(it) != 2:
                return False
            r, s = map(der_intval, it)
        except Exception:
            return False
        return dsa_check(self.d, msg, r, s) and sig == der_seq(der_int(r), der_int(s))

    def sign(self, msg, rng=None):
        r, s = dsa_sign(self.d, msg, rng or random.Random(5))
        return der_seq(der_int(r), der_int(s))


class Pub(object):
    """The public half of an RK or DK."""
    def __init__(self, priv):
        self.priv = priv
        self.type = priv.type.replace('PRIV', 'PUB')
        self.size = priv.size
        self.raw_id = priv.raw_id

    def json(self):
        return self.priv.pubjson()


RSAKEYS = [RK(d) for d in POOL['rsa']]
RSAODD = [RK(d) for d in POOL['rsa_odd']]
DSAKEYS = [DK(d) for d in POOL['dsa']]


def rsa_of(bits):
    return [k for k in RSAKEYS if k.bits == bits]


PURPOSES = ['DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY']


def metajson(purpose, typ, versions, name='Test', encrypted=False, exportable=False):
    return json.dumps(dict(name=name, purpose=purpose, type=typ, encrypted=encrypted,
                           versions=[dict(versionNumber=n, status=s, exportable=exportable)
                                     for n, s, _ in versions]))


def lib():
    """The modules under test (imported late so that the shim is in place)."""
    global K, keys, util, keydata, keyinfo, readers, writers, keyczart, errors
    from keyczar import keyczar as K, keys, util, keydata, keyinfo, readers, writers, keyczart, errors
    return sys.modules[__name__]


_MR = None


def mem(meta, keymap):
    """A reader over given JSON texts."""
    global _MR
    if _MR is None:
        class MemReader(readers.Reader):
            def __init__(self, meta, km):
                self.m, self.km = meta, km
                self.asked = []

            def GetMetadata(self):
                return self.m

            def GetKey(self, n):
                self.asked.append(n)
                if n not in self.km:
                    raise errors.KeyczarError('no key %s' % n)
                return self.km[n]

            def Close(self):
                pass

            @classmethod
            def CreateReader(cls, location):
                return None
        _MR = MemReader
    return _MR(meta, keymap)


def keyset(purpose, versions, typ=None, **kw):
    """A reader for versions = [(number, status, key object)]."""
    typ = typ or versions[0][2].type
    return mem(metajson(purpose, typ, versions, **kw), {n: k.json() for n, s, k in versions})


class Urandom(object):
    """Context manager: os.urandom from a list of prepared strings, then really random;
    records what was handed out."""
    def __init__(self, *prepared):
        self.q = list(prepared)
        self.out = []

    def __enter__(self):
        self.old = os.urandom

        def ur(n):
            if self.q and len(self.q[0]) == n:
                r = sb(self.q.pop(0))
            else:
                r = real_urandom(n)
            self.out.append(bs(r))
            return r
        os.urandom = ur
        return self

    def __exit__(self, *a):
        os.urandom = self.old


def both_libs():
    """Runs with each crypto library; yields its name."""
    old = keys.ACTIVE_CRYPT_LIB
    try:
        for n in ('m2crypto', 'pycrypto'):
            keys.ACTIVE_CRYPT_LIB = n
            yield n
    finally:
        keys.ACTIVE_CRYPT_LIB = old


def cuts(rng, s, how):
    """Splits s into pieces; '' pieces may occur."""
    if how == 'one':
        return [s]
    if how == 'chars':
        return list(s)
    if isinstance(how, int):
        return [s[i:i + how] for i in range(0, len(s), how)]
    out = []
    i = 0
    while i < len(s):
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 20, 31, 32, 33, 50, 200])
        out.append(s[i:i + n])
        i += n
    if rng.random() < .3:
        out.append('')
    return out


class Sink(object):
    """An output stream."""
    def __init__(self):
        self.parts = []
        self.closed = False
        self.flushed = 0

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        self.flushed += 1

    def close(self):
        self.closed = True

    def value(self):
        return ''.join(self.parts)


class Source(object):
    """An input stream that hands out at most what is asked, cut as planned.
    plan: list of piece sizes or None (nothing available now); afterwards everything."""
    def __init__(self, data, plan=()):
        self.d = data
        self.plan = list(plan)
        self.calls = 0

    def read(self, n=-1):
        self.calls += 1
        assert self.calls < 200000, 'endless reading'
        p = self.plan.pop(0) if self.plan else -1
        if p is None:
            return None
        if n < 0 or n is None:
            n = len(self.d)
        if p >= 0:
            n = min(n, max(p, 1))
        r, self.d = self.d[:n], self.d[n:]
        return r

    def close(self):
        pass


def main(run):
    raise SystemExit('run through run.py')
