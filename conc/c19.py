"""C19 HMAC."""
import common as c
from common import *

LENS = list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 5000]


def hk(key):
    return c.keys.HmacKey(b64e(key), 256)


def body(t):
    for kl in [0, 1, 16, 20, 31, 32, 33, 63, 64, 65, 100]:
        key = t.bs(kl)
        k = hk(key)
        for n in (LENS if kl == 32 else LENS[::7]):
            m = t.bs(n)
            w = hmac1(key, m)
            g = t.call('Sign', k.Sign, m)
            t.eq(g, w, 'Sign is HMAC-SHA1', key=key, m=m)
            t.eq(t.call('Verify', k.Verify, m, w), True, 'Verify accepts the MAC', key=key, m=m)
            for how in ('one', 'chars', 3, 64, 'rnd', 'rnd'):
                if how == 'chars' and n > 300:
                    continue
                s = t.call('CreateStreamable', lambda: k.CreateStreamable())
                ps = cuts(t.rng, m, how)
                for p in ps:
                    t.call('Update', s.Update, p)
                t.eq(t.call('stream Sign', s.Sign), w, 'streamed MAC', key=key, m=m, cuts=[len(p) for p in ps])
    for key in list(t.interesting()):
        for m in list(t.interesting())[::5]:
            t.eq(t.call('Sign', hk(key).Sign, m), hmac1(key, m), 'Sign is HMAC-SHA1', key=key, m=m)


def rejects(t):
    for key in (t.bs(32), '\0' * 32, t.bs(20)):
        k = hk(key)
        for m in ('', 'a', '\0', t.bs(40)):
            w = hmac1(key, m)
            for i in range(20):
                for b in range(8):
                    x = w[:i] + chr(ord(w[i]) ^ (1 << b)) + w[i + 1:]
                    t.eq(t.call('Verify', k.Verify, m, x), False, 'one bit differs', key=key, m=m, sig=x, at=(i, b))
            for i in range(20):
                for j in range(i):
                    d = t.rng.randrange(1, 256)
                    x = list(w)
                    x[i] = chr(ord(x[i]) ^ d)
                    x[j] = chr(ord(x[j]) ^ d)
                    x = ''.join(x)
                    t.eq(t.call('Verify', k.Verify, m, x), False, 'two bytes differ alike', key=key, m=m, sig=x)
                    x = list(w)
                    x[i], x[j] = x[j], x[i]
                    x = ''.join(x)
                    t.eq(t.call('Verify', k.Verify, m, x), x == w, 'two bytes swapped', key=key, m=m, sig=x)
            for x in [w[:i] for i in range(20)] + [w + ch for ch in '\0\1\xff'] + [w + w, '\0' + w, w[1:], w[::-1], '', '\0', '\0' * 20, '\xff' * 20, '\0' * 21, t.bs(20), t.bs(19), t.bs(21), t.bs(1000), b64e(w), w.upper() if w.upper() != w and all(ord(ch) < 256 for ch in w.upper()) else '']:
                t.eq(t.call('Verify', k.Verify, m, x), x == w, 'wrong MAC', key=key, m=m, sig=x)
            for m2 in (m + '\0', m + 'x', '\0' + m, m[1:] if m else 'q', m[:-1] if m else 'z'):
                t.eq(t.call('Verify', k.Verify, m2, w), hmac1(key, m2) == w, 'MAC of another message', key=key, m=m2, sig=w)
    # repeated use does not change the answer
    k = hk(t.bs(32))
    for i in range(30):
        m = t.bs(i)
        w = hmac1(k.key_bytes, m)
        t.eq(k.Verify(m, '\0' * 20), False, 'first a wrong one')
        t.eq(k.Verify(m, w), True, 'then the right one')
        t.eq(k.Verify(m, w[:-1] + chr(ord(w[-1]) ^ 255)), False, 'then a wrong one')
        t.eq(k.Sign(m), w, 'and signing')
    for x in t.extra:
        if isinstance(x, str) and all(ord(ch) < 256 for ch in x):
            t.eq(t.call('Sign', k.Sign, x), hmac1(k.key_bytes, x), 'Sign is HMAC-SHA1 (solver input)', m=x)
            t.eq(t.call('Verify', k.Verify, 'm', x), hmac1(k.key_bytes, 'm') == x, 'Verify (solver input)', sig=x)


def signed_data(t):
    """VerifySignedData compares given MACs"""
    k = hk(t.bs(32))
    f = getattr(k, 'VerifySignedData', None)
    if f is None:
        return
    for a in ('', 'a', t.bs(20), '\0' * 20):
        for b in ('', 'a', a, a + '\0', a[:-1], a[:10], t.bs(20), t.bs(20), '\0' * 20):
            t.eq(t.call('VerifySignedData', f, a, b), a == b, 'comparison', a=a, b=b)
    for i in range(20):
        a = t.bs(20)
        for d in range(1, 256, 5):
            b = a[:i] + chr(ord(a[i]) ^ d) + a[i + 1:]
            t.eq(t.call('VerifySignedData', f, a, b), False, 'comparison', a=a, b=b)
        t.eq(t.call('VerifySignedData', f, a, a), True, 'comparison', a=a)


def streams(t):
    """two streams at once; the key's other operations do not disturb a stream"""
    k = hk(t.bs(32))
    ss = [k.CreateStreamable() for _ in range(4)]
    ms = [''] * 4
    for _ in range(100):
        i = t.rng.randrange(4)
        p = t.bs(t.rng.randrange(20))
        ss[i].Update(p)
        ms[i] += p
        k.Sign(p)
    for s, m in zip(ss, ms):
        t.eq(s.Sign(), hmac1(k.key_bytes, m), 'interleaved streams', m=m)


GROUPS = [body, rejects, signed_data, streams]
