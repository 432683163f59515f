"""C15 decrypting streams."""
import common as c
from common import *


def plans(t, n):
    yield []
    yield [1] * (n + 5)
    yield [16] * (n // 16 + 5)
    yield [None, 1, None, None, 4] * 3
    for _ in range(4):
        yield [t.rng.choice([None, 1, 2, 3, 4, 5, 7, 15, 16, 17, 20, 40]) for _ in range(t.rng.randrange(5, 60))]
    yield [t.rng.choice([1, 2, 3, 5, 16]) for _ in range(n)]


def drain(t, r, sizes, kw):
    """reads to the end; returns the concatenation.  '' is the end."""
    out = []
    i = 0
    nones = 0
    for _ in range(200000):
        n = sizes[i % len(sizes)]
        i += 1
        x = r.read(n)
        if x is None:
            nones += 1
            continue
        if x == '' and n != 0:
            return ''.join(out)
        if n >= 0 and len(x) > n:
            t.fail('more than asked for', dict(kw, asked=n, got=len(x)))
        out.append(x)
    t.fail('end never reported', kw)


SIZES = [[-1], [1], [5], [16], [1000], [3, 7, 0, 1], [0, 1], [20, -1]]


def good(t):
    for libname in both_libs():
        for size in (16, 24, 32):
            key = AK(t.bs(size), t.bs(32))
            cr = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'ACTIVE', AK(t.bs(16), t.bs(32))), (2, t.rng.choice(['PRIMARY', 'ACTIVE', 'INACTIVE']), key)]))
            lens = list(range(0, 50)) + [63, 64, 65, 79, 80, 81, 200, 1000]
            if size == 16 and libname == 'm2crypto':
                lens += [4095, 4096, 4097]
            else:
                lens = lens[::6] + [15, 16, 17, 32]
            for n in lens:
                m = t.bs(n)
                ct = key.encrypt(m, t.bs(16))
                for enc in (False, True):
                    data = b64e(ct) if enc else ct
                    for plan in plans(t, len(data)):
                        for sizes in (SIZES if n < 20 else t.rng.sample(SIZES, 2)):
                            bsz = t.rng.choice([None, -1, 0, 1, 15, 16, 17, 64, 4096])
                            kw = dict(m=m, ct=ct, enc=enc, plan=plan, sizes=sizes, buffer_size=bsz)
                            a = [] if enc else [None]
                            if bsz is not None:
                                a = [c.util.IncrementalBase64WSStreamReader if enc else None, bsz]
                            r = t.call('create', cr.CreateDecryptingStreamReader, Source(data, plan), *a)
                            got = t.call('read to the end', drain, t, r, sizes, kw, **kw)
                            t.eq(got, m, 'exactly the plaintext', **kw)
                            t.eq(r.read() or '', '', 'stays at the end', **kw)


def oneshot_ok(ks, raw):
    k = [k for k in ks if raw[:5] == '\0' + k.raw_id]
    return bool(k) and len(raw) >= 41 and raw[-20:] == hmac1(k[0].mac, raw[:-20])


def must_raise(t, cr, raw, what, plan=(), sizes=(-1,), ks=()):
    kw = dict(what=what, raw=raw, plan=list(plan), sizes=list(sizes))
    r = cr.CreateDecryptingStreamReader(Source(raw, plan), None)
    t.note('bad stream: ' + what, kw)
    try:
        x = drain(t, r, list(sizes), kw)
    except Abort:
        raise
    except Exception:
        return
    t.fail('stream ended without an error: ' + what, dict(kw, got=x))


def bad(t):
    ks = [AK(t.bs(16), t.bs(32)), AK(t.bs(32), t.bs(32))]
    cr = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'ACTIVE', ks[0]), (2, 'PRIMARY', ks[1])]))
    for n in (0, 3, 15, 16, 20, 40, 100):
        k = ks[n % 2]
        ct = k.encrypt(t.bs(n), t.bs(16))
        for plan, sizes in (([], [-1]), ([1] * 500, [1]), ([None, 3, 7] * 40, [5])):
            for i in range(len(ct)):
                must_raise(t, cr, ct[:i] + chr(ord(ct[i]) ^ (1 << t.rng.randrange(8))) + ct[i + 1:], 'changed byte %d' % i, plan, sizes)
                must_raise(t, cr, ct[:i], 'truncated to %d' % i, plan, sizes)
            for i in range(0, len(ct), 3):
                must_raise(t, cr, ct[:i] + chr(ord(ct[i]) ^ 1) + ct[i:], 'added byte', plan, sizes)
                must_raise(t, cr, ct[:i] + ct[i + 1:], 'missing byte', plan, sizes)
            for ext in ('\0', t.bs(16), t.bs(20), t.bs(36), ct):
                must_raise(t, cr, ct + ext, 'extended', plan, sizes)
            for j in range(16, len(ct) - 41, 16):
                must_raise(t, cr, ct[:21 + j - 16] + ct[21 + j:], 'block removed', plan, sizes)
            must_raise(t, cr, '\0' + t.bs(4) + ct[5:], 'unknown key', plan, sizes)
            must_raise(t, cr, '\1' + ct[1:], 'bad version', plan, sizes)
            must_raise(t, cr, '\0' + ks[(n + 1) % 2].raw_id + ct[5:], 'other key', plan, sizes)
            must_raise(t, cr, ct[:-20] + hmac1(k.mac, ct[5:-20]), 'MAC without header', plan, sizes)
            must_raise(t, cr, ct[:-20] + hmac1(k.mac, ct[:5] + ct[21:-20]), 'MAC without IV', plan, sizes)
            must_raise(t, cr, ct[:-20] + '\0' * 20, 'zero MAC', plan, sizes)
    must_raise(t, cr, '', 'empty')
    # the end is not reported before the MAC was checked: no '' while data is pending
    k = ks[0]
    for n in (0, 10, 16, 50):
        ct = k.encrypt(t.bs(n), t.bs(16))
        badct = ct[:-1] + chr(ord(ct[-1]) ^ 1)
        for cutat in range(0, len(ct)):
            src = Source(badct, [cutat or None] + [None] * 5)
            r = cr.CreateDecryptingStreamReader(src, None)
            try:
                for _ in range(4):
                    x = r.read(4)
                    t.ok(x != '', 'end reported while the source only paused', ct=ct, cutat=cutat)
            except Exception as e:
                if isinstance(e, Abort):
                    raise


def closed(t):
    k = AK(t.bs(16), t.bs(32))
    cr = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', k)]))
    r = cr.CreateDecryptingStreamReader(Source(k.encrypt('abc', t.bs(16))), None)
    r.close()
    t.raises(ValueError, 'read after close', r.read)
    e = cr.CreateEncryptingStreamWriter
    # through both stream ends
    for n in (0, 1, 16, 33, 5000):
        m = t.bs(n)
        for coder in (True, False):
            s = Sink()
            w = cr.CreateEncryptingStreamWriter(s, *([] if coder else [None]))
            for p in cuts(t.rng, m, 'rnd'):
                w.write(p)
            w.flush()
            r = cr.CreateDecryptingStreamReader(Source(s.value()), *([] if coder else [None]))
            t.eq(t.call('drain', drain, t, r, [7], {}), m, 'stream to stream', n=n)


GROUPS = [closed, bad, good]
