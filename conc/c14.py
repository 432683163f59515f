"""C14 encrypting streams."""
import common as c
from common import *

HOWS = ['one', 'chars', 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 64, 'rnd', 'rnd', 'rnd', 'rnd']


def body(t):
    for libname in both_libs():
        for size in (16, 24, 32):
            key = AK(t.bs(size), t.bs(32))
            vs = [(1, 'ACTIVE', AK(t.bs(16), t.bs(32))), (2, 'PRIMARY', key)]
            for cls in (c.K.Crypter, c.K.Encrypter):
                e = cls(keyset('DECRYPT_AND_ENCRYPT', vs))
                cr = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', vs))
                lens = list(range(0, 50)) + [63, 64, 65, 100, 127, 128, 129, 1000]
                if size == 16 and cls is c.K.Crypter:
                    lens += [4095, 4096, 4097, 10000]
                else:
                    lens = lens[::5] + [16, 32, 48]
                for n in lens:
                    m = t.bs(n)
                    for how in HOWS if n < 300 else ['one', 16, 17, 1000, 'rnd']:
                        ps = cuts(t.rng, m, how)
                        if t.rng.random() < .3:
                            ps.insert(t.rng.randrange(len(ps) + 1), '')
                        for enc in ((None, True) if how in ('one', 3, 'rnd', 16) else (None,)):
                            iv = t.bs(16)
                            s = Sink()
                            with Urandom(iv) as u:
                                w = t.call('create', e.CreateEncryptingStreamWriter, s, *([] if enc else [None]))
                                for p in ps:
                                    t.call('write', w.write, p, cuts=[len(x) for x in ps], m=m)
                                t.call('flush', w.flush)
                            v = s.value()
                            raw = b64d(v) if False else v
                            if enc:
                                # the encoding stream holds back what does not fill a group until flushed
                                raw = b64d(v)
                                t.eq(t.call('one-shot decryption', cr.Decrypt, v, m=m), m, 'accepted by one-shot decryption, encoded', m=m, cuts=[len(x) for x in ps])
                            kw = dict(m=m, cuts=[len(x) for x in ps], lib=libname, size=size)
                            t.eq(key.parse(raw), m, 'exactly one valid Header|IV|ciphertext|MAC', **kw)
                            if iv in u.out:
                                t.eq(raw, key.encrypt(m, iv), 'independent of the cutting', **kw)
                            t.ok(enc or s.flushed > 0, 'flush reaches the output stream')
                            t.eq(t.call('decrypt', cr.Decrypt, raw, None), m, 'accepted by one-shot decryption', **kw)


def closed(t):
    key = AK(t.bs(16), t.bs(32))
    e = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', key)]))
    for pre in ([], ['abc'], ['x' * 40]):
        s = Sink()
        w = e.CreateEncryptingStreamWriter(s, None)
        for p in pre:
            w.write(p)
        w.flush()
        v = s.value()
        t.call('close', w.close)
        for op, a in (('write', ('x',)), ('write', ('',)), ('write', ('y' * 100,)), ('flush', ()), ('close', ())):
            t.raises(ValueError, op + ' after close', getattr(w, op), *a)
        t.eq(s.value(), v, 'nothing is written after close')
        t.ok(not s.closed, 'the output stream stays open')
    s = Sink()
    w = e.CreateEncryptingStreamWriter(s, None)
    w.write('abc')
    w.close()
    for op, a in (('write', ('x',)), ('flush', ()), ('close', ())):
        t.raises(ValueError, op + ' after close without flush', getattr(w, op), *a)


def interleaved(t):
    """two streams at once do not disturb each other"""
    ks = [AK(t.bs(16), t.bs(32)), AK(t.bs(32), t.bs(32))]
    es = [c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', k)])) for k in ks] * 2
    ss = [Sink() for _ in es]
    ms = [''] * 4
    ws = [e.CreateEncryptingStreamWriter(s, None) for e, s in zip(es, ss)]
    for _ in range(200):
        i = t.rng.randrange(4)
        p = t.bs(t.rng.randrange(30))
        ws[i].write(p)
        ms[i] += p
    for i in range(4):
        ws[i].flush()
        t.eq(ks[i % 2].parse(ss[i].value()), ms[i], 'interleaved streams')
    ivs = {s.value()[5:21] for s in ss}
    t.eq(len(ivs), 4, 'fresh IVs')


def large(t):
    """messages beyond the usual buffer sizes"""
    key = AK(t.bs(16), t.bs(32))
    e = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', key)]))
    for n in (8191, 8193, 65535, 65536, 70000, 140001):
        m = t.bs(n)
        for how in ('one', 1000, 'rnd'):
            ps = cuts(t.rng, m, how)
            for enc in (None, True):
                s = Sink()
                w = e.CreateEncryptingStreamWriter(s, *([] if enc else [None]))
                for p in ps:
                    t.call('write', w.write, p, size=n)
                t.call('flush', w.flush)
                v = s.value()
                t.ok(key.parse(b64d(v) if enc else v) == m, 'exactly one valid Header|IV|ciphertext|MAC', size=n, cuts=[len(x) for x in ps][:20])


GROUPS = [closed, interleaved, large, body]
