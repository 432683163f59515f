"""C04 attached signatures."""
import common as c
from common import *
from c03 import sets, open_

REJ = Exception     # rejection may be None or any error


def rejected(t, v, blob, nonce, what, **kw):
    """None or an error, never data"""
    t.note(what, dict(kw, blob=blob, nonce=nonce))
    try:
        r = v.AttachedVerify(blob, nonce, None)
    except Exception:
        return
    if r is not None:
        t.fail(what, dict(kw, blob=blob, nonce=nonce, got=r))


NONCES = [None, '', 'n', '\0', '\0\0\0\0', '\0\0\0\1n', 'nonce', 'x' * 16, '\xff' * 20]


def complete(t):
    for ks in sets(t):
        s, ver, key = open_(t, ks)
        few = key.type != 'HMAC_SHA1'
        ms = list(t.msgs([0, 1, 4, 20, 255, 256, 257, 1000])) + ['\0', '\0\0\0\0', '\0\0\0\5', 'a\0']
        if not few:
            ms += list(t.interesting()) + list(t.msgs([65535, 65536, 70000]))
        for m in ms:
            for nonce in ([None, '', t.bs(16)] if few else NONCES + [t.bs(16), t.bs(300)]):
                blob = t.call('sign', s.AttachedSign, m, nonce, None)
                pre = '\0' + key.raw_id + i4(len(m)) + m
                t.ok(blob.startswith(pre), 'layout', m=m, nonce=nonce, blob=blob, typ=key.type)
                t.ok(key.rawsig_ok(m + pack(nonce) + '\0', blob[len(pre):]), 'raw signature over message|packed nonce|0', m=m, nonce=nonce, blob=blob, typ=key.type)
                for v in ver:
                    t.eq(t.call('verify', v.AttachedVerify, blob, nonce, None), m, 'round trip', m=m, nonce=nonce, typ=key.type)
            e = t.call('sign encoded', s.AttachedSign, m, 'nn')
            t.eq(t.call('verify encoded', ver[-1].AttachedVerify, e, 'nn'), m, 'round trip encoded', m=m)
            t.ok(b64d(e).startswith('\0' + key.raw_id + i4(len(m)) + m), 'encoded layout', m=m)
        for k in ks:
            f = '\0' + k.raw_id + pack('data') + k.sign('data' + pack('N') + '\0', t.rng)
            for v in ver:
                t.eq(t.call('foreign', v.AttachedVerify, f, 'N', None), 'data', 'foreign blob by each key', typ=k.type)


def sound(t):
    for ks in sets(t)[:4] + sets(t)[-1:]:
        s, ver, key = open_(t, ks)
        few = key.type != 'HMAC_SHA1'
        for m in ('', 'hello', t.bs(30)):
            for nonce in (None, '', 'abc', '\0\0\0\0'):
                blob = '\0' + key.raw_id + pack(m) + key.sign(m + pack(nonce) + '\0', t.rng)
                for v in ver[-1:] if few else ver:
                    t.eq(t.call('good', v.AttachedVerify, blob, nonce, None), m, 'good', typ=key.type)
                    for n2 in NONCES + [(nonce or '') + '\0', (nonce or '') + 'x', pack(nonce), 'abd', 'ab', 'abcd', 'bc', 'ABC']:
                        if n2 != nonce:
                            rejected(t, v, blob, n2, 'other nonce', real=nonce, m=m, typ=key.type)
                    step = 1 if not few else 9
                    for i in range(0, len(blob), step):
                        if i >= 9 + len(m) and False:
                            continue
                        for d in (1, 128):
                            x = blob[:i] + chr(ord(blob[i]) ^ d) + blob[i + 1:]
                            rejected(t, v, x, nonce, 'changed byte', i=i, m=m, typ=key.type)
                    for i in range(0, len(blob), step):
                        x = blob[:i]
                        rejected(t, v, x, nonce, 'cut', i=i, m=m, typ=key.type)
                    rejected(t, v, blob + 'x', nonce, 'extended')
                    rejected(t, v, '\0' + blob, nonce, 'prepended')
                    # moved frame border
                    for d in (-2, -1, 1, 2, 4):
                        n = len(m) + d
                        if n >= 0:
                            rejected(t, v, blob[:5] + i4(n) + blob[9:], nonce, 'moved border', d=d, m=m, typ=key.type)
                    for n in (2**31 - 1, 2**31, 2**32 - 1, 2**32 - 4, 2**32 - (len(blob) - len(m)), 2**32 - 9, len(blob), 256 * len(m) + 256, len(m) + 2**24):
                        rejected(t, v, blob[:5] + i4(n) + blob[9:], nonce, 'absurd length', n=n, m=m)
                    for k in ks:
                        if k is not key:
                            rejected(t, v, '\0' + k.raw_id + blob[5:], nonce, 'other key named', typ=key.type)
                    for what, x in [('plain', m + '\0'), ('bare nonce', m + (nonce or 'zz') + '\0'), ('no version byte', m + pack(nonce)),
                                    ('nonce first', pack(nonce) + m + '\0q'), ('framed data', pack(m) + pack(nonce) + '\0'),
                                    ('header included', blob[:5] + m + pack(nonce) + '\0'), ('empty nonce framed', m + pack('') + '\0'), ('other nonce', m + pack('other') + '\0')]:
                        if x != m + pack(nonce) + '\0':
                            rejected(t, v, '\0' + key.raw_id + pack(m) + key.sign(x, t.rng), nonce, 'signature over something else: ' + what, m=m, typ=key.type)
                    for b in (1, 255):
                        rejected(t, v, chr(b) + blob[1:], nonce, 'version byte')
                    rejected(t, v, '\0' + t.bs(4) + blob[5:], nonce, 'unknown key')
    # data and nonce may not trade bytes
    k = HK(t.bs(32))
    v = c.K.Verifier(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', k)]))
    tot = 'abcdefgh'
    for i in range(len(tot) + 1):
        blob = '\0' + k.raw_id + pack(tot[:i]) + k.sign(tot[:i] + pack(tot[i:]) + '\0')
        for j in range(len(tot) + 1):
            if j != i:
                rejected(t, v, blob, tot[j:], 'nonce of another split')
                rejected(t, v, '\0' + k.raw_id + pack(tot[:j]) + blob[9 + i:], tot[j:], 'other split of data and nonce', i=i, j=j)


GROUPS = [complete, sound]
