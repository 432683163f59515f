"""C03 signatures."""
import common as c
from common import *


def sets(t):
    """(key list, Signer, Verifier list)"""
    hs = [HK(t.bs(32)) for _ in range(3)]
    out = [hs, rsa_of(512)[:3], rsa_of(768)[:2], rsa_of(1024)[:2] + [k for k in RSAKEYS if k.e == 3], rsa_of(2048)[:2], DSAKEYS[:3]]
    if t.thorough:
        out += [rsa_of(4096)[:1], DSAKEYS[3:]]
    return out


def open_(t, ks, prim=1):
    prim = min(prim, len(ks) - 1)
    vs = [(i + 1, 'PRIMARY' if i == prim else ['ACTIVE', 'INACTIVE'][i % 2], k) for i, k in enumerate(ks)]
    s = t.call('open signer', c.K.Signer, keyset('SIGN_AND_VERIFY', vs))
    ver = [s, t.call('open verifier', c.K.Verifier, keyset('SIGN_AND_VERIFY', vs))]
    if ks[0].type != 'HMAC_SHA1':
        ver.append(t.call('open public verifier', c.K.Verifier,
                          keyset('VERIFY', [(n, st, Pub(k)) for n, st, k in vs])))
    return s, ver, ks[prim]


def msgs(t, ks):
    n = 30 if ks[0].type == 'HMAC_SHA1' else 6
    return list(t.msgs([0, 1, 2, 19, 20, 21, 63, 64, 65, 1000][:n])) + list(t.interesting())[:n * 2]


def complete(t):
    for ks in sets(t):
        s, ver, key = open_(t, ks)
        for m in msgs(t, ks):
            sig = t.call('sign', s.Sign, m)
            raw = b64d(sig)
            t.eq(raw[:5], '\0' + key.raw_id, 'header', typ=key.type, msg=m)
            t.ok(key.rawsig_ok(m + '\0', raw[5:]), 'raw signature over message|0', typ=key.type, size=key.size, msg=m, sig=raw)
            if key.type == 'RSA_PRIV':
                t.eq(len(raw), 5 + key.k, 'RSA signature length', msg=m)
            raw2 = t.call('sign raw', s.Sign, m, None)
            t.ok(raw2[:5] == raw[:5] and key.rawsig_ok(m + '\0', raw2[5:]), 'unencoded signature', msg=m)
            for v in ver:
                t.ok(t.call('verify', v.Verify, m, sig) is True or v.Verify(m, sig) == True, 'verifies', msg=m, typ=key.type)
                t.ok(t.call('verify raw', v.Verify, m, raw2, None), 'verifies unencoded', msg=m, typ=key.type)
        # any key of the set, whatever its status
        for k in ks:
            f = '\0' + k.raw_id + k.sign('foreign\0', t.rng)
            for v in ver:
                t.ok(t.call('verify foreign', v.Verify, 'foreign', f, None), 'foreign signature by each key verifies', typ=k.type)


def sound(t):
    for ks in sets(t):
        s, ver, key = open_(t, ks)
        for m in [t.bs(10), '', t.bs(3) + '\0']:
            raw = '\0' + key.raw_id + key.sign(m + '\0', t.rng)
            for v in ver:
                t.ok(v.Verify(m, raw, None), 'good', typ=key.type)
                # other messages
                for m2 in [m + '\0', m + 'x', m[:-1] if m else 'q', '\0' + m, m + '\0\0', t.bs(len(m) or 3), m.upper() + '!', m * 2 + '.']:
                    if m2 != m:
                        t.ok(not v.Verify(m2, raw, None), 'other message', m=m, m2=m2, typ=key.type)
                for i in range(len(m)):
                    t.ok(not v.Verify(m[:i] + chr(ord(m[i]) ^ (1 << i % 8)) + m[i + 1:], raw, None), 'message bit', typ=key.type)
                # other signatures
                step = 1 if len(raw) < 80 else 7
                for i in range(5, len(raw), step):
                    for d in (1, 128) if len(raw) < 80 else (1 << t.rng.randrange(8),):
                        x = raw[:i] + chr(ord(raw[i]) ^ d) + raw[i + 1:]
                        t.ok(t.call('changed signature', v.Verify, m, x, None) == False, 'changed signature', i=i, d=d, typ=key.type, m=m, sig=x)
                for i in list(range(5, min(len(raw), 30))) + [len(raw) - 1]:
                    t.ok(t.call('cut signature', v.Verify, m, raw[:i], None) == False, 'cut signature', i=i, typ=key.type)
                for junk in ['', '\0', '\0' * 20, '\xff' * 20, 'x', t.bs(20), t.bs(40), t.bs(64), '\x30\x00', '\x30\x06\x02\x01\x00\x02\x01\x00', '\x30\x03\x02\x01\x01', '\x02\x01\x05',
                             '\x30\x80', '\x30\x09\x02\x01\x01\x02\x01\x01\x02\x01\x01', '\x30\x06\x04\x01\x61\x04\x01\x61', '\x05\x00']:
                    t.ok(t.call('junk signature', v.Verify, m, raw[:5] + junk, None) == False, 'junk signature', junk=junk, typ=key.type)
                # signature over something else
                for what, x in [('without the version byte', m), ('with two', m + '\0\0'), ('with a nonce', m + i4(0) + '\0'), ('with byte 1', m + '\1'), ('of the hash', sha1(m + '\0'))]:
                    t.ok(not v.Verify(m, raw[:5] + key.sign(x, t.rng), None), 'signature ' + what, typ=key.type)
                # key confusion
                for k in ks:
                    if k is not key:
                        t.ok(t.call('wrong key named', v.Verify, m, '\0' + k.raw_id + raw[5:], None) == False, 'another key of the set named', typ=key.type)
        errs(t, ver, key)


def errs(t, ver, key):
    raw = '\0' + key.raw_id + key.sign('m\0', t.rng)
    for v in ver:
        for n in range(5):
            t.raises(c.errors.ShortSignatureError, 'short', v.Verify, 'm', raw[:n], None)
        t.raises(c.errors.ShortSignatureError, 'short', v.Verify, 'm', '')
        for b in list(range(1, 256)) if key.type == 'HMAC_SHA1' else (1, 2, 128, 255):
            t.raises(c.errors.BadVersionError, 'version byte', v.Verify, 'm', chr(b) + raw[1:], None, b=b)
        for u in ('\0\0\0\0', t.bs(4), chr(ord(raw[1]) ^ 1) + raw[2:5], raw[1:4] + chr(ord(raw[4]) ^ 128)):
            t.raises(c.errors.KeyNotFoundError, 'unknown key', v.Verify, 'm', '\0' + u + raw[5:], None)
        t.raises(c.errors.KeyczarError, 'bad Base64', v.Verify, 'm', 'AAAAA')


def noprimary(t):
    for ks in sets(t)[:3] + [DSAKEYS[:2]]:
        for vs in ([], [(i + 1, 'ACTIVE', k) for i, k in enumerate(ks)], [(1, 'INACTIVE', ks[0])]):
            s = t.call('open', c.K.Signer, keyset('SIGN_AND_VERIFY', vs, typ=ks[0].type))
            t.raises(c.errors.NoPrimaryKeyError, 'no primary', s.Sign, 'x')
            t.raises(c.errors.NoPrimaryKeyError, 'no primary', s.AttachedSign, 'x', 'n')
            for n, st, k in vs:
                t.ok(s.Verify('q', '\0' + k.raw_id + k.sign('q\0', t.rng), None), 'still verifies')


def zeros(t):
    """RSA signatures with leading zero bytes keep the modulus length"""
    k = rsa_of(512)[0]
    s = c.K.Signer(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', k)]))
    found = 0
    for i in range(3000):
        m = 'z%d' % i
        want = k.sign(m + '\0')
        if want[0] == '\0':
            found += 1
            t.eq(s.Sign(m, None), '\0' + k.raw_id + want, 'signature with leading zero', msg=m)
            t.ok(s.Verify(m, '\0' + k.raw_id + want, None), 'verifies')
        if found > 4:
            break
    # two zero bytes, via a small modulus search would be long: the padded form is what counts


def key_rotation(t):
    hs = [HK(t.bs(32)) for _ in range(6)]
    for prim in range(6):
        vs = [(i + 1, 'PRIMARY' if i == prim else 'ACTIVE', k) for i, k in enumerate(hs)]
        s = c.K.Signer(keyset('SIGN_AND_VERIFY', vs))
        t.eq(s.Sign('m', None), '\0' + hs[prim].raw_id + hmac1(hs[prim].key, 'm\0'), 'the primary signs', prim=prim)


GROUPS = [noprimary, key_rotation, complete, sound, zeros]
