"""C18 sessions."""
import common as c
from common import *


def pairs(t):
    ks = [(1, 'ACTIVE', AK(t.bs(16), t.bs(32))), (2, 'PRIMARY', AK(t.bs(32), t.bs(32)))]
    r = keyset('DECRYPT_AND_ENCRYPT', ks)
    yield 'AES', ks[1][2], c.K.Encrypter(r), c.K.Crypter(r)
    k = rsa_of(2048)[0]
    r = keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', k)])
    yield 'RSA', k, c.K.Encrypter(mem(metajson('ENCRYPT', 'RSA_PUB', [(1, 'PRIMARY', k)]), {1: k.pubjson()})), c.K.Crypter(r)
    k = rsa_of(4096)[0]
    r = keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', k)])
    yield 'RSA4096', k, c.K.Encrypter(r), c.K.Crypter(r)


def signers(t):
    for k in (HK(t.bs(32)), rsa_of(512)[0], DSAKEYS[0]):
        r = keyset('SIGN_AND_VERIFY', [(3, 'PRIMARY', k)])
        v = c.K.Verifier(mem(metajson('VERIFY', k.type.replace('PRIV', 'PUB'), [(3, 'PRIMARY', k)]), {3: k.pubjson()})) if hasattr(k, 'pubjson') else c.K.Verifier(r)
        yield k, c.K.Signer(r), v


DATA = lambda t: ['', 'x', 'hello', '\0' * 16, t.bs(15), t.bs(16), t.bs(17), t.bs(500)]


def unpack2(s):
    n = num(s[:4]); assert n == 2
    out = []; i = 4
    for _ in range(n):
        l = num(s[i:i + 4]); out.append(s[i + 4:i + 4 + l]); i += 4 + l
    assert i == len(s)
    return out


def plain(t):
    K = c.K
    seen = set()
    for name, key, enc, dec in pairs(t):
        for i in range(4):
            with Urandom() as u:
                se = t.call('SessionEncrypter', K.SessionEncrypter, enc)
            m = key.parse(b64d(se.session_material))
            t.ok(m is not None, 'session material is a ciphertext of the encrypter', kind=name)
            a, h = unpack2(m)
            t.ok(len(a) in (16, 24, 32) and len(h) == 32, 'packed key', kind=name)
            t.ok(a in u.out and h in u.out and a != h, 'fresh key from the random source', kind=name)
            t.ok(a not in seen and h not in seen, 'every session has its own key', kind=name)
            seen |= {a, h}
            sk = AK(a, h)
            t.eq(se.session_material, se.session_material, 'material is stable')
            sd = t.call('SessionDecrypter', K.SessionDecrypter, dec, se.session_material)
            for d in DATA(t):
                ct = t.call('Encrypt', se.Encrypt, d)
                t.eq(sk.parse(b64d(ct)), d, 'encrypted under the session key', d=d)
                t.eq(t.call('Decrypt', sd.Decrypt, ct), d, 'session round trip', d=d, kind=name)
                raw = t.call('Encrypt raw', se.Encrypt, d, None)
                t.eq(sk.parse(raw), d, 'encrypted under the session key, raw', d=d)
                t.eq(t.call('Decrypt raw', sd.Decrypt, raw, None), d, 'session round trip raw', d=d, kind=name)
                bad = raw[:-1] + chr(ord(raw[-1]) ^ 1)
                t.raises(c.errors.KeyczarError, 'altered', sd.Decrypt, bad, None)
            se2 = K.SessionEncrypter(enc)
            t.raises(c.errors.KeyczarError, 'another session', sd.Decrypt, se2.Encrypt('hello'))
            # foreign material
            sd2 = t.call('material made elsewhere', K.SessionDecrypter, dec, enc.Encrypt('\0\0\0\2' + pack(a) + pack(h)))
            t.eq(t.call('Decrypt', sd2.Decrypt, ct), d, 'same session key', kind=name)


def badmaterial(t):
    K = c.K
    R = Exception
    for name, key, enc, dec in list(pairs(t))[:2]:
        a, h = t.bs(16), t.bs(32)
        good = '\0\0\0\2' + pack(a) + pack(h)
        t.call('good', K.SessionDecrypter, dec, enc.Encrypt(good))
        bads = [good[:i] for i in range(len(good))] + [good + 'x', good + '\0\0\0\0', '\0\0\0\1' + pack(a), '\0\0\0\3' + pack(a) + pack(h) + pack(''),
                '\0\0\0\3' + pack(a) + pack(h) + pack(a), '\0\0\0\0',   # (the leading count is redundant and documented as skipped)
                '\0\0\0\2' + '\xff\xff\xff\xff' + a + pack(h), '\0\0\0\2' + '\0\0\0\x11' + a + pack(h), '\0\0\0\2' + '\0\0\0\x0f' + a + pack(h), '\0\0\0\2' + pack(a) + '\0\0\0\x21' + h, '\0\0\0\2' + pack(a) + '\0\0\0\x1f' + h,
                a + h, '{}']
        for b in bads:
            t.raises(R, 'material that is not exactly the packed key', K.SessionDecrypter, dec, enc.Encrypt(b), packed=b)
        t.raises(R, 'undecryptable material', K.SessionDecrypter, dec, b64e(t.bs(80)))
        t.raises(R, 'unencrypted material', K.SessionDecrypter, dec, b64e(good))
        hm = HK(t.bs(32))
        v = K.Verifier(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', hm)]))
        if name == 'AES':
            okj = dict(key=json.loads(AK(a, h).json()), nonce=b64e(t.bs(16)))
            t.call('good', K.SignedSessionDecrypter, dec, v, enc.Encrypt(json.dumps(okj)))
            for b in [good, '', '{}', '[]', json.dumps(dict(key=okj['key'])), json.dumps(dict(nonce=okj['nonce'])), json.dumps(okj)[:-1], json.dumps(okj) + 'x']:
                t.raises(R, 'JSON material', K.SignedSessionDecrypter, dec, v, enc.Encrypt(b), material=b)


def signed(t):
    K = c.K
    seen = set()
    for name, key, enc, dec in pairs(t):
        if name == 'RSA':
            continue          # JSON session material exceeds RSA-2048's limit
        for skey, signer, ver in signers(t):
            for i in range(2):
                with Urandom() as u:
                    se = t.call('SignedSessionEncrypter', K.SignedSessionEncrypter, enc, signer)
                m = key.parse(b64d(se.session_material))
                t.ok(m is not None, 'session material', kind=name)
                j = json.loads(m)
                t.eq(sorted(j), ['key', 'nonce'], 'session material fields')
                nonce = b64d(j['nonce'])
                a, h = b64d(j['key']['aesKeyString']), b64d(j['key']['hmacKey']['hmacKeyString'])
                t.ok(len(nonce) == 16, '16-byte nonce')
                t.ok(a in u.out and h in u.out and nonce in u.out and len({a, h, nonce}) == 3, 'fresh key and nonce')
                t.ok(not ({a, h, nonce} & seen), 'every session has its own key and nonce')
                seen |= {a, h, nonce}
                sk = AK(a, h)
                sd = t.call('SignedSessionDecrypter', K.SignedSessionDecrypter, dec, ver, se.session_material)
                other = K.SignedSessionEncrypter(enc, signer)
                ot = K.SignedSessionDecrypter(dec, ver, other.session_material)
                for d in DATA(t):
                    blob = t.call('Encrypt', se.Encrypt, d)
                    raw = b64d(blob)
                    n = num(raw[5:9])
                    ct, sig = raw[9:9 + n], raw[9 + n:]
                    t.eq(raw[:5], '\0' + skey.raw_id, 'header of the signer')
                    t.eq(sk.parse(ct), d, 'ciphertext under the session key', d=d)
                    t.ok(skey.rawsig_ok(ct + pack(nonce) + '\0', sig), 'signature covers ciphertext and nonce', d=d)
                    t.eq(t.call('Decrypt', sd.Decrypt, blob, d=d), d, 'signed session round trip', d=d)

                    def rej(what, b, who=sd):
                        t.note(what, dict(b=b))
                        try:
                            r = who.Decrypt(b)
                        except Exception:
                            return
                        if r is not None:
                            t.fail(what, dict(blob=b, got=r))
                    rej('the nonce of another session', blob, ot)
                    for w in range(0, len(raw), max(1, len(raw) // 12)):
                        rej('altered blob', b64e(raw[:w] + chr(ord(raw[w]) ^ 1) + raw[w + 1:]))
                    rej('unsigned', b64e(raw[:9 + n]))
                    rej('no nonce in the signature', b64e(raw[:5] + pack(ct) + skey.sign(ct + '\0', t.rng)))
                    rej('wrong nonce in the signature', b64e(raw[:5] + pack(ct) + skey.sign(ct + pack(t.bs(16)) + '\0', t.rng)))
                    fake = HK(t.bs(32))
                    rej('unknown signer', b64e('\0' + fake.raw_id + pack(ct) + fake.sign(ct + pack(nonce) + '\0')))
                    # a valid signature over something that is no session ciphertext
                    rej('signed junk', b64e(raw[:5] + pack('') + skey.sign(pack(nonce) + '\0', t.rng)))
                    rej('signed junk', b64e(raw[:5] + pack(ct[:-1]) + skey.sign(ct[:-1] + pack(nonce) + '\0', t.rng)))


def interleaved(t):
    """sessions do not share cached crypters"""
    K = c.K
    r = keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', AK(t.bs(16), t.bs(32)))])
    enc, dec = K.Encrypter(r), K.Crypter(r)
    es = [K.SessionEncrypter(enc) for _ in range(5)]
    ds = [K.SessionDecrypter(dec, e.session_material) for e in es]
    for n in range(3):
        cts = [e.Encrypt('m%d-%d' % (n, i)) for i, e in enumerate(es)]
        for i, d in enumerate(ds):
            t.eq(t.call('Decrypt', d.Decrypt, cts[i]), 'm%d-%d' % (n, i), 'interleaved sessions')
            t.raises(c.errors.KeyczarError, 'another session', d.Decrypt, cts[(i + 1) % 5])
    # many short-lived sessions (identity reuse)
    for i in range(300):
        e = K.SessionEncrypter(enc)
        d = K.SessionDecrypter(dec, e.session_material)
        t.eq(t.call('Decrypt', d.Decrypt, e.Encrypt('x%d' % i)), 'x%d' % i, 'short-lived sessions', i=i)
        del e, d


GROUPS = [interleaved, badmaterial, plain, signed]
