"""C12 PKCS#1 and DSA encodings."""
import common as c
from common import *


def ty(n):
    return c.keyinfo.GetType(n)


def mgf(t):
    U = c.util
    for n in list(range(0, 130)) + [199, 200, 201, 255, 256, 512, 1000, 5119, 5120, 5121, 6000]:
        for seed in ('', t.bs(20), '\0' * 20, t.bs(107)) if n < 130 else (t.bs(20),):
            t.eq(t.call('MGF', U.MGF, seed, n), mgf1(seed, n), 'MGF1-SHA1', seed=seed, n=n)
    t.raises(c.errors.KeyczarError, 'mask too long', U.MGF, 'x', 2**32 * 20 + 1)


def emsa_(t):
    U = c.util
    for bits in (512, 768, 1024, 2048, 4096):
        for m in ['', 'x', t.bs(30), 'a\0']:
            t.eq('\0' + t.call('EMSA', U.MakeEmsaMessage, m, bits), emsa(m, bits // 8), 'EMSA-PKCS1-v1_5 SHA-1', m=m, bits=bits)


def limits(k):
    return [0, 1, 2, 3, k.limit // 2, k.limit - 1, k.limit]


def encrypt(t):
    use = rsa_of(512)[:2] + rsa_of(768)[:1] + rsa_of(1024)[:2] + RSAODD + rsa_of(2048)[:1] + [k for k in RSAKEYS if k.e == 3] + (rsa_of(4096)[:1] if t.thorough else [])
    for k in use:
        o = t.call('read', c.keys.ReadKey, ty('RSA_PRIV'), k.json())
        p = c.keys.ReadKey(ty('RSA_PUB'), k.pubjson())
        for n in limits(k):
            for m in {t.bs(n), '\0' * n, '\1' * n}:
                for who in (o, p):
                    seed = t.bs(20)
                    with Urandom(seed) as u:
                        ct = t.call('encrypt', who.Encrypt, m, bits=k.bits, m=m)
                    want = be(pow(num(oaep_encode(m, k.k, seed)), k.e, k.n))
                    t.ok(k.parse(ct) == m, 'OAEP-SHA1 with empty label', bits=k.bits, m=m, ct=ct)
                    if seed in u.out:
                        t.eq(ct, '\0' + k.raw_id + want, 'exactly RSA(OAEP(message, seed))', bits=k.bits, m=m, seed=seed)
                    t.eq(t.call('decrypt', o.Decrypt, ct, bits=k.bits, m=m), m, 'decoding inverts', bits=k.bits, m=m)
        for n in (k.limit + 1, k.limit + 2, k.limit + 20, k.k, 1000):
            for who in (o, p):
                t.raises(c.errors.KeyczarError, 'too long', who.Encrypt, t.bs(n), bits=k.bits, n=n)


def decode(t):
    """what conforming encoders produce, with stripped zeros, and what they do not"""
    use = rsa_of(512)[:1] + rsa_of(1024)[:1] + RSAODD[:3] + rsa_of(768)[:1]
    for k in use:
        o = t.call('read', c.keys.ReadKey, ty('RSA_PRIV'), k.json())
        # seeds that give encodings with 1..3 leading zero bytes
        want = {1: 2, 2: 4, 3: 1 if t.thorough else 0}
        tries = 0
        while any(want.values()) and tries < (4000 if not t.thorough else 200000):
            tries += 1
            m = t.bs(min(5, k.limit))
            em = oaep_encode(m, k.k, t.bs(20))
            z = len(em) - len(em.lstrip('\0'))
            if want.get(z):
                want[z] -= 1
                ct = '\0' + k.raw_id + be(pow(num(em), k.e, k.n), k.k)
                t.eq(t.call('decrypt', o.Decrypt, ct, em=em), m, 'stripped zero bytes are restored', zeros=z, bits=k.bits, em=em)
        # crafted encodings
        seed = t.bs(20)

        def mk(db, first='\0'):
            mdb = xor(db, mgf1(seed, k.k - 21))
            return first + xor(seed, mgf1(mdb, 20)) + mdb
        good = sha1('') + '\0' * (k.limit - 3) + '\1' + 'abc'
        ct = lambda em: '\0' + k.raw_id + be(pow(num(em), k.e, k.n), k.k)
        t.eq(t.call('decrypt', o.Decrypt, ct(mk(good))), 'abc', 'good', bits=k.bits)
        bad = [('label hash', chr(ord(good[0]) ^ 1) + good[1:]), ('label hash end', good[:19] + chr(ord(good[19]) ^ 128) + good[20:]), ('label of x', sha1('x') + good[20:]),
               ('label zeros', '\0' * 20 + good[20:]), ('delimiter 2', good.replace('\1abc', '\2abc')), ('delimiter ff', good.replace('\1abc', '\xffabc')), ('no delimiter', sha1('') + '\0' * (k.limit + 1)), ('hash shifted', '\0' + good[:-1])]
        for i in range(20):
            bad.append(('label hash byte %d' % i, good[:i] + chr(ord(good[i]) ^ (1 << i % 8)) + good[i + 1:]))
        for what, db in bad:
            t.raises(c.errors.KeyczarError, 'bad ' + what, o.Decrypt, ct(mk(db)), bits=k.bits)
        # a message may contain further ones and zeros
        for m in ('\1', '\0', '\1\0\1', '\0\1'):
            db = sha1('') + '\0' * (k.limit - len(m)) + '\1' + m
            t.eq(t.call('decrypt', o.Decrypt, ct(mk(db))), m, 'message of ones and zeros', m=m, bits=k.bits)


def signatures(t):
    for k in rsa_of(512)[:3] + rsa_of(768)[:1] + rsa_of(1024)[:2] + rsa_of(2048)[:1] + (rsa_of(4096)[:1] if t.thorough else []):
        o = t.call('read', c.keys.ReadKey, ty('RSA_PRIV'), k.json())
        for m in ['', 'x', t.bs(30)] + (['s%d' % i for i in range(300)] if k.bits == 512 else []):
            s = t.call('sign', o.Sign, m)
            t.eq(s, k.sign(m), 'EMSA-PKCS1-v1_5 signature as long as the modulus', m=m, bits=k.bits)
    for k in DSAKEYS:
        o = t.call('read', c.keys.ReadKey, ty('DSA_PRIV'), k.json())
        for m in ['', 'x', t.bs(30)] + ['d%d' % i for i in range(15)]:
            s = t.call('sign', o.Sign, m)
            t.ok(k.rawsig_ok(m, s), 'DER sequence of r and s over SHA-1', m=m, sig=s)
            t.ok(t.call('verify', o.Verify, m, k.sign(m, t.rng)), 'foreign signature', m=m)


def dsaformat(t):
    U = c.util
    vals = [0, 1, 127, 128, 255, 256, 2**159, 2**160 - 1, 2**152, 2**151 - 1] + [t.rng.getrandbits(160) for _ in range(40)] + [t.rng.getrandbits(150) for _ in range(20)]
    for r in vals:
        for s in t.rng.sample(vals, 8):
            d = t.call('MakeDsaSig', U.MakeDsaSig, r, s)
            t.eq(d, der_seq(der_int(r), der_int(s)), 'DER', r=r, s=s)
            t.eq(tuple(t.call('ParseDsaSig', U.ParseDsaSig, d)), (r, s), 'parsed back', r=r, s=s)
    good = der_seq(der_int(2**159 + 5), der_int(12345))
    bad = ['', '\0', 'x', '\x30', '\x30\x00', '\x30\x80', '\x30\x03\x02\x01\x05', '\x02\x01\x05', '\x05\x00', '\x04\x02ab', good + '\0', der_seq(der_int(1), der_int(2), der_int(3)), der_seq(der_int(1)),
           der_seq(), der_seq(der(4, 'ab'), der(4, 'cd')), der_seq(der_int(1), NULL), der_seq(der_seq(), der_seq()), der(0x31, good[2:]), der_seq(der_int(1), der(12, 'abc'))]
    bad += [good[:i] for i in range(len(good))] + [t.bs(n) for n in range(1, 50)]
    for x in bad:
        try:
            tag, b, e = der_parse(x)
            it = der_items(b)
            if e == len(x) and tag == 0x30 and len(it) == 2 and x == der_seq(*[der_int(der_intval(i)) for i in it]):
                continue
        except Exception:
            pass
        t.raises(c.errors.KeyczarError, 'malformed DSA signature', U.ParseDsaSig, x)


GROUPS = [mgf, emsa_, dsaformat, encrypt, decode, signatures]
