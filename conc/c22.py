"""C22 key generation."""
import common as c
from common import *
from c20 import patched_dsa
import contextlib

SIZES = dict(AES=[128, 192, 256], HMAC_SHA1=[256], DSA_PRIV=[1024], DSA_PUB=[1024], RSA_PRIV=[2048, 4096, 1024, 768, 512], RSA_PUB=[2048, 4096, 1024, 768, 512])


def chk_aes(t, k, u, size):
    j = json.loads(str(k))
    key, mac = b64d(j['aesKeyString']), b64d(j['hmacKey']['hmacKeyString'])
    t.eq(k.type, c.keyinfo.AES, 'type', size=size)
    t.eq((k.size, j['size'], len(key) * 8), (size, size, size), 'AES size', size=size)
    t.eq((j['hmacKey']['size'], len(mac)), (256, 32), 'MAC key size', size=size)
    t.ok(key in u and mac in u, 'both from the system random source', size=size)
    if size == 256:
        i = u.index(key)
        t.ok(mac in u[:i] + u[i + 1:], 'separately drawn', size=size)
    t.eq(k.hash_id, b64e(AK(key, mac).raw_id), 'identifier', size=size)
    ct = k.Encrypt('hello')
    t.eq(AK(key, mac).parse(ct), 'hello', 'works', size=size)
    return key, mac


def sym(t):
    seen = set()
    ki, gk = c.keyinfo, c.keys.GenKey
    for size in (None, 128, 192, 256):
        for i in range(8):
            with Urandom() as u:
                k = t.call('GenKey AES', gk, ki.AES, *([] if size is None else [size]))
            a, m = chk_aes(t, k, u.out, size or 128)
            t.ok(a not in seen and m not in seen and a != m, 'fresh', size=size)
            seen |= {a, m}
    for size in (128, 192, 256):
        with Urandom() as u:
            k = t.call('AesKey.Generate', c.keys.AesKey.Generate, size)
        chk_aes(t, k, u.out, size)
    with Urandom() as u:
        k = t.call('AesKey.Generate', c.keys.AesKey.Generate)
    chk_aes(t, k, u.out, 128)
    for size in (None, 256):
        for i in range(8):
            with Urandom() as u:
                k = t.call('GenKey HMAC', gk, ki.HMAC_SHA1, *([] if size is None else [size]))
            j = json.loads(str(k))
            b = b64d(j['hmacKeyString'])
            t.eq(k.type, ki.HMAC_SHA1, 'type')
            t.eq((k.size, j['size'], len(b)), (256, 256, 32), 'HMAC size')
            t.ok(b in u.out and b not in seen, 'fresh, from the system random source')
            seen.add(b)
            t.eq(k.Sign('x'), hmac1(b, 'x'), 'works')
    # particular random values
    for r in ('\0' * 32, '\xff' * 32, '\0' * 31 + 'a', 'a' * 32, '\n' * 32, t.bs(31) + '\0'):
        with Urandom(r) as u:
            k = c.keys.GenKey(ki.HMAC_SHA1)
        t.eq(k.key_bytes, r, 'key bytes are the random bytes', r=r)
        for size in (128, 192, 256):
            with Urandom(r[:size // 8], r) as u:
                k = c.keys.GenKey(ki.AES, size)
            chk_aes(t, k, [r[:size // 8], r] if len(u.q) == 0 else u.out, size)


def refuse(t):
    ki = c.keyinfo
    E = c.errors.KeyczarError
    for typ, sizes in SIZES.items():
        T = ki.GetType(typ)
        for s in [0, 1, -1, 8, 64, 127, 129, 160, 255, 257, 384, 512, 1000, 1023, 1025, 1536, 2047, 2056, 3072, 8192, 128, 192, 256, 768, 1024, 2048, 4096]:
            t.eq(bool(T.IsValidSize(s)), s in sizes, 'listed sizes', type=typ, size=s)
            if s not in sizes:
                t.raises(E, 'size not listed', c.keys.GenKey, T, s, type=typ, size=s)
        t.eq(T.default_size, sizes[0], 'default size', type=typ)
    for typ in ('RSA_PUB', 'DSA_PUB'):
        T = ki.GetType(typ)
        t.raises(E, 'public type', c.keys.GenKey, T)
        for s in SIZES[typ]:
            t.raises(E, 'public type', c.keys.GenKey, T, s, type=typ, size=s)


@contextlib.contextmanager
def rsa_pool(k, log):
    from Crypto.PublicKey import RSA
    old = RSA.generate

    def gen(bits, randfunc=None, progress_func=None, e=65537):
        log.append((bits, randfunc))
        p, q = sorted([k.p, k.q])
        return RSA.construct((k.n, k.e, k.d, p, q, pow(p, -1, q)))
    RSA.generate = gen
    try:
        yield
    finally:
        RSA.generate = old


def chk_rsa(t, k, n, e, d, p, q, size):
    kw = dict(n=n, size=size)
    t.eq(k.type, c.keyinfo.RSA_PRIV, 'type', **kw)
    j = json.loads(str(k))
    f = lambda x: num(b64d(x))
    t.eq((k.size, j['size'], j['publicKey']['size']), (size,) * 3, 'size', **kw)
    t.eq((f(j['publicKey']['modulus']), f(j['publicKey']['publicExponent']), f(j['privateExponent'])), (n, e, d), 'modulus and exponents', **kw)
    P, Q = f(j['primeP']), f(j['primeQ'])
    t.eq(sorted([P, Q]), sorted([p, q]), 'primes', **kw)
    t.eq((f(j['primeExponentP']), f(j['primeExponentQ'])), (d % (P - 1), d % (Q - 1)), 'prime exponents belong to their primes', **kw)
    t.eq(f(j['crtCoefficient']) * Q % P, 1, 'CRT coefficient inverts Q modulo P', **kw)
    pub = k.public_key
    t.eq(json.loads(str(pub)), j['publicKey'], 'public key agrees', **kw)
    t.eq(pub.hash_id, k.hash_id, 'same identifier', **kw)
    t.eq(pub.type, c.keyinfo.RSA_PUB, 'public type', **kw)
    r = c.keys.ReadKey(c.keyinfo.RSA_PRIV, str(k))
    sig = t.call('Sign', k.Sign, 'm')
    t.ok(pow(num(sig), e, n) == num(emsa('m', (n.bit_length() + 7) // 8)), 'signs', **kw)
    t.eq(t.call('Verify', r.Verify, 'm', sig), True, 'read-back key agrees', **kw)
    t.eq(t.call('Decrypt', r.Decrypt, pub.Encrypt('hi')), 'hi', 'read-back key decrypts', **kw)
    t.eq(t.call('Decrypt', k.Decrypt, pub.Encrypt('hi')), 'hi', 'key decrypts', **kw)


def asym(t):
    for bits in (512, 768, 1024, 2048, 4096):
        for kk in rsa_of(bits)[:4]:
            log = []
            for give in ((bits,), ()) if bits == 2048 else ((bits,),):
                with rsa_pool(kk, log):
                    k = t.call('GenKey RSA', c.keys.GenKey, c.keyinfo.RSA_PRIV, *give)
                if log:
                    t.eq(log[-1][0], bits, 'library asked for that size', bits=bits)
                    t.ok(log[-1][1] in (os.urandom, real_urandom), 'system random source')
                else:
                    break
                chk_rsa(t, k, kk.n, kk.e, kk.d, kk.p, kk.q, bits)
    for kk in DSAKEYS:
        from Crypto.PublicKey import DSA
        old = DSA.generate
        log = []
        DSA.generate = lambda bits, rnd=None, progress_func=None: log.append((bits, rnd)) or DSA.construct((kk.y, kk.g, kk.p, kk.q, kk.x))
        try:
            k = t.call('GenKey DSA', c.keys.GenKey, c.keyinfo.DSA_PRIV, *([] if kk is DSAKEYS[0] else [1024]))
        finally:
            DSA.generate = old
        if not log:
            break
        t.eq(log[0][0], 1024, 'library asked for that size')
        t.ok(log[0][1] in (os.urandom, real_urandom), 'system random source')
        j = json.loads(str(k))
        t.eq(j, json.loads(kk.json()), 'DSA parameters')
        t.eq((k.size, k.public_key.size), (1024, 1024), 'size')
        t.eq(json.loads(str(k.public_key)), j['publicKey'], 'public key agrees')
        t.eq(k.public_key.hash_id, b64e(kk.raw_id), 'identifier')
        t.eq(k.hash_id, b64e(kk.raw_id), 'identifier')
        sig = t.call('Sign', k.Sign, 'm')
        t.ok(kk.rawsig_ok('m', sig), 'signs')
        r = c.keys.ReadKey(c.keyinfo.DSA_PRIV, str(k))
        t.eq(t.call('Verify', r.Verify, 'm', sig), True, 'read-back key agrees')
    # one really generated
    for bits in ([1024, 2048] if t.thorough else [1024]):
        k = t.call('generate RSA', c.keys.GenKey, c.keyinfo.RSA_PRIV, bits)
        j = json.loads(str(k))
        f = lambda x: num(b64d(x))
        n = f(j['publicKey']['modulus'])
        t.eq(n.bit_length(), bits, 'modulus length', bits=bits)
        t.eq(f(j['primeP']) * f(j['primeQ']), n, 'n = pq', bits=bits)
        chk_rsa(t, k, n, f(j['publicKey']['publicExponent']), f(j['privateExponent']), f(j['primeP']), f(j['primeQ']), bits)


def collisions(t):
    """a new version never gets the identifier of a key already in the set"""
    for purpose, mk, sz in (('SIGN_AND_VERIFY', lambda: HK(t.bs(32)), (32,)), ('DECRYPT_AND_ENCRYPT', lambda: AK(t.bs(16), t.bs(32)), (16, 32))):
        for n in (1, 3):
            ks = [mk() for _ in range(n)]
            for target in ks:
                for st in ('PRIMARY', 'ACTIVE'):
                    g = c.K.GenericKeyczar(keyset(purpose, [(i + 1, ['ACTIVE', 'PRIMARY', 'INACTIVE'][i], k) for i, k in enumerate(ks)]))
                    vals = [target.key] + ([target.mac] if len(sz) == 2 else [])
                    with Urandom(*(vals * 2)) as u:
                        with contextlib.redirect_stdout(io.StringIO()):
                            t.call('AddVersion', g.AddVersion, c.keyinfo.GetStatus(st))
                    ids = [g.GetKey(v).hash_id for v in g.versions]
                    t.eq(len(set(ids)), n + 1, 'identifiers are distinct', type=target.type, n=n)
                    t.eq(sorted(ids)[:0] + sorted(x for x in ids if x in {b64e(k.raw_id) for k in ks}), sorted(b64e(k.raw_id) for k in ks), 'old keys kept', n=n)
                    new = [v for v in g.versions if v.version_number == n + 1]
                    t.eq(len(new), 1, 'next version number', n=n)
                    k = g.GetKey(new[0])
                    t.ok(g.GetKey(k.hash_id) is k, 'found under its identifier')
                    t.ok(k.hash_id not in {b64e(x.raw_id) for x in ks}, 'new identifier')
    # sizes
    g = c.K.GenericKeyczar(keyset('DECRYPT_AND_ENCRYPT', [], typ='AES'))
    for i, s in enumerate([None, 128, 192, 256]):
        with contextlib.redirect_stdout(io.StringIO()):
            t.call('AddVersion', g.AddVersion, c.keyinfo.ACTIVE, *([] if s is None else [s]))
        v = [v for v in g.versions if v.version_number == i + 1][0]
        t.eq((g.GetKey(v).size, len(g.GetKey(v).key_bytes) * 8), (s or 128, s or 128), 'size of the new version', size=s)
    for typ in ('RSA_PUB', 'DSA_PUB'):
        g = c.K.GenericKeyczar(keyset('VERIFY', [], typ=typ))
        t.raises(c.errors.KeyczarError, 'public type', g.AddVersion, c.keyinfo.ACTIVE)


GROUPS = [refuse, sym, collisions, asym]
