"""C01 encryption round trip."""
import common as c
from common import *

STAT = ['ACTIVE', 'INACTIVE']


def aes_keys(t, n):
    return [AK(t.bs(t.rng.choice([16, 24, 32])), t.bs(32)) for _ in range(n)]


def check_ct(t, czar, key, msg, what, **kw):
    ct = t.call(what + ': encrypt', czar.Encrypt, msg, **dict(kw, msg=msg))
    t.ok(isinstance(ct, str) and '=' not in ct, what + ': encoded text', msg=msg)
    t.eq(key.parse(b64d(ct)), msg, what + ': ciphertext has the specified layout', msg=msg, ct=ct, **kw)
    return ct


def sym(t):
    lens = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 5000]
    if t.thorough:
        lens += list(range(70, 300)) + [65535, 65536, 100001]
    for libname in both_libs():
        for size in (16, 24, 32):
            key = AK(t.bs(size), t.bs(32))
            others = aes_keys(t, 2)
            czar = t.call('open', c.K.Crypter, keyset('DECRYPT_AND_ENCRYPT', [(1, 'ACTIVE', others[0]), (2, 'PRIMARY', key), (3, 'INACTIVE', others[1])]))
            for m in list(t.msgs(lens)) + list(t.interesting()):
                ct = check_ct(t, czar, key, m, 'AES', lib=libname, size=size)
                t.eq(t.call('decrypt', czar.Decrypt, ct, msg=m), m, 'AES round trip', msg=m, lib=libname, size=size)


def encoders(t):
    key = AK(t.bs(16), t.bs(32))
    czar = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', key)]))
    enc = c.K.Encrypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', key)]))
    hexe = lambda s: s.encode('latin-1').hex()
    hexd = lambda s: bs(bytes.fromhex(s))
    for m in ['', 'x', t.bs(16), t.bs(31), t.bs(100)]:
        for who in (czar, enc):
            raw = t.call('no encoder', who.Encrypt, m, None)
            t.eq(key.parse(raw), m, 'raw ciphertext', msg=m)
            t.eq(t.call('decrypt raw', czar.Decrypt, raw, None), m, 'round trip without encoding', msg=m)
            h = t.call('own encoder', who.Encrypt, m, hexe)
            t.eq(key.parse(hexd(h)), m, 'own encoder is applied to the whole ciphertext', msg=m)
            t.eq(t.call('own decoder', czar.Decrypt, h, hexd), m, 'round trip with own encoding', msg=m)
            d = t.call('default encoder', who.Encrypt, m)
            t.eq(t.call('cross', czar.Decrypt, b64d(d), None), m, 'default encoding is web-safe Base64', msg=m)
    # the coders' results are passed on as they are
    ident = lambda s: s
    raw = czar.Encrypt('abc', ident)
    t.eq(czar.Decrypt(raw, ident), 'abc', 'identity coders')
    wrapped = czar.Encrypt('abc')
    wrapped = '\n'.join(wrapped[i:i + 13] for i in range(0, len(wrapped), 13)) + ' \r\n'
    t.eq(czar.Decrypt(wrapped), 'abc', 'white space in the encoded text is ignored')


def many_versions(t):
    for nv in (1, 2, 3, 5, 12) + ((40,) if t.thorough else ()):
        ks = aes_keys(t, nv)
        nums = t.rng.sample(range(1, 400), nv)
        for prim in sorted(set([0, nv - 1, nv // 2])):
            vs = [(nums[i], 'PRIMARY' if i == prim else t.rng.choice(STAT), ks[i]) for i in range(nv)]
            czar = t.call('open', c.K.Crypter, keyset('DECRYPT_AND_ENCRYPT', vs))
            m = t.bs(t.rng.randrange(60))
            ct = check_ct(t, czar, ks[prim], m, 'primary of many', nums=nums, prim=prim)
            # every version decrypts what was produced under it
            for i in range(nv):
                m2 = t.bs(t.rng.randrange(40))
                e = b64e(ks[i].encrypt(m2, t.bs(16)))
                t.eq(t.call('decrypt with version', czar.Decrypt, e), m2, 'every version decrypts', status=vs[i][1], nums=nums, i=i)
            vs2 = [(n, 'ACTIVE', k) for n, s, k in vs]
            czar2 = t.call('open', c.K.Crypter, keyset('DECRYPT_AND_ENCRYPT', vs2))
            t.eq(t.call('decrypt', czar2.Decrypt, ct), m, 'decrypts after demotion')
            t.raises(c.errors.NoPrimaryKeyError, 'no primary', czar2.Encrypt, m)
    e = t.call('open empty', c.K.Encrypter, mem(metajson('ENCRYPT', 'RSA_PUB', []), {}))
    t.raises(c.errors.NoPrimaryKeyError, 'empty set', e.Encrypt, 'x')
    e = t.call('open empty', c.K.Crypter, mem(metajson('DECRYPT_AND_ENCRYPT', 'AES', []), {}))
    t.raises(c.errors.NoPrimaryKeyError, 'empty set', e.Encrypt, '')
    t.raises(c.errors.NoPrimaryKeyError, 'empty set stream', e.CreateEncryptingStreamWriter, Sink())


class Writer(object):
    """Collects what a key set writes."""
    def __init__(self):
        self.k = {}

    def WriteMetadata(self, md, overwrite=True):
        self.m = str(md)

    def WriteKey(self, key, n, encrypter=None):
        self.k[n] = str(key)

    def Remove(self, n):
        self.k.pop(n)

    def Close(self):
        pass

    def reader(self):
        return mem(self.m, dict(self.k))


def life(t):
    """ciphertexts survive key rotation"""
    for typ in ('AES', 'RSA_PRIV'):
        for rep in range(6 if typ == 'AES' else 2):
            g = t.call('open', c.K.GenericKeyczar, mem(metajson('DECRYPT_AND_ENCRYPT', typ, []), {}))
            made = []
            for step in range(8 if typ == 'AES' else 5):
                op = t.rng.choice(['addp', 'adda', 'promote', 'demote'])
                nums = [v.version_number for v in g.versions]
                try:
                    if op[:3] == 'add' or not nums:
                        g.AddVersion(c.keyinfo.PRIMARY if op != 'adda' else c.keyinfo.ACTIVE, 128 if typ == "AES" else 1024)
                    else:
                        getattr(g, op.capitalize())(t.rng.choice(nums))
                except c.errors.KeyczarError:
                    pass
                w = Writer()
                g.Write(w)
                cz = t.call('reopen', c.K.Crypter, w.reader())
                m = t.bs(t.rng.randrange(20))
                if g.primary_version is not None:
                    made.append((t.call('encrypt', cz.Encrypt, m), m))
                else:
                    t.raises(c.errors.NoPrimaryKeyError, 'no primary', cz.Encrypt, m)
                for ct, mm in made:
                    t.eq(t.call('decrypt old', cz.Decrypt, ct), mm, 'old ciphertexts decrypt', step=step, typ=typ)


def rsa(t):
    use = rsa_of(512)[:2] + rsa_of(768)[:1] + rsa_of(1024)[:2] + rsa_of(2048)[:1] + [k for k in RSAKEYS if k.e == 3]
    if t.thorough:
        use = RSAKEYS
    for key in use:
        czar = t.call('open', c.K.Crypter, keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', key)]))
        pub = t.call('open public', c.K.Encrypter, keyset('ENCRYPT', [(1, 'PRIMARY', Pub(key))]))
        lim = key.limit
        lens = sorted(set(list(range(0, min(lim, 24))) + [lim // 2, lim - 2, lim - 1, lim]))
        ms = list(t.msgs(lens)) + ['\0' * lim, '\0', '\1', '\0\1', '\1' * lim, '\0\0x', '\xff' * lim]
        for m in ms:
            for who in (czar, pub):
                ct = check_ct(t, who, key, m, 'RSA', bits=key.bits)
                t.eq(t.call('decrypt', czar.Decrypt, ct), m, 'RSA round trip', msg=m, bits=key.bits)
        for who in (czar, pub):
            t.raises(c.errors.KeyczarError, 'message over the limit', who.Encrypt, t.bs(lim + 1))
            t.raises(c.errors.KeyczarError, 'message over the limit', who.Encrypt, t.bs(lim + 100))
        # what a conforming implementation encrypted
        for m in ms[:6] + ms[-6:]:
            t.eq(t.call('decrypt foreign', czar.Decrypt, b64e(key.encrypt(m, t.bs(20)))), m, 'foreign ciphertext', msg=m, bits=key.bits)


def rsa_many(t):
    ks = rsa_of(512)
    for prim in range(len(ks)):
        vs = [(i + 1, 'PRIMARY' if i == prim else t.rng.choice(STAT), k) for i, k in enumerate(ks)]
        cz = t.call('open', c.K.Crypter, keyset('DECRYPT_AND_ENCRYPT', vs))
        ct = check_ct(t, cz, ks[prim], 'hello', 'RSA primary of many')
        for k in ks:
            t.eq(t.call('decrypt', cz.Decrypt, b64e(k.encrypt('m', t.bs(20)))), 'm', 'RSA every version decrypts')


GROUPS = [encoders, many_versions, rsa, rsa_many, life, sym]
