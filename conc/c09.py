"""C09 opening key sets."""
import os
import tempfile
import common as c
from common import *

ACCEPT = dict(Encrypter={'ENCRYPT', 'DECRYPT_AND_ENCRYPT'}, Crypter={'DECRYPT_AND_ENCRYPT'},
              Verifier={'VERIFY', 'SIGN_AND_VERIFY'}, Signer={'SIGN_AND_VERIFY'},
              UnversionedVerifier={'VERIFY', 'SIGN_AND_VERIFY'}, UnversionedSigner={'SIGN_AND_VERIFY'},
              GenericKeyczar=set(PURPOSES))


def keyof(t, typ):
    return {'AES': lambda: AK(t.bs(16), t.bs(32)), 'HMAC_SHA1': lambda: HK(t.bs(32)), 'RSA_PRIV': lambda: t.rng.choice(rsa_of(512)),
            'RSA_PUB': lambda: Pub(t.rng.choice(rsa_of(512))), 'DSA_PRIV': lambda: DSAKEYS[0], 'DSA_PUB': lambda: Pub(DSAKEYS[0])}[typ]()


def matrix(t):
    for cls, ok in ACCEPT.items():
        C = getattr(c.K, cls)
        for p in PURPOSES:
            for typ in ('AES', 'HMAC_SHA1', 'RSA_PRIV', 'RSA_PUB', 'DSA_PRIV', 'DSA_PUB'):
                for vs in ([], [(1, 'PRIMARY', keyof(t, typ))], [(3, 'ACTIVE', keyof(t, typ))]):
                    r = keyset(p, vs, typ=typ)
                    kw = dict(cls=cls, purpose=p, type=typ, n=len(vs))
                    if p in ok:
                        t.call('accepted', C, r, **kw)
                    else:
                        t.raises(c.errors.KeyczarError, 'purpose not acceptable', C, r, **kw)
                    r = keyset(p, vs, typ=typ, encrypted=True)
                    t.raises(c.errors.KeyczarError, 'encrypted key set needs an encrypted reader', C, r, **kw)
        o = None


def contents(t):
    for cls, p, typ in [('Crypter', 'DECRYPT_AND_ENCRYPT', 'AES'), ('Encrypter', 'DECRYPT_AND_ENCRYPT', 'AES'), ('Signer', 'SIGN_AND_VERIFY', 'HMAC_SHA1'),
                        ('Verifier', 'VERIFY', 'HMAC_SHA1'), ('UnversionedSigner', 'SIGN_AND_VERIFY', 'HMAC_SHA1'), ('UnversionedVerifier', 'VERIFY', 'HMAC_SHA1'),
                        ('GenericKeyczar', 'SIGN_AND_VERIFY', 'HMAC_SHA1'), ('GenericKeyczar', 'ENCRYPT', 'AES')]:
        C = getattr(c.K, cls)
        for rep in range(40):
            n = t.rng.choice([0, 1, 2, 3, 8, 20])
            nums = t.rng.sample(list(range(0, 30)) + [100, 255, 256, 1000, 2**31], n)
            ks = [keyof(t, typ) for _ in nums]
            prim = t.rng.randrange(n + 1)
            vs = [(nums[i], 'PRIMARY' if i == prim else t.rng.choice(['ACTIVE', 'INACTIVE']), ks[i]) for i in range(n)]
            z = t.call('open', C, keyset(p, vs, typ=typ), nums=nums, cls=cls)
            t.eq(sorted(v.version_number for v in z.versions), sorted(nums), 'all versions are there', cls=cls)
            st = {v.version_number: v.status.name for v in z.versions}
            t.eq(st, {a: s for a, s, k in vs}, 'statuses', cls=cls)
            for v in z.versions:
                k = [k for a, s, k in vs if a == v.version_number][0]
                for kid in (v, b64e(k.raw_id)):
                    o = t.call('GetKey', z.GetKey, kid, cls=cls, nums=nums)
                    t.eq(o.hash_id, b64e(k.raw_id), 'the key its reader supplied', cls=cls, nums=nums)
                    t.eq(json.loads(str(o)), json.loads(k.json()), 'the key material its reader supplied', cls=cls)
            pv = z.primary_version
            t.eq(None if pv is None else pv.version_number, nums[prim] if prim < n else None, 'primary version', cls=cls)
            pk = z.primary_key
            t.eq(None if pk is None else pk.hash_id, b64e(ks[prim].raw_id) if prim < n else None, 'primary key', cls=cls)
            t.raises(c.errors.KeyNotFoundError, 'unknown identifier', z.GetKey, b64e('\0\1\2\3'))
            t.raises(c.errors.KeyNotFoundError, 'unknown version', z.GetKey, c.keydata.KeyVersion(1, c.keyinfo.ACTIVE, False))
            # two primaries anywhere
            if n >= 2:
                i, j = t.rng.sample(range(n), 2)
                v2 = [(a, 'PRIMARY' if q in (i, j) else s if s != 'PRIMARY' else 'ACTIVE', k) for q, (a, s, k) in enumerate(vs)]
                t.raises(c.errors.KeyczarError, 'two primaries', C, keyset(p, v2, typ=typ), cls=cls, i=i, j=j)


def encrypted(t):
    outer = AK(t.bs(16), t.bs(32))
    cr = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', outer)]))
    other = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', AK(t.bs(16), t.bs(32)))]))
    for cls, p, typ in [('Crypter', 'DECRYPT_AND_ENCRYPT', 'AES'), ('Signer', 'SIGN_AND_VERIFY', 'HMAC_SHA1'), ('Verifier', 'SIGN_AND_VERIFY', 'HMAC_SHA1'), ('Encrypter', 'DECRYPT_AND_ENCRYPT', 'RSA_PRIV'),
                        ('UnversionedSigner', 'SIGN_AND_VERIFY', 'DSA_PRIV'), ('GenericKeyczar', 'SIGN_AND_VERIFY', 'HMAC_SHA1')]:
        C = getattr(c.K, cls)
        ks = [keyof(t, typ), keyof(t, typ)]
        vs = [(1, 'PRIMARY', ks[0]), (2, 'ACTIVE', ks[1])]
        meta = metajson(p, typ, vs, encrypted=True)
        km = {n: b64e(outer.encrypt(k.json(), t.bs(16))) for n, s, k in vs}
        z = t.call('open encrypted', C, c.readers.EncryptedReader(mem(meta, km), cr), cls=cls)
        for v in z.versions:
            t.eq(json.loads(str(z.GetKey(v))), json.loads(ks[v.version_number - 1].json()), 'decrypted key', cls=cls)
        t.raises(c.errors.KeyczarError, 'plain reader', C, mem(meta, km), cls=cls)
        t.raises(c.errors.KeyczarError, 'wrong crypter', C, c.readers.EncryptedReader(mem(meta, km), other), cls=cls)
        for badp in PURPOSES:
            if badp not in ACCEPT[cls]:
                t.raises(c.errors.KeyczarError, 'purpose', C, c.readers.EncryptedReader(mem(metajson(badp, typ, vs, encrypted=True), km), cr), cls=cls)
        km2 = dict(km)
        km2[2] = km2[2][:-4] + ('AAAA' if km2[2][-4:] != 'AAAA' else 'BBBB')
        t.raises(c.errors.KeyczarError, 'tampered key', C, c.readers.EncryptedReader(mem(meta, km2), cr), cls=cls)


def bad(t):
    k = HK(t.bs(32))
    t.raises(c.errors.KeyczarError, 'missing key', c.K.Signer, mem(metajson('SIGN_AND_VERIFY', 'HMAC_SHA1', [(1, 'PRIMARY', k), (2, 'ACTIVE', k)]), {1: k.json()}))
    t.raises(c.errors.KeyczarError, 'bad purpose name', c.K.Signer, mem(metajson('sign', 'HMAC_SHA1', []), {}))
    t.raises(c.errors.KeyczarError, 'bad type name', c.K.Signer, mem(metajson('SIGN_AND_VERIFY', 'HMAC', []), {}))


def location(t):
    """Read(location): the set stored there, as that class and for its purpose only."""
    for cls, ok in ACCEPT.items():
        C = getattr(c.K, cls)
        for p, typ in (('ENCRYPT', 'RSA_PUB'), ('DECRYPT_AND_ENCRYPT', 'AES'), ('VERIFY', 'HMAC_SHA1'), ('SIGN_AND_VERIFY', 'HMAC_SHA1')):
            for enc in (False, True):
                with tempfile.TemporaryDirectory() as d:
                    vs = [(3, 'ACTIVE', keyof(t, typ)), (7, 'PRIMARY', keyof(t, typ))]
                    with open(os.path.join(d, 'meta'), 'w') as f:
                        f.write(metajson(p, typ, vs, encrypted=enc))
                    for n, s, k in vs:
                        with open(os.path.join(d, str(n)), 'w') as f:
                            f.write(k.json())
                    kw = dict(cls=cls, purpose=p, encrypted=enc)
                    if p not in ok or enc:
                        t.raises(c.errors.KeyczarError, 'refused', C.Read, d, **kw)
                        continue
                    z = t.call('Read', C.Read, d, **kw)
                    t.eq(type(z).__name__, cls, 'as that class', **kw)
                    t.eq(sorted(v.version_number for v in z.versions), [3, 7], 'versions', **kw)
                    t.eq(z.primary_version.version_number, 7, 'primary', **kw)
                    for v in z.versions:
                        k = [k for n, s, k in vs if n == v.version_number][0]
                        t.eq(json.loads(str(z.GetKey(v))), json.loads(k.json()), 'the key of its file', **kw)
        with tempfile.TemporaryDirectory() as d:
            t.raises(Exception, 'nothing there', C.Read, os.path.join(d, 'none'), cls=cls)


GROUPS = [matrix, contents, encrypted, bad, location]
