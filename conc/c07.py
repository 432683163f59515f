"""C07 serialisation."""
import common as c
from common import *


def ty(n):
    return c.keyinfo.GetType(n)


def same(t, a, b, what, /, **kw):
    t.eq(b.type.name, a.type.name, what + ': type', **kw)
    t.ok(b.type is a.type or b.type == a.type, what + ': type object', **kw)
    t.eq(b.size, a.size, what + ': size', **kw)
    t.eq(b.hash_id, a.hash_id, what + ': identifier', **kw)
    t.eq(json.loads(str(b)), json.loads(str(a)), what + ': text', **kw)


def keys_(t):
    for _ in range(60):
        for n in (16, 24, 32):
            k = AK(t.bs(n) if _ else '\0' * n, t.bs(32))
            o = t.call('read', c.keys.ReadKey, ty('AES'), k.json())
            t.eq(json.loads(str(o)), json.loads(k.json()), 'AES text', json=k.json())
            t.eq(o.key_bytes, k.key, 'AES key bytes')
            t.eq(o.hmac_key.key_bytes, k.mac, 'AES MAC key bytes')
            t.eq(o.size, n * 8, 'AES size')
            t.eq(o.hmac_key.size, 256, 'MAC size')
            o2 = c.keys.ReadKey(ty('AES'), str(o))
            same(t, o, o2, 'AES')
            t.ok(o == o2, 'AES equality')
            m = t.bs(t.rng.randrange(40))
            t.eq(t.call('decrypt', o2.Decrypt, o.Encrypt(m)), m, 'decrypts what the original encrypted')
            t.eq(k.parse(o2.Encrypt(m)), m, 'encrypts with the same key')
        h = HK(t.bs(32))
        o = t.call('read', c.keys.ReadKey, ty('HMAC_SHA1'), h.json())
        t.eq(json.loads(str(o)), json.loads(h.json()), 'HMAC text')
        o2 = c.keys.ReadKey(ty('HMAC_SHA1'), str(o))
        same(t, o, o2, 'HMAC')
        t.ok(o == o2, 'HMAC equality')
        t.eq(o2.Sign('m'), h.sign('m'), 'HMAC key material')
    for n, s in [('AES', 128), ('AES', 192), ('AES', 256), ('HMAC_SHA1', 256)]:
        for _ in range(10):
            o = c.keys.GenKey(ty(n), s)
            o2 = t.call('reread generated', c.keys.ReadKey, ty(n), str(o))
            same(t, o, o2, 'generated ' + n)
            t.ok(o == o2, 'generated equality')


def asym(t):
    use = RSAKEYS if t.thorough else [k for k in RSAKEYS if k.bits < 4096]
    for k in use:
        o = t.call('read', c.keys.ReadKey, ty('RSA_PRIV'), k.json())
        t.eq(json.loads(str(o)), json.loads(k.json()), 'RSA text', bits=k.bits)
        t.eq(json.loads(str(o.public_key)), json.loads(k.pubjson()), 'RSA public text', bits=k.bits)
        o2 = t.call('reread', c.keys.ReadKey, ty('RSA_PRIV'), str(o))
        same(t, o, o2, 'RSA')
        t.eq(o2.Sign('m'), k.sign('m'), 'RSA private material signs', bits=k.bits)
        t.eq(t.call('decrypt', o2.Decrypt, k.encrypt('m', t.bs(20))), 'm', 'RSA private material decrypts', bits=k.bits)
        p = t.call('read public', c.keys.ReadKey, ty('RSA_PUB'), str(o.public_key))
        same(t, o.public_key, p, 'RSA public')
        t.eq(p.type.name, 'RSA_PUB', 'public type')
        t.eq(o.type.name, 'RSA_PRIV', 'private type')
        t.ok(p.Verify('m', k.sign('m')), 'public key verifies')
        t.eq(k.parse(p.Encrypt('abc')), 'abc', 'public key encrypts')
    for k in DSAKEYS:
        o = t.call('read', c.keys.ReadKey, ty('DSA_PRIV'), k.json())
        t.eq(json.loads(str(o)), json.loads(k.json()), 'DSA text')
        t.eq(json.loads(str(o.public_key)), json.loads(k.pubjson()), 'DSA public text')
        o2 = t.call('reread', c.keys.ReadKey, ty('DSA_PRIV'), str(o))
        same(t, o, o2, 'DSA')
        t.ok(k.rawsig_ok('m', t.call('sign', o2.Sign, 'm')), 'DSA private material signs')
        p = t.call('read public', c.keys.ReadKey, ty('DSA_PUB'), str(o.public_key))
        same(t, o.public_key, p, 'DSA public')
        t.ok(p.Verify('m', k.sign('m')), 'DSA public key verifies')
        t.eq(p.type.name, 'DSA_PUB', 'public type')
    for n in ('RSA_PRIV',):
        o = c.keys.GenKey(ty(n), 1024)
        o2 = t.call('reread generated', c.keys.ReadKey, ty(n), str(o))
        same(t, o, o2, 'generated RSA')
        p = c.keys.ReadKey(ty('RSA_PUB'), str(o.public_key))
        t.ok(p.Verify('m', o2.Sign('m')), 'generated, reread, verified')
        t.eq(o2.Decrypt(p.Encrypt('hi')), 'hi', 'generated, reread, decrypted')
        j = json.loads(str(o))
        P, Q, D = [num(b64d(j[f])) for f in ('primeP', 'primeQ', 'privateExponent')]
        N, E = [num(b64d(j['publicKey'][f])) for f in ('modulus', 'publicExponent')]
        t.ok(P * Q == N and D * E % (P - 1) == 1 and D * E % (Q - 1) == 1, 'exported parameters form a key pair')
        t.ok(num(b64d(j['primeExponentP'])) == D % (P - 1) and num(b64d(j['primeExponentQ'])) == D % (Q - 1), 'CRT exponents', json=str(o))
        t.ok(num(b64d(j['crtCoefficient'])) * Q % P == 1, 'crtCoefficient is q^-1 mod p')


NAMES = ['Test', '', 'a b', 'quote"s', "it's", 'back\\slash', 'new\nline', 'tab\t', '\u00fc\u4e2d', '{"name": 1}', '\x00', 'x' * 500, '1', 'null']
STAT = ['PRIMARY', 'ACTIVE', 'INACTIVE']


def meta(t):
    types = ['AES', 'HMAC_SHA1', 'DSA_PRIV', 'DSA_PUB', 'RSA_PRIV', 'RSA_PUB']
    ki = c.keyinfo
    for name in NAMES:
        for p in PURPOSES:
            ty_ = t.rng.choice(types)
            enc = t.rng.choice([True, False])
            nums = t.rng.sample([0, 1, 2, 3, 9, 10, 11, 99, 100, 255, 256, 1000, 2**31, 2**40], t.rng.randrange(0, 6))
            vs = [(n, t.rng.choice(STAT), t.rng.choice([True, False])) for n in nums]
            md = c.keydata.KeyMetadata(name, ki.GetPurpose(p), ki.GetType(ty_), enc)
            for n, s, e in vs:
                t.eq(md.AddVersion(c.keydata.KeyVersion(n, ki.GetStatus(s), e)), True, 'added')
            want = dict(name=name, purpose=p, type=ty_, encrypted=enc, versions=[dict(versionNumber=n, status=s, exportable=e) for n, s, e in vs])
            got = json.loads(str(md))
            key = lambda d: dict(d, versions=sorted(d['versions'], key=lambda v: v['versionNumber']))
            t.eq(key(got), key(want), 'metadata text', want=want)
            m2 = t.call('read', c.keydata.KeyMetadata.Read, str(md))
            t.eq([m2.name, m2.purpose, m2.type, m2.encrypted], [name, ki.GetPurpose(p), ki.GetType(ty_), enc], 'metadata fields', want=want)
            t.eq(sorted((v.version_number, v.status.name, v.exportable) for v in m2.versions), sorted(vs), 'versions', want=want)
            t.eq(key(json.loads(str(m2))), key(want), 'metadata text again', want=want)
            m3 = t.call('read foreign', c.keydata.KeyMetadata.Read, json.dumps(want, indent=2))
            t.eq(key(json.loads(str(m3))), key(want), 'foreign metadata', want=want)
            for n, s, e in vs:
                t.eq(m3.GetVersion(n).status, ki.GetStatus(s), 'GetVersion')
    for s in STAT:
        for e in (True, False):
            v = c.keydata.KeyVersion(7, c.keyinfo.GetStatus(s), e)
            t.eq(json.loads(str(v)), dict(versionNumber=7, status=s, exportable=e), 'version text')
            v2 = c.keydata.KeyVersion.Read(json.loads(str(v)))
            t.eq([v2.version_number, v2.status, v2.exportable], [7, c.keyinfo.GetStatus(s), e], 'version fields')


def bad(t):
    ki, E = c.keyinfo, c.errors.KeyczarError
    for fn, good in ((ki.GetType, ['AES', 'HMAC_SHA1', 'DSA_PRIV', 'DSA_PUB', 'RSA_PRIV', 'RSA_PUB']), (ki.GetPurpose, PURPOSES), (ki.GetStatus, STAT), (ki.GetMode, ['CBC', 'CTR', 'ECB', 'DET_CBC'])):
        objs = []
        for g in good:
            o = t.call('known name', fn, g)
            t.eq(o.name, g, 'name maps to itself', name=g)
            t.eq(str(o), g, 'str is the name')
            objs.append(id(o))
            for b in (g.lower(), g + ' ', ' ' + g, g[:-1], g + 'X', g.capitalize()):
                t.raises(E, 'unknown name', fn, b)
        t.eq(len(set(objs)), len(good), 'names are distinct objects')
        for b in ('', 'nope', '0', 'PRIMARY_', 'None', 'SCHEDULED_FOR_REVOCATION', 'AES ', 'RSA', 'HMAC', 'SIGN', 'CFB'):
            t.raises(E, 'unknown name', fn, b)
    base = dict(name='n', purpose='ENCRYPT', type='AES', encrypted=False, versions=[dict(versionNumber=1, status='ACTIVE', exportable=False)])
    t.call('good', c.keydata.KeyMetadata.Read, json.dumps(base))
    for f, v in (('purpose', 'x'), ('type', 'DES'), ('purpose', 'encrypt'), ('type', 'aes')):
        t.raises(E, 'bad metadata', c.keydata.KeyMetadata.Read, json.dumps(dict(base, **{f: v})))
    for s in ('x', 'primary', 'SCHEDULED', ''):
        t.raises(E, 'bad status', c.keydata.KeyMetadata.Read, json.dumps(dict(base, versions=[dict(versionNumber=1, status=s, exportable=False)])))
    k = json.loads(AK('a' * 16, 'b' * 32).json())
    t.raises(E, 'bad mode', c.keys.ReadKey, ty('AES'), json.dumps(dict(k, mode='XTS')))
    t.raises(E, 'bad mode', c.keys.ReadKey, ty('AES'), json.dumps(dict(k, mode='cbc')))


GROUPS = [bad, meta, keys_, asym]
