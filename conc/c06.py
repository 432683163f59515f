"""C06 key identifiers."""
import common as c
from common import *


def check(t, key, obj, what, /, **kw):
    t.eq(t.call(what + ' id', lambda: obj.hash_id), b64e(key.raw_id), what + ': identifier', **kw)
    t.eq(t.call(what + ' header', obj.Header), '\0' + key.raw_id, what + ': header', **kw)


def ty(name):
    return c.keyinfo.GetType(name)


def symmetric(t):
    for rep in range(150):
        ln = t.rng.choice([16, 24, 32])
        kb = t.rng.choice([t.bs(ln), '\0' * t.rng.randrange(1, ln) + t.bs(ln), '\0' * ln, '\xff' * ln])[:ln]
        mk = t.rng.choice([t.bs(32), '\0' + t.bs(31), '\0' * 32])
        a, h = AK(kb, mk), HK(mk)
        o = t.call('read AES', c.keys.ReadKey, ty('AES'), a.json())
        check(t, a, o, 'AES', key=kb, mac=mk)
        check(t, a, c.keys.ReadKey(ty('AES'), str(o)), 'AES reread', key=kb, mac=mk)
        check(t, h, o.hmac_key, 'MAC key of AES', mac=mk)
        o = t.call('read HMAC', c.keys.ReadKey, ty('HMAC_SHA1'), h.json())
        check(t, h, o, 'HMAC', key=mk)
        check(t, h, c.keys.ReadKey(ty('HMAC_SHA1'), str(o)), 'HMAC reread', key=mk)
    for ln in range(0, 70):    # the length prefix is that of the key
        kb, mk = t.bs(ln), t.bs(ln + 3)
        a = AK(kb, mk)
        o = c.keys.AesKey(b64e(kb), c.keys.HmacKey(b64e(mk)))
        check(t, a, o, 'AES of any length', key=kb, mac=mk)
        check(t, HK(kb), c.keys.HmacKey(b64e(kb)), 'HMAC of any length', key=kb)


def generated(t):
    for n, sizes in (('AES', (128, 192, 256)), ('HMAC_SHA1', (256,))):
        for s in sizes:
            for _ in range(20):
                o = t.call('generate', c.keys.GenKey, ty(n), s)
                j = json.loads(str(o))
                key = AK(b64d(j['aesKeyString']), b64d(j['hmacKey']['hmacKeyString'])) if n == 'AES' else HK(b64d(j['hmacKeyString']))
                check(t, key, o, 'generated', json=str(o))
    o = t.call('generate', c.keys.GenKey, ty('RSA_PRIV'), 1024)
    j = json.loads(str(o.public_key))
    rid = sha1(*[pack(b64d(j[f]).lstrip('\0')) for f in ('modulus', 'publicExponent')])[:4]
    t.eq(o.hash_id, b64e(rid), 'generated RSA id')
    t.eq(o.public_key.hash_id, b64e(rid), 'generated RSA public id')


def trim(s):
    return s.lstrip('\0') or '\0'


def asym(t):
    for key in RSAKEYS + RSAODD:
        o = t.call('read RSA', c.keys.ReadKey, ty('RSA_PRIV'), key.json())
        p = t.call('read RSA public', c.keys.ReadKey, ty('RSA_PUB'), key.pubjson())
        for what, x in (('RSA private', o), ('RSA public', p), ('RSA public of private', o.public_key),
                        ('RSA reread', c.keys.ReadKey(ty('RSA_PRIV'), str(o))), ('RSA public reread', c.keys.ReadKey(ty('RSA_PUB'), str(p))),
                        ('RSA public exported', c.keys.ReadKey(ty('RSA_PUB'), str(o.public_key)))):
            check(t, key, x, what, bits=key.bits)
    for key in DSAKEYS:
        o = t.call('read DSA', c.keys.ReadKey, ty('DSA_PRIV'), key.json())
        p = t.call('read DSA public', c.keys.ReadKey, ty('DSA_PUB'), key.pubjson())
        for what, x in (('DSA private', o), ('DSA public', p), ('DSA public of private', o.public_key),
                        ('DSA reread', c.keys.ReadKey(ty('DSA_PRIV'), str(o))), ('DSA public exported', c.keys.ReadKey(ty('DSA_PUB'), str(o.public_key)))):
            check(t, key, x, what)
    # any parameter values: number of leading zeros must not matter, the bytes must
    for _ in range(120):
        zs = lambda: '\0' * t.rng.randrange(0, 4)
        n, e = [zs() + t.rng.choice([t.bs(t.rng.randrange(1, 40)), '\1', '\x80' + t.bs(3)]) for _ in range(2)]
        if num(n) < 3 or num(e) < 1:
            continue
        p = t.call('public RSA', c.keys.ReadKey, ty('RSA_PUB'), json.dumps(dict(modulus=b64e(n), publicExponent=b64e(e), size=1024)))
        t.eq(p.hash_id, b64e(sha1(pack(trim(n)), pack(trim(e)))[:4]), 'RSA id of any parameters', n=n, e=e)
        t.eq(p.Header(), '\0' + sha1(pack(trim(n)), pack(trim(e)))[:4], 'RSA header of any parameters', n=n, e=e)
        v = {f: zs() + t.bs(t.rng.randrange(1, 30)) for f in 'pqgy'}
        p = t.call('public DSA', c.keys.ReadKey, ty('DSA_PUB'), json.dumps(dict({f: b64e(x) for f, x in v.items()}, size=1024)))
        t.eq(p.hash_id, b64e(sha1(*[pack(trim(v[f])) for f in 'pqgy'])[:4]), 'DSA id of any parameters', **v)


def zero_ids(t):
    """identifiers with special bytes: zero, bytes whose Base64 has - or _"""
    seen = set()
    for i in range(40000):
        kb = 'k%07d' % i + 'x' * 24
        h = HK(kb)
        r = h.raw_id
        cls = [n for n, b in (('0', r[0] == '\0'), ('00', r[:2] == '\0\0'), ('end0', r[3] == '\0'), ('-', '-' in b64e(r)), ('_', '_' in b64e(r)),
                              ('sp', ' ' in r), ('nl', '\n' in r), ('ff', r[0] == '\xff'), ('eq', '=' in r), ('--', '--' in b64e(r))) if b]
        new = [n for n in cls if n not in seen]
        if new:
            seen.update(new)
            o = c.keys.HmacKey(b64e(kb))
            check(t, h, o, 'HMAC id ' + '/'.join(new), key=kb)
            s = c.K.Signer(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', h)]))
            sig = t.call('sign', s.Sign, 'm')
            t.eq(b64d(sig)[:5], '\0' + r, 'header of output', key=kb)
            t.ok(t.call('verify', s.Verify, 'm', sig), 'found by its id', key=kb)
            t.ok(s.GetKey(b64e(r)) is not None, 'GetKey by id', key=kb)


GROUPS = [symmetric, generated, asym, zero_ids]
