"""C17 public key export."""
import common as c
from common import *
import shutil, tempfile
from c16 import Dir, rd

RPRIV = ['privateExponent', 'primeP', 'primeQ', 'primeExponentP', 'primeExponentQ', 'crtCoefficient', 'x']


def allkeys(j, out):
    if isinstance(j, dict):
        for k, v in j.items():
            out.add(k)
            allkeys(v, out)
    elif isinstance(j, list):
        for v in j:
            allkeys(v, out)
    return out


def body(t):
    K = c.K
    S = ['ACTIVE', 'INACTIVE']
    cases = []
    for purpose, pool in (('DECRYPT_AND_ENCRYPT', rsa_of(512) + rsa_of(1024)), ('SIGN_AND_VERIFY', rsa_of(512) + rsa_of(768) + rsa_of(1024)), ('SIGN_AND_VERIFY', DSAKEYS)):
        for i in range(6):
            n = t.rng.randrange(0, 4) if i else 1
            ks = t.rng.sample(pool, n)
            nums = t.rng.sample(range(1, 40), n)
            sts = [t.rng.choice(S) for _ in ks]
            if n and i != 5:
                sts[t.rng.randrange(n)] = 'PRIMARY'
            cases.append((purpose, type(pool[0]).type, list(zip(nums, sts, ks)), t.rng.choice(['Test', '', 'a "b" c'])))
    for purpose, typ, vs, name in cases:
        for exp in (False, True):
            kw = dict(purpose=purpose, type=typ, versions=[(n, s) for n, s, _ in vs], exportable=exp)
            rdr = mem(metajson(purpose, typ, vs, name=name, exportable=exp), {n: k.json() for n, _, k in vs})
            g = K.GenericKeyczar(rdr)
            before = str(g)
            with Dir() as d:
                t.call('export', g.PublicKeyExport, d, **kw)
                t.eq(json.loads(str(g)), json.loads(before), 'exporting leaves the key set alone', **kw)
                t.eq(sorted(os.listdir(d)), sorted(['meta'] + [str(n) for n, _, _ in vs]), 'exported files', **kw)
                m = json.loads(rd(os.path.join(d, 'meta')))
                t.eq(m['name'], name, 'name', **kw)
                t.eq(m['type'], typ.replace('PRIV', 'PUB'), 'type', **kw)
                t.eq(m['purpose'], 'VERIFY' if purpose == 'SIGN_AND_VERIFY' else 'ENCRYPT', 'purpose', **kw)
                t.eq(m['encrypted'], False, 'not encrypted', **kw)
                t.eq(sorted((v['versionNumber'], v['status']) for v in m['versions']), sorted((n, s) for n, s, _ in vs), 'versions and statuses', **kw)
                for n, s, k in vs:
                    text = rd(os.path.join(d, str(n)))
                    j = json.loads(text)
                    t.eq(j, json.loads(k.pubjson()), 'exactly the public parameters', version=n, **kw)
                    t.ok(not (allkeys(j, set()) & set(RPRIV)), 'no private parameter', version=n, **kw)
                    full = json.loads(k.json())
                    for f in RPRIV:
                        if f in full:
                            t.ok(full[f] not in text, 'no private value', version=n, field=f, **kw)
                pub = t.call('open exported', K.GenericKeyczar.Read, d)
                t.eq(sorted((v.version_number, str(v.status), pub.GetKey(v).hash_id) for v in pub.versions), sorted((n, s, b64e(k.raw_id)) for n, s, k in vs), 'identifiers', **kw)
                prim = [k for _, s, k in vs if s == 'PRIMARY']
                msg = t.bs(9)
                if purpose == 'SIGN_AND_VERIFY':
                    ver = t.call('Verifier', K.Verifier.Read, d)
                    if prim:
                        sig = K.Signer(rdr).Sign(msg)
                        t.eq(t.call('Verify', ver.Verify, msg, sig), True, 'what the private set signs verifies', **kw)
                        t.eq(t.call('Verify', ver.Verify, msg + 'x', sig), False, 'and nothing else', **kw)
                    for cls in (K.Signer, K.Crypter, K.Encrypter):
                        t.raises(c.errors.KeyczarError, 'public set is for verifying only', cls.Read, d)
                else:
                    if prim and prim[0].limit >= 9:
                        e = t.call('Encrypter', K.Encrypter.Read, d)
                        t.eq(t.call('Decrypt', K.Crypter(rdr).Decrypt, e.Encrypt(msg)), msg, 'what the public set encrypts decrypts', **kw)
                    for cls in (K.Crypter, K.Signer, K.Verifier):
                        t.raises(c.errors.KeyczarError, 'public set is for encrypting only', cls.Read, d)


def refused(t):
    K = c.K
    good = {('SIGN_AND_VERIFY', 'DSA_PRIV'), ('SIGN_AND_VERIFY', 'RSA_PRIV'), ('DECRYPT_AND_ENCRYPT', 'RSA_PRIV')}
    mk = dict(AES=AK(t.bs(16), t.bs(32)), HMAC_SHA1=HK(t.bs(32)), RSA_PRIV=rsa_of(512)[0], DSA_PRIV=DSAKEYS[0], RSA_PUB=Pub(rsa_of(512)[0]), DSA_PUB=Pub(DSAKEYS[0]))
    for purpose in PURPOSES:
        for typ, k in mk.items():
            if (purpose, typ) in good:
                continue
            for vs in ([], [(1, 'PRIMARY', k)]):
                g = K.GenericKeyczar(keyset(purpose, vs, typ=typ))
                with Dir() as d:
                    t.raises(c.errors.KeyczarError, 'unsuitable key set', g.PublicKeyExport, d, purpose=purpose, type=typ, n=len(vs))
                    t.eq(os.listdir(d), [], 'nothing is written', purpose=purpose, type=typ)


def unwritable(t):
    g = c.K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', DSAKEYS[0])]))
    with Dir() as d:
        t.raises(c.errors.KeyczarError, 'missing destination', g.PublicKeyExport, os.path.join(d, 'no'))


GROUPS = [refused, unwritable, body]
