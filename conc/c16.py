"""C16 key sets on disk."""
import common as c
from common import *
import shutil, tempfile, errno


class Dir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pyvc16')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def sets(t):
    A = lambda: AK(t.bs(t.rng.choice([16, 24, 32])), t.bs(32))
    H = lambda: HK(t.bs(32))
    ST = ['ACTIVE', 'INACTIVE']
    for _ in range(6):
        nums = t.rng.sample(range(1, 30), t.rng.randrange(0, 5))
        for purpose, mk in (('DECRYPT_AND_ENCRYPT', A), ('SIGN_AND_VERIFY', H)):
            vs = [[n, t.rng.choice(ST), mk()] for n in nums]
            if vs and t.rng.random() < .7:
                vs[t.rng.randrange(len(vs))][1] = 'PRIMARY'
            yield purpose, mk().type, [tuple(v) for v in vs], t.rng.choice(['Test', '', 'a b/c', 'N"q'])
    yield 'DECRYPT_AND_ENCRYPT', 'RSA_PRIV', [(1, 'ACTIVE', rsa_of(1024)[0]), (3, 'PRIMARY', rsa_of(1024)[1])], 'rsa'
    yield 'SIGN_AND_VERIFY', 'DSA_PRIV', [(2, 'PRIMARY', DSAKEYS[0]), (1, 'INACTIVE', DSAKEYS[1])], 'dsa'
    yield 'SIGN_AND_VERIFY', 'RSA_PRIV', [(12, 'PRIMARY', rsa_of(512)[0])], 'rsa-sign'
    yield 'ENCRYPT', 'RSA_PUB', [(2, 'PRIMARY', Pub(rsa_of(512)[1]))], 'rsa-pub'
    yield 'VERIFY', 'DSA_PUB', [(1, 'PRIMARY', Pub(DSAKEYS[2]))], 'dsa-pub'


def rd(p):
    with open(p) as f:
        return f.read()


def roundtrip(t):
    K = c.K
    ck = AK(t.bs(16), t.bs(32))
    crypter = K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', ck)]))
    other = K.Crypter(keyset('DECRYPT_AND_ENCRYPT', [(1, 'PRIMARY', AK(t.bs(16), t.bs(32)))]))
    for purpose, typ, vs, name in sets(t):
        for enc in (None, crypter):
            kw = dict(purpose=purpose, type=typ, versions=[(n, s) for n, s, _ in vs], encrypted=bool(enc))
            g = K.GenericKeyczar(keyset(purpose, vs, typ=typ, name=name))
            with Dir() as d:
                t.call('Write', g.Write, c.writers.CreateWriter(d), enc, **kw)
                t.eq(sorted(os.listdir(d)), sorted(['meta'] + [str(n) for n, _, _ in vs]), 'files are named by version', **kw)
                m = json.loads(rd(os.path.join(d, 'meta')))
                t.eq(m['encrypted'], bool(enc), 'metadata says whether keys are encrypted', **kw)
                t.eq(m['name'], name, 'name', **kw)
                t.eq(m['purpose'], purpose, 'purpose', **kw)
                t.eq(m['type'], typ, 'type', **kw)
                t.eq(sorted((v['versionNumber'], v['status'], v['exportable']) for v in m['versions']),
                     sorted((n, s, False) for n, s, _ in vs), 'versions and statuses', **kw)
                for n, s, k in vs:
                    text = rd(os.path.join(d, str(n)))
                    if enc:
                        p = ck.parse(b64d(text))
                        t.ok(p is not None, 'key file is exactly a ciphertext', version=n, **kw)
                        text = p
                    try:
                        j = json.loads(text)
                    except Exception:
                        j = text
                    t.eq(j, json.loads(k.json()), 'key file content', version=n, **kw)
                # reading back
                r = t.call('CreateReader', c.readers.CreateReader, d)
                if enc:
                    t.raises(c.errors.KeyczarError, 'encrypted set without crypter', K.GenericKeyczar, r)
                    if vs:
                        t.raises(c.errors.KeyczarError, 'wrong crypter', K.GenericKeyczar, c.readers.EncryptedReader(r, other))
                    r = c.readers.EncryptedReader(r, enc)
                h = t.call('reopen', K.GenericKeyczar, r, **kw)
                t.eq(sorted((v.version_number, str(v.status)) for v in h.versions), sorted((n, s) for n, s, _ in vs), 'versions read back', **kw)
                for v in h.versions:
                    k = [k for n, _, k in vs if n == v.version_number][0]
                    t.eq(json.loads(str(h.GetKey(v))), json.loads(k.json()), 'key read back', **kw)
                    t.eq(h.GetKey(v).hash_id, b64e(k.raw_id), 'identifier read back', **kw)
                prim = [n for n, s, _ in vs if s == 'PRIMARY']
                t.eq([] if h.primary_version is None else [h.primary_version.version_number], prim, 'primary read back', **kw)
                # switching encryption
                t.call('rewrite', g.Write, c.writers.CreateWriter(d), None if enc else crypter)
                m = json.loads(rd(os.path.join(d, 'meta')))
                t.eq(m['encrypted'], not enc, 'metadata follows the encrypter', **kw)
                for n, s, k in vs:
                    text = rd(os.path.join(d, str(n)))
                    p = text if enc else ck.parse(b64d(text)) if not text.startswith('{') else None
                    t.ok(p is not None and json.loads(p) == json.loads(k.json()), 'key file follows the encrypter', version=n, **kw)
                t.call('rewrite', h.Write, c.writers.CreateWriter(d), None)
                t.eq(json.loads(rd(os.path.join(d, 'meta')))['encrypted'], False, 'metadata marked not encrypted', **kw)
                for n, s, k in vs:
                    t.eq(json.loads(rd(os.path.join(d, str(n)))), json.loads(k.json()), 'plain again', **kw)


def deprecated(t):
    with Dir() as d:
        k = HK(t.bs(32))
        g = c.K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [(7, 'PRIMARY', k)]))
        t.call('Write to a path', g.Write, d)
        t.eq(sorted(os.listdir(d)), ['7', 'meta'], 'files')
        t.eq(json.loads(rd(os.path.join(d, '7'))), json.loads(k.json()), 'key file')


def opened_sets(t):
    """every class opens a written set from its location"""
    A = [AK(t.bs(16), t.bs(32)) for _ in range(2)]
    H = [HK(t.bs(32)) for _ in range(2)]
    for purpose, ks, classes in (('DECRYPT_AND_ENCRYPT', A, ['Crypter', 'Encrypter', 'GenericKeyczar']),
                                 ('SIGN_AND_VERIFY', H, ['Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier', 'GenericKeyczar'])):
        vs = [(1, 'ACTIVE', ks[0]), (2, 'PRIMARY', ks[1])]
        g = c.K.GenericKeyczar(keyset(purpose, vs))
        with Dir() as d:
            g.Write(c.writers.CreateWriter(d))
            for cl in classes:
                o = t.call('%s.Read' % cl, getattr(c.K, cl).Read, d)
                t.ok(type(o) is getattr(c.K, cl), 'class read', cls=cl)
                t.eq({v.version_number: o.GetKey(v).hash_id for v in o.versions}, {n: b64e(k.raw_id) for n, _, k in vs}, 'keys by version', cls=cl)
                t.eq(o.primary_version.version_number, 2, 'primary', cls=cl)


def overwrite(t):
    KM, W = c.keydata.KeyMetadata, c.writers
    for old in ('', 'x', '{"old": 1}'):
        with Dir() as d:
            p = os.path.join(d, 'meta')
            with open(p, 'w') as f:
                f.write(old)
            m = KM('n', c.keyinfo.DECRYPT_AND_ENCRYPT, c.keyinfo.AES)
            w = W.CreateWriter(d)
            t.raises(c.errors.KeyczarError, 'creation over existing metadata', lambda: w.WriteMetadata(m, overwrite=False))
            t.eq(rd(p), old, 'existing metadata untouched')
            t.raises(c.errors.KeyczarError, 'creation over existing metadata', lambda: w.WriteMetadata(m, False))
            t.eq(rd(p), old, 'existing metadata untouched')
            t.call('overwrite on request', lambda: w.WriteMetadata(m))
            t.eq(json.loads(rd(p))['name'], 'n', 'overwritten on request')
    with Dir() as d:
        w = W.CreateWriter(d)
        m = KM('n', c.keyinfo.DECRYPT_AND_ENCRYPT, c.keyinfo.AES)
        t.call('first creation', lambda: w.WriteMetadata(m, overwrite=False))
        t.eq(json.loads(rd(os.path.join(d, 'meta')))['name'], 'n', 'created')


def remove(t):
    with Dir() as d:
        w = c.writers.CreateWriter(d)
        for n in ('1', '2', '10', '12', 'meta'):
            with open(os.path.join(d, n), 'w') as f:
                f.write(n)
        t.call('Remove', w.Remove, 1)
        t.eq(sorted(os.listdir(d)), ['10', '12', '2', 'meta'], 'exactly that file is removed')
        t.call('Remove', w.Remove, 12)
        t.eq(sorted(os.listdir(d)), ['10', '2', 'meta'], 'exactly that file is removed')
        t.raises(c.errors.KeyczarError, 'removing a missing key file', w.Remove, 1)
        t.raises(c.errors.KeyczarError, 'removing a missing key file', w.Remove, 3)


def fserrors(t):
    E = c.errors.KeyczarError
    K = c.K
    with Dir() as d:
        no = os.path.join(d, 'nowhere')
        t.raises(E, 'reader for a missing location', c.readers.CreateReader, no)
        t.raises(E, 'writer for a missing location', c.writers.CreateWriter, no)
        for cl in ('GenericKeyczar', 'Encrypter', 'Crypter', 'Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier'):
            t.raises(E, '%s.Read of a missing location' % cl, getattr(K, cl).Read, no)
            t.raises(E, '%s.Read of an empty directory' % cl, getattr(K, cl).Read, d)
        fr = c.readers.FileReader(d)
        t.raises(E, 'missing metadata file', fr.GetMetadata)
        t.raises(E, 'missing key file', fr.GetKey, 1)
        os.mkdir(os.path.join(d, 'meta'))
        os.mkdir(os.path.join(d, '1'))
        t.raises(E, 'metadata is a directory', fr.GetMetadata)
        t.raises(E, 'key file is a directory', fr.GetKey, 1)
        w = c.writers.CreateWriter(d)
        m = c.keydata.KeyMetadata('n', c.keyinfo.DECRYPT_AND_ENCRYPT, c.keyinfo.AES)
        t.raises(E, 'metadata cannot be written', w.WriteMetadata, m)
        t.raises(E, 'key cannot be written', w.WriteKey, 'text', 1)
        t.raises(E, 'key cannot be removed', w.Remove, 1)
        t.raises(E, 'ReadFile', c.util.ReadFile, no)
        t.raises(E, 'WriteFile', c.util.WriteFile, 'x', os.path.join(no, 'x'))
        g = K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', HK(t.bs(32)))]))
        t.raises(E, 'Write into unwritable files', g.Write, w)
        t.raises(E, 'Write to a missing place', g.Write, no)
    with Dir() as d:
        for s in list(t.interesting()):
            if any(ch in s for ch in '\r') or any(ord(ch) > 127 for ch in s):
                continue      # text-mode files
            p = os.path.join(d, 'f')
            t.call('WriteFile', c.util.WriteFile, s, p)
            t.eq(t.call('ReadFile', c.util.ReadFile, p), s, 'file round trip', s=s)
        t.call('WriteFile', c.util.WriteFile, 'longer text', p)
        t.call('WriteFile', c.util.WriteFile, 'x', p)
        t.eq(rd(p), 'x', 'a file is replaced, not patched')
        # missing key file of a listed version
        g = K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', HK(t.bs(32))), (2, 'ACTIVE', HK(t.bs(32)))]))
        g.Write(c.writers.CreateWriter(d))
        os.remove(os.path.join(d, '2'))
        t.raises(E, 'a listed key is missing', K.GenericKeyczar.Read, d)


def lifecycle(t):
    """revoking via keyczart removes the file; metadata no longer lists it"""
    with Dir() as d:
        ks = [HK(t.bs(32)) for _ in range(3)]
        g = c.K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [(1, 'INACTIVE', ks[0]), (2, 'PRIMARY', ks[1]), (11, 'INACTIVE', ks[2])]))
        g.Write(c.writers.CreateWriter(d))
        t.call('revoke', c.keyczart.main, ['revoke', '--location=' + d, '--version=1'])
        t.eq(sorted(os.listdir(d)), ['11', '2', 'meta'], 'revoking removes the key file')
        t.eq(sorted(v['versionNumber'] for v in json.loads(rd(os.path.join(d, 'meta')))['versions']), [2, 11], 'and the version')
        for n in (2,):
            t.raises(c.errors.KeyczarError, 'not inactive', c.keyczart.main, ['revoke', '--location=' + d, '--version=%d' % n])
            t.eq(sorted(os.listdir(d)), ['11', '2', 'meta'], 'refused revocation keeps the file')
        t.call('revoke', c.keyczart.main, ['revoke', '--location=' + d, '--version=11'])
        t.eq(sorted(os.listdir(d)), ['2', 'meta'], 'revoking removes the key file')


GROUPS = [overwrite, remove, fserrors, deprecated, opened_sets, lifecycle, roundtrip]
