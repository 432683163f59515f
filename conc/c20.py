"""C20 keyczart."""
import common as c
from common import *
from c16 import Dir, rd
import contextlib


def snap(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = rd(p)
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + '/'] = None
    return out


def main_(argv):
    """runs keyczart.main with its output swallowed"""
    with contextlib.redirect_stdout(io.StringIO()):
        return c.keyczart.main(argv)


def shuffled(t, args):
    args = list(args)
    t.rng.shuffle(args)
    return args


def meta(d):
    return json.loads(rd(os.path.join(d, 'meta')))


WANT = {('sign', None): ('SIGN_AND_VERIFY', 'HMAC_SHA1'), ('sign', 'rsa'): ('SIGN_AND_VERIFY', 'RSA_PRIV'), ('sign', 'dsa'): ('SIGN_AND_VERIFY', 'DSA_PRIV'),
        ('crypt', None): ('DECRYPT_AND_ENCRYPT', 'AES'), ('crypt', 'rsa'): ('DECRYPT_AND_ENCRYPT', 'RSA_PRIV')}


def create(t):
    for (p, a), (purpose, typ) in WANT.items():
        for alg in ([a] if a is None else [a, a.upper(), a.capitalize()]):
            for name in (None, 'Test', 'My keys', '', 'x-y'):
                with Dir() as d:
                    args = ['--location=' + d, '--purpose=' + p]
                    if alg:
                        args.append('--asymmetric=' + alg)
                    if name is not None:
                        args.append('--name=' + name)
                    args = ['create'] + shuffled(t, args)
                    t.call('create', main_, args)
                    t.eq(sorted(os.listdir(d)), ['meta'], 'an empty key set', argv=args[:1] + [x for x in args[1:] if 'location' not in x])
                    m = meta(d)
                    kw = dict(purpose=p, asymmetric=alg, name=name)
                    t.eq((m['purpose'], m['type'], m['name'], m['versions'], m['encrypted']), (purpose, typ, 'Test' if name is None else name, [], False), 'metadata created', **kw)
                    old = snap(d)
                    t.raises(c.errors.KeyczarError, 'created twice', main_, args)
                    t.eq(snap(d), old, 'existing key set untouched', **kw)


def refuse(t):
    E = Exception
    with Dir() as d:
        for args in (['create', '--location=' + d], ['create', '--location=' + d, '--purpose=foo'], ['create', '--location=' + d, '--purpose=test'], ['create', '--location=' + d, '--purpose='], ['create', '--location=' + d, '--purpose=SIGN'],
                     ['create', '--purpose=crypt'], ['create', '--location=' + os.path.join(d, 'no'), '--purpose=crypt'], ['create', '--location=' + d, '--purpose=crypt', '--nope=1'],
                     ['frobnicate', '--location=' + d, '--purpose=crypt'], ['--location=' + d, 'create', '--purpose=crypt'], ['Create', '--location=' + d, '--purpose=crypt']):
            t.raises(E, 'refused', main_, args, argv=[a for a in args if 'location' not in a])
            t.eq(snap(d), {}, 'nothing written', argv=[a for a in args if 'location' not in a])
    with Dir() as d:
        g = c.K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [(1, 'INACTIVE', HK(t.bs(32))), (2, 'PRIMARY', HK(t.bs(32))), (5, 'ACTIVE', HK(t.bs(32)))]))
        g.Write(c.writers.CreateWriter(d))
        os.mkdir(os.path.join(d, 'dest'))
        old = snap(d)
        L = '--location=' + d
        no = '--location=' + os.path.join(d, 'no')
        for args in (['promote', L], ['demote', L], ['revoke', L], ['promote', '--version=1'], ['demote', '--version=2'], ['revoke', '--version=1'], ['addkey'], ['pubkey', L], ['pubkey', L, '--destination=' + os.path.join(d, 'dest')],
                     ['promote', L, '--version=2'], ['demote', L, '--version=1'], ['revoke', L, '--version=2'], ['revoke', L, '--version=5'], ['promote', L, '--version=3'], ['demote', L, '--version=3'], ['revoke', L, '--version=3'], ['revoke', L, '--version=0'], ['demote', L, '--version=0'],
                     ['promote', L, '--version=-1'], ['demote', L, '--version=-2'], ['revoke', L, '--version=-1'], ['promote', L, '--version=abc'], ['revoke', L, '--version='],
                     ['promote', no, '--version=1'], ['addkey', no], ['addkey', L, '--size=100'], ['addkey', L, '--size=128'], ['addkey', L, '--size=0'], ['addkey', L, '--size=x'], ['addkey', L, '--status=foo'], ['addkey', L, '--status='], ['addkey', L, '--crypter=' + os.path.join(d, 'no')],
                     ['addkey', L, '--foo=bar'], ['promote', L, '--version=1', '--foo=bar'], ['create', L, '--purpose=sign'], ['create', L, '--purpose=crypt'], ['nothing', L], ['addkey ', L]):
            t.raises(E, 'refused', main_, args, argv=[a for a in args if 'location' not in a])
            t.eq(snap(d), old, 'key set unchanged by the refused command', argv=[a for a in args if 'location' not in a])
        t.call('no command', main_, [])
        t.eq(snap(d), old, 'usage only')


def statuses(d):
    return {v['versionNumber']: v['status'] for v in meta(d)['versions']}


def addkey(t):
    SIZE = dict(AES=128, HMAC_SHA1=256)
    for p, typ, sizes in (('crypt', 'AES', [None, 128, 192, 256]), ('sign', 'HMAC_SHA1', [None, 256])):
        for size in sizes:
            for st in (None, 'active', 'primary', 'ACTIVE', 'Primary', 'inactive'):
                with Dir() as d:
                    main_(['create', '--location=' + d, '--purpose=' + p])
                    args = ['--location=' + d] + (['--size=%d' % size] if size else []) + (['--status=' + st] if st else [])
                    for n in (1, 2):
                        old = snap(d)
                        ost = statuses(d)
                        t.call('addkey', main_, ['addkey'] + shuffled(t, args))
                        want = (st or 'active').upper()
                        kw = dict(type=typ, size=size, status=st, n=n)
                        exp = {k: ('ACTIVE' if v == 'PRIMARY' and want == 'PRIMARY' else v) for k, v in ost.items()}
                        exp[n] = want
                        t.eq(statuses(d), exp, 'statuses after addkey', **kw)
                        new = snap(d)
                        t.eq(sorted(new), sorted(list(old) + [str(n)]), 'one key file added', **kw)
                        for f in old:
                            if f != 'meta':
                                t.eq(json.loads(new[f]), json.loads(old[f]), 'old keys kept', **kw)
                        t.eq(json.loads(new[str(n)])['size'], size or SIZE[typ], 'size of the new key', **kw)
                        t.eq(meta(d)['encrypted'], False, 'not encrypted', **kw)
    # with a crypter
    with Dir() as top:
        cd, d = os.path.join(top, 'c'), os.path.join(top, 'd')
        os.mkdir(cd)
        os.mkdir(d)
        main_(['create', '--location=' + cd, '--purpose=crypt'])
        main_(['addkey', '--location=' + cd, '--status=primary'])
        main_(['create', '--location=' + d, '--purpose=sign'])
        for n in (1, 2):
            t.call('addkey with crypter', main_, ['addkey', '--location=' + d, '--crypter=' + cd, '--status=primary'])
            t.eq(statuses(d), {1: 'PRIMARY'} if n == 1 else {1: 'ACTIVE', 2: 'PRIMARY'}, 'statuses', n=n)
            t.eq(meta(d)['encrypted'], True, 'marked encrypted', n=n)
            cr = c.K.Crypter.Read(cd)
            for i in range(1, n + 1):
                t.eq(json.loads(t.call('Decrypt', cr.Decrypt, rd(os.path.join(d, str(i)))))['size'], 256, 'key file is encrypted', n=n)
        old = snap(top)
        for a in (['addkey', '--location=' + d], ['promote', '--location=' + d, '--version=1'], ['demote', '--location=' + d, '--version=1'], ['revoke', '--location=' + d, '--version=1']):
            t.raises(c.errors.KeyczarError, 'encrypted set without its crypter', main_, a, cmd=a[0])
            t.eq(snap(top), old, 'key set unchanged', cmd=a[0])
        s = c.K.Signer(c.readers.EncryptedReader(c.readers.CreateReader(d), cr))
        t.eq(t.call('Verify', s.Verify, 'x', s.Sign('x')), True, 'the encrypted set works')
    # asymmetric
    with Dir() as d:
        main_(['create', '--location=' + d, '--purpose=sign', '--asymmetric=dsa'])
        with patched_dsa():
            t.call('addkey DSA', main_, ['addkey', '--location=' + d, '--status=primary'])
        t.eq(statuses(d), {1: 'PRIMARY'}, 'DSA set')
        dest = os.path.join(d, 'pub')
        os.mkdir(dest)
        old = snap(d)
        t.call('pubkey', main_, ['pubkey', '--location=' + d, '--destination=' + dest])
        t.eq(sorted(os.listdir(dest)), ['1', 'meta'], 'exported to the destination')
        m = meta(dest)
        t.eq((m['purpose'], m['type'], m['name']), ('VERIFY', 'DSA_PUB', 'Test'), 'exported metadata')
        t.ok('x' not in json.loads(rd(os.path.join(dest, '1'))), 'no private parameter')
        new = {k: v for k, v in snap(d).items() if not k.startswith('pub')}
        t.eq(new, {k: v for k, v in old.items() if not k.startswith('pub')}, 'the private set is unchanged')
        v, s = c.K.Verifier.Read(dest), c.K.Signer.Read(d)
        t.eq(t.call('Verify', v.Verify, 'm', s.Sign('m')), True, 'exported key verifies')
    with Dir() as d:
        main_(['create', '--location=' + d, '--purpose=crypt', '--asymmetric=rsa'])
        t.call('addkey RSA', main_, ['addkey', '--location=' + d, '--status=primary', '--size=1024'])
        t.eq(json.loads(rd(os.path.join(d, '1')))['size'], 1024, 'RSA size')
        t.eq(statuses(d), {1: 'PRIMARY'}, 'RSA set')


@contextlib.contextmanager
def patched_dsa():
    """DSA parameter generation in PyCrypto takes a while; hand out a prepared key."""
    from Crypto.PublicKey import DSA
    old = DSA.generate
    k = DSAKEYS[3]
    DSA.generate = lambda bits, rnd=None, progress_func=None: DSA.construct((k.y, k.g, k.p, k.q, k.x))
    try:
        yield
    finally:
        DSA.generate = old


def transitions(t):
    """promote, demote, revoke act on exactly the given version and are stored"""
    UP = {'INACTIVE': 'ACTIVE', 'ACTIVE': 'PRIMARY'}
    DOWN = {'PRIMARY': 'ACTIVE', 'ACTIVE': 'INACTIVE'}
    for it in range(12 if t.thorough else 5):
        with Dir() as d:
            nums = sorted(t.rng.sample(range(1, 25), 4))
            st = [t.rng.choice(['ACTIVE', 'INACTIVE']) for _ in nums]
            if it % 2:
                st[t.rng.randrange(4)] = 'PRIMARY'
            ks = [AK(t.bs(16), t.bs(32)) for _ in nums]
            g = c.K.GenericKeyczar(keyset('DECRYPT_AND_ENCRYPT', list(zip(nums, st, ks)), name='N'))
            g.Write(c.writers.CreateWriter(d))
            cur = dict(zip(nums, st))
            files = {str(n): json.loads(k.json()) for n, k in zip(nums, ks)}
            for step in range(25):
                cmd = t.rng.choice(['promote', 'demote', 'revoke', 'promote', 'demote'])
                n = t.rng.choice(nums + [0, 99])
                exp = dict(cur)
                ok = n in cur
                if ok and cmd == 'promote':
                    ok = cur[n] in UP
                    if ok:
                        if UP[cur[n]] == 'PRIMARY':
                            exp = {k: 'ACTIVE' if v == 'PRIMARY' else v for k, v in exp.items()}
                        exp[n] = UP[cur[n]]
                elif ok and cmd == 'demote':
                    ok = cur[n] in DOWN
                    if ok:
                        exp[n] = DOWN[cur[n]]
                elif ok:
                    ok = cur[n] == 'INACTIVE'
                    if ok:
                        del exp[n]
                a = [cmd] + shuffled(t, ['--location=' + d, '--version=%d' % n])
                kw = dict(cmd=cmd, version=n, before=cur)
                if ok:
                    t.call(cmd, main_, a, **kw)
                    if cmd == 'revoke':
                        files.pop(str(n))
                else:
                    t.raises(c.errors.KeyczarError, cmd + ' refused', main_, a, **kw)
                cur = exp
                t.eq(statuses(d), cur, 'statuses stored', **kw)
                s = snap(d)
                s.pop('meta')
                t.eq({k: json.loads(v) for k, v in s.items()}, files, 'key files', **kw)
                m = meta(d)
                t.eq((m['name'], m['purpose'], m['type'], m['encrypted']), ('N', 'DECRYPT_AND_ENCRYPT', 'AES', False), 'other metadata kept', **kw)


def installed(t):
    """the installed command gives main the arguments after its own name"""
    import sys
    old = sys.argv
    try:
        for name in ('n', 'My keys', ''):
            with Dir() as d:
                sys.argv = ['keyczart', 'create', '--location=' + d, '--name=' + name, '--purpose=sign']
                with contextlib.redirect_stdout(io.StringIO()):
                    t.call('_main_setuptools', c.keyczart._main_setuptools)
                m = meta(d)
                t.eq((m['name'], m['purpose'], m['type']), (name, 'SIGN_AND_VERIFY', 'HMAC_SHA1'), 'created', name=name)
    finally:
        sys.argv = old


GROUPS = [installed, create, refuse, addkey, transitions]
