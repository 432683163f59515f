"""C08 life cycle: every history up to a depth against a model, and long random ones."""
import itertools
import common as c
from common import *
from c01 import Writer

P, A, I = 'PRIMARY', 'ACTIVE', 'INACTIVE'


class Refused(Exception):
    pass


class Model(object):
    """number -> status, insertion ordered"""
    def __init__(self, vs=()):
        self.v = dict(vs)

    def primary(self):
        x = [n for n, s in self.v.items() if s == P]
        return x[0] if x else None

    def apply(self, op):
        v = dict(self.v)
        if op[0] == 'add':
            if op[2] == 'bad':
                raise Refused()
            n = max(list(v) + [0]) + 1
            if op[1] == P:
                for k in v:
                    if v[k] == P:
                        v[k] = A
            v[n] = op[1]
        else:
            n = op[1]
            if n not in v:
                raise Refused()
            s = v[n]
            if op[0] == 'promote':
                if s == P:
                    raise Refused()
                if s == A:
                    for k in v:
                        if v[k] == P:
                            v[k] = A
                    v[n] = P
                else:
                    v[n] = A
            elif op[0] == 'demote':
                if s == I:
                    raise Refused()
                v[n] = A if s == P else I
            else:
                if s != I:
                    raise Refused()
                del v[n]
        self.v = v


def observe(g):
    """everything a user can see of the key set"""
    md = {x.version_number: x.status.name for x in g.metadata.versions}
    vs = [(x.version_number, x.status.name, g.GetKey(x).hash_id) for x in g.versions]
    pv = g.primary_version
    pk = g.primary_key
    return dict(md=md, vs=sorted(vs), nmd=len(g.metadata.versions),
                pv=None if pv is None else (pv.version_number, pv.status.name),
                pk=None if pk is None else pk.hash_id,
                text=sorted((v['versionNumber'], v['status']) for v in json.loads(str(g.metadata))['versions']))


def do(g, op, badsize):
    if op[0] == 'add':
        size = {'default': None, 'bad': badsize}.get(op[2], op[2])
        if size is None and op[2] == 'default':
            g.AddVersion(c.keyinfo.GetStatus(op[1]))
        else:
            g.AddVersion(c.keyinfo.GetStatus(op[1]), size)
    else:
        getattr(g, op[0].capitalize())(op[1])


def step(t, g, m, op, hist, ids, badsize=13):
    before = observe(g)
    m2 = Model(m.v)
    try:
        m2.apply(op)
        legal = True
    except Refused:
        legal = False
    kw = dict(start=hist[0], history=hist[1:], op=op)
    if not legal:
        t.raises(c.errors.KeyczarError, 'refused', do, g, op, badsize, **kw)
        t.eq(observe(g), before, 'a refused operation changes nothing', **kw)
        return
    t.call('legal operation', do, g, op, badsize, **kw)
    o = observe(g)
    t.eq(o['md'], m2.v, 'statuses and numbers', **kw)
    t.eq({n: s for n, s, h in o['vs']}, m2.v, 'versions of the set', **kw)
    t.eq((o['nmd'], len(o['vs'])), (len(m2.v), len(m2.v)), 'numbers are unique', **kw)
    t.eq(o['text'], sorted(m2.v.items()), 'metadata text', **kw)
    pr = m2.primary()
    t.eq(o['pv'], None if pr is None else (pr, P), 'the primary version', **kw)
    t.ok(sum(s == P for s in o['md'].values()) <= 1, 'at most one primary', **kw)
    byn = {n: h for n, s, h in o['vs']}
    t.eq(o['pk'], byn.get(pr), 'the primary key', **kw)
    for n, h in ids.items():
        if n in m2.v and n in m.v:
            t.eq(byn[n], h, 'versions keep their keys', **kw)
    if op[0] == 'revoke':
        h = ids.pop(op[1])
        t.raises(c.errors.KeyNotFoundError, 'a revoked key cannot be found by identifier', g.GetKey, h, **kw)
    for n, h in byn.items():
        t.eq(g.GetKey(h).hash_id, h, 'found by identifier', **kw)
    t.eq(len(set(byn.values())), len(byn), 'identifiers are unique', **kw)
    ids.clear()
    ids.update(byn)
    m.v = m2.v


def mk(t, vs, typ='HMAC_SHA1'):
    ks = {n: (HK(t.bs(32)) if typ == 'HMAC_SHA1' else AK(t.bs(16), t.bs(32))) for n, s in vs}
    g = t.call('open', c.K.GenericKeyczar, keyset('SIGN_AND_VERIFY' if typ == 'HMAC_SHA1' else 'DECRYPT_AND_ENCRYPT', [(n, s, ks[n]) for n, s in vs], typ=typ))
    return g, Model(vs), {n: b64e(k.raw_id) for n, k in ks.items()}


STARTS = [(), ((1, P),), ((1, A),), ((1, I),), ((1, A), (2, P)), ((1, P), (2, A), (3, I)), ((5, I), (2, P)), ((7, A), (3, I), (12, P)), ((2, I), (1, I)), ((10, A), (9, A)), ((3, P), (1, A), (2, A))]


def ops_for(m, full=False):
    nums = sorted(m.v)
    cand = nums + [max(nums + [0]) + 1] + ([0, -1, 99] if full else [])
    out = [('add', s, 'default') for s in (P, A, I)] + [('add', P, 'bad'), ('add', A, 'bad')]
    for n in cand:
        out += [('promote', n), ('demote', n), ('revoke', n)]
    return out


def exhaustive(t):
    """all histories of 2 (3 when thorough) operations from every start"""
    depth = 3 if t.thorough else 2

    def rec(start, hist, d):
        g, m, ids = mk(t, start)
        for op in hist:
            step(t, g, m, op, [start] + list(hist), ids)
        if d == 0:
            return
        for op in ops_for(m, full=d == depth):
            rec2(start, hist, op, d)

    def rec2(start, hist, op, d):
        if t.left() < 5:
            return
        rec(start, hist + [op], d - 1)
    for s in STARTS:
        rec(s, [], depth)


def randomised(t):
    for rep in range(60 if not t.thorough else 400):
        typ = t.rng.choice(['HMAC_SHA1', 'AES'])
        g, m, ids = mk(t, t.rng.choice(STARTS), typ)
        hist = [tuple(m.v.items())]
        for i in range(t.rng.randrange(5, 40)):
            op = t.rng.choice(ops_for(m, True))
            if op[0] == 'add' and op[2] == 'default' and typ == 'AES':
                op = (op[0], op[1], t.rng.choice([128, 192, 256, 'default']))
            if op[0] == 'add' and len(m.v) > 12:
                continue
            step(t, g, m, op, hist, ids)
            hist.append(op)
            if rep % 3 == 0 and i % 4 == 3:    # through serialisation
                w = Writer()
                g.Write(w)
                g = t.call('reopen', c.K.GenericKeyczar, w.reader())
                hist.append('reopen')
        # the primary is the key that is used
        w = Writer()
        g.Write(w)
        if typ == 'HMAC_SHA1':
            s = t.call('reopen as signer', c.K.Signer, w.reader())
            if m.primary() is None:
                t.raises(c.errors.NoPrimaryKeyError, 'no primary', s.Sign, 'x')
            else:
                t.eq(b64e(b64d(s.Sign('x'))[1:5]), ids[m.primary()], 'the primary key signs', history=hist)


def other_refusals(t):
    """sizes, types, and failures in the middle leave the set alone"""
    for typ, purpose in (('RSA_PUB', 'VERIFY'), ('DSA_PUB', 'VERIFY'), ('RSA_PUB', 'ENCRYPT')):
        k = Pub(rsa_of(512)[0] if typ[0] == 'R' else DSAKEYS[0])
        for vs in ([], [(1, P, k)]):
            g = c.K.GenericKeyczar(keyset(purpose, vs, typ=typ))
            b = observe(g)
            for st in (P, A):
                t.raises(c.errors.KeyczarError, 'public keys cannot be generated', g.AddVersion, c.keyinfo.GetStatus(st), typ=typ)
                t.eq(observe(g), b, 'refused addition changes nothing', typ=typ, status=st)
    g, m, ids = mk(t, ((1, A), (2, P)), 'AES')
    b = observe(g)
    for size in (0, -1, 1, 64, 127, 129, 160, 255, 257, 512, 1024, 2048):
        for st in (P, A, I):
            t.raises(c.errors.KeyczarError, 'bad size', g.AddVersion, c.keyinfo.GetStatus(st), size)
            t.eq(observe(g), b, 'refused addition changes nothing', size=size)
    md = c.keydata.KeyMetadata('n', c.keyinfo.ENCRYPT, c.keyinfo.AES)
    v1 = c.keydata.KeyVersion(1, c.keyinfo.ACTIVE, False)
    t.ok(t.call('AddVersion', md.AddVersion, v1), 'new number is added')
    t.ok(not t.call('AddVersion', md.AddVersion, c.keydata.KeyVersion(1, c.keyinfo.PRIMARY, True)), 'number in use is not added')
    t.ok(md.GetVersion(1) is v1, 'the version stays')
    for op in (md.RemoveVersion, md.GetVersion):
        for n in (0, 2, 11):
            t.raises(c.errors.KeyczarError, 'unknown number', op, n)
    t.call('RemoveVersion', md.RemoveVersion, 1)
    t.eq(md.versions, [], 'removed')
    t.raises(c.errors.KeyczarError, 'unknown number', md.RemoveVersion, 1)
    # colliding identifiers: the new key must differ from the existing ones
    g = c.K.GenericKeyczar(keyset('SIGN_AND_VERIFY', [], typ='HMAC_SHA1'))
    k1, k2 = t.bs(32), t.bs(32)
    with Urandom(k1):
        g.AddVersion(c.keyinfo.PRIMARY)
    with Urandom(k1, k1, k2):
        t.call('add with collision', g.AddVersion, c.keyinfo.ACTIVE)
    o = observe(g)
    t.eq(len({h for n, s, h in o['vs']}), 2, 'a colliding key is not taken')
    t.eq(sorted(o['md'].items()), [(1, P), (2, A)], 'numbers after a collision')


GROUPS = [other_refusals, exhaustive, randomised]
