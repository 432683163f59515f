"""C05 unversioned signatures."""
import common as c
from common import *
from c03 import sets


def open_(t, ks, prim=1):
    prim = min(prim, len(ks) - 1)
    vs = [(i + 1, 'PRIMARY' if i == prim else ['ACTIVE', 'INACTIVE'][i % 2], k) for i, k in enumerate(ks)]
    s = t.call('open', c.K.UnversionedSigner, keyset('SIGN_AND_VERIFY', vs))
    ver = [s, t.call('open', c.K.UnversionedVerifier, keyset('SIGN_AND_VERIFY', vs))]
    if ks[0].type != 'HMAC_SHA1':
        ver.append(t.call('open', c.K.UnversionedVerifier, keyset('VERIFY', [(n, st, Pub(k)) for n, st, k in vs])))
    return s, ver, ks[prim]


def body(t):
    for ks in sets(t):
        for prim in range(len(ks)):
            s, ver, key = open_(t, ks, prim)
            few = key.type != 'HMAC_SHA1'
            for m in ['', 'x', 'm\0', '\0', t.bs(40)] + ([] if few else list(t.interesting()) + list(t.msgs([64, 65, 1000]))):
                raw = t.call('sign', s.Sign, m, None)
                t.ok(key.rawsig_ok(m, raw), 'exactly the raw signature of the message', m=m, raw=raw, typ=key.type)
                enc = t.call('sign encoded', s.Sign, m)
                t.ok(key.rawsig_ok(m, b64d(enc)), 'encoded', m=m)
                for v in ver:
                    t.ok(t.call('verify', v.Verify, m, raw, None) == True, 'verifies', m=m, typ=key.type)
                    t.ok(t.call('verify encoded', v.Verify, m, enc) == True, 'verifies encoded', m=m, typ=key.type)
                    for k in ks:
                        t.ok(t.call('foreign', v.Verify, m, k.sign(m, t.rng), None) == True, 'any key of the set', m=m, typ=k.type)
                        t.ok(t.call('with version byte', v.Verify, m, k.sign(m + '\0', t.rng), None) == False, 'versioned signature is not accepted', m=m, typ=k.type)
                        t.ok(t.call('with header', v.Verify, m, '\0' + k.raw_id + k.sign(m, t.rng), None) == False, 'header is not accepted', m=m, typ=k.type)
                    for m2 in (m + '\0', m + 'y', m[:-1] + 'q', 'other'):
                        if m2 != m:
                            t.ok(t.call('other message', v.Verify, m2, raw, None) == False, 'other message', m=m, m2=m2, typ=key.type)
                    for i in range(0, len(raw), 1 if not few else 11):
                        x = raw[:i] + chr(ord(raw[i]) ^ (1 << t.rng.randrange(8))) + raw[i + 1:]
                        t.ok(t.call('changed', v.Verify, m, x, None) == False, 'changed signature', m=m, i=i, typ=key.type)
                        t.ok(t.call('cut', v.Verify, m, raw[:i], None) == False, 'cut signature', m=m, i=i, typ=key.type)
                    for junk in ['', '\0', '\0' * 20, t.bs(20), t.bs(128), t.bs(46), '\x30\x00', '\x30\x80', '\x02\x01\x05', '\x05\x00', '0' * 300, '\xff' * 64]:
                        t.ok(t.call('junk', v.Verify, m, junk, None) == False, 'junk gives False and no error', junk=junk, typ=key.type)
    # an unrelated key's signature
    a, b = HK(t.bs(32)), HK(t.bs(32))
    v = c.K.UnversionedVerifier(keyset('SIGN_AND_VERIFY', [(1, 'PRIMARY', a)]))
    t.ok(v.Verify('m', b.sign('m'), None) == False, 'key not in the set')


def many(t):
    for n in (1, 2, 7, 15):
        ks = [HK(t.bs(32)) for _ in range(n)]
        st = [t.rng.choice(['ACTIVE', 'INACTIVE']) for _ in range(n)]
        nums = t.rng.sample(range(1, 100), n)
        v = c.K.UnversionedVerifier(keyset('SIGN_AND_VERIFY', list(zip(nums, st, ks))))
        for k in ks:
            t.ok(v.Verify('m', k.sign('m'), None) == True, 'every key counts', n=n)
            t.ok(v.Verify('n', k.sign('m'), None) == False, 'wrong message', n=n)
    e = c.K.UnversionedVerifier(keyset('SIGN_AND_VERIFY', [], typ='HMAC_SHA1'))
    t.ok(t.call('empty set', e.Verify, 'm', 'sig', None) == False, 'empty set accepts nothing')
    for vs in ([], [(1, 'ACTIVE', HK(t.bs(32)))]):
        s = c.K.UnversionedSigner(keyset('SIGN_AND_VERIFY', vs, typ='HMAC_SHA1'))
        t.raises(c.errors.NoPrimaryKeyError, 'no primary', s.Sign, 'x')


GROUPS = [many, body]
