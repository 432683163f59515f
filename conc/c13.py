"""C13 PKCS8 and X.509."""
import common as c
from common import *

RF = ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq']


def rsa_params(t):
    for k in RSAKEYS[::2]:
        yield dict(n=k.n, e=k.e, d=k.d, p=k.p, q=k.q, dp=k.d % (k.p - 1), dq=k.d % (k.q - 1), invq=pow(k.q, -1, k.p))
    for _ in range(60):
        yield {f: t.rng.choice([0, 1, 127, 128, 255, 256, 65537, t.rng.getrandbits(t.rng.randrange(1, 2100))]) for f in RF}
    yield {f: i for i, f in enumerate(RF)}
    yield {f: 2**(8 * i + 7) for i, f in enumerate(RF)}


def dsa_params(t):
    for k in DSAKEYS:
        yield dict(p=k.p, q=k.q, g=k.g, y=k.y, x=k.x)
    for _ in range(60):
        yield {f: t.rng.choice([0, 1, 127, 128, 255, 256, t.rng.getrandbits(t.rng.randrange(1, 1100))]) for f in 'pqgyx'}
    yield dict(p=11, q=22, g=33, y=44, x=55)


def body(t):
    U = c.util
    for p in rsa_params(t):
        inner = der_seq(der_int(0), *[der_int(p[f]) for f in RF])
        want = der_seq(der_int(0), der_seq(RSA_OID, NULL), der(4, inner))
        x = t.call('ExportRsaPkcs8', U.ExportRsaPkcs8, p)
        t.eq(b64d(x), want, 'PKCS8 field order', **p)
        t.eq(t.call('ParsePkcs8', U.ParsePkcs8, x), p, 'PKCS8 RSA round trip', **p)
        t.eq(t.call('ParsePkcs8', U.ParsePkcs8, b64e(want)), p, 'PKCS8 RSA foreign', **p)
        pub = dict(n=p['n'], e=p['e'])
        want = der_seq(der_seq(RSA_OID, NULL), der(3, '\0' + der_seq(der_int(p['n']), der_int(p['e']))))
        x = t.call('ExportRsaX509', U.ExportRsaX509, pub)
        t.eq(b64d(x), want, 'X.509 RSA layout', **pub)
        t.eq(t.call('ParseX509', U.ParseX509, x), pub, 'X.509 RSA round trip', **pub)
        t.eq(t.call('ParseX509', U.ParseX509, b64e(want)), pub, 'X.509 RSA foreign', **pub)
    for q in dsa_params(t):
        alg = der_seq(DSA_OID, der_seq(der_int(q['p']), der_int(q['q']), der_int(q['g'])))
        p = {f: q[f] for f in 'pqgx'}
        want = der_seq(der_int(0), alg, der(4, der_int(p['x'])))
        x = t.call('ExportDsaPkcs8', U.ExportDsaPkcs8, p)
        t.eq(b64d(x), want, 'PKCS8 DSA layout', **p)
        t.eq(t.call('ParsePkcs8', U.ParsePkcs8, x), p, 'PKCS8 DSA round trip', **p)
        p = {f: q[f] for f in 'pqgy'}
        want = der_seq(alg, der(3, '\0' + der_int(p['y'])))
        x = t.call('ExportDsaX509', U.ExportDsaX509, p)
        t.eq(b64d(x), want, 'X.509 DSA layout', **p)
        t.eq(t.call('ParseX509', U.ParseX509, x), p, 'X.509 DSA round trip', **p)
        t.eq(t.call('ParseX509', U.ParseX509, b64e(want)), p, 'X.509 DSA foreign', **p)


def bad(t):
    U = c.util
    E = c.errors.KeyczarError
    alg = der_seq(RSA_OID, NULL)
    other = der_seq(der_oid(1, 2, 840, 113549, 1, 1, 5), NULL)
    inner = lambda v=0: der(4, der_seq(der_int(v), *[der_int(i + 2) for i in range(8)]))
    t.call('good', U.ParsePkcs8, b64e(der_seq(der_int(0), alg, inner())))
    for what, x in [('two fields', der_seq(der_int(0), alg)), ('four fields', der_seq(der_int(0), alg, inner(), NULL)), ('one field', der_seq(der_int(0))), ('no field', der_seq()),
                    ('version 1', der_seq(der_int(1), alg, inner())), ('version 2', der_seq(der_int(2), alg, inner())), ('version -1', der_seq(der_int(-1), alg, inner())), ('RSA version 1', der_seq(der_int(0), alg, inner(1))),
                    ('RSA version 256', der_seq(der_int(0), alg, inner(256))), ('version 256', der_seq(der_int(256), alg, inner())),
                    ('algorithm', der_seq(der_int(0), other, inner())), ('algorithm', der_seq(der_int(0), der_seq(der_oid(1, 2, 3), NULL), inner())),
                    ('algorithm', der_seq(der_int(0), der_seq(der_oid(1, 2, 840, 10040, 4, 3), NULL), inner()))]:
        t.raises(E, 'PKCS8 ' + what, U.ParsePkcs8, b64e(x), what=what)
    pub = der(3, '\0' + der_seq(der_int(5), der_int(3)))
    t.call('good', U.ParseX509, b64e(der_seq(alg, pub)))
    for what, x in [('one field', der_seq(alg)), ('no field', der_seq()), ('three fields', der_seq(alg, pub, NULL)), ('algorithm', der_seq(other, pub)), ('algorithm', der_seq(der_seq(der_oid(1, 2, 3), NULL), pub))]:
        t.raises(E, 'X.509 ' + what, U.ParseX509, b64e(x), what=what)
    t.raises(E, 'bad Base64', U.ParsePkcs8, 'AAAAA')
    t.raises(E, 'bad Base64', U.ParseX509, 'AAAAA')


GROUPS = [body, bad]
