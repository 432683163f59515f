"""C02 only authenticated plaintext is released."""
import common as c
from common import *


def setup(t, n=3):
    ks = [AK(t.bs(t.rng.choice([16, 24, 32])), t.bs(32)) for _ in range(n)]
    vs = [(i + 1, ['ACTIVE', 'PRIMARY', 'INACTIVE'][i % 3] if i < 3 else 'ACTIVE', k) for i, k in enumerate(ks)]
    return ks, t.call('open', c.K.Crypter, keyset('DECRYPT_AND_ENCRYPT', vs))


def rejected(t, cz, raw, what):
    t.raises(c.errors.KeyczarError, what, cz.Decrypt, raw, None, raw=raw)


def valid_or(t, cz, ks, raw, what):
    """raw is accepted exactly if the specification says so"""
    k = [k for k in ks if raw[:5] == '\0' + k.raw_id]
    if k and len(raw) >= 41 and raw[-20:] == hmac1(k[0].mac, raw[:-20]):
        return
    rejected(t, cz, raw, what)


def changes(t):
    for libname in both_libs():
        ks, cz = setup(t)
        for n in (0, 5, 16, 40):
            m = t.bs(n)
            ct = ks[n % 3].encrypt(m, t.bs(16))
            t.eq(t.call('valid', cz.Decrypt, ct, None), m, 'the unchanged ciphertext is accepted')
            for i in range(len(ct)):
                for d in (1, 2, 4, 8, 16, 32, 64, 128, 255, t.rng.randrange(1, 256)):
                    rejected(t, cz, ct[:i] + chr(ord(ct[i]) ^ d) + ct[i + 1:], 'one byte changed at %d' % i)
                rejected(t, cz, ct[:i] + ct[i + 1:], 'one byte missing')
                rejected(t, cz, ct[:i] + chr(ord(ct[i]) ^ 1) + ct[i:], "one byte added")
            for i in range(len(ct)):
                rejected(t, cz, ct[:i], 'truncated')
                if i:
                    rejected(t, cz, ct[i:], 'head missing')
            for ext in ('\0', 'x', t.bs(16), t.bs(20), ct, '\0' * 16):
                rejected(t, cz, ct + ext, 'extended')
                rejected(t, cz, ext + ct, 'prepended')
            for _ in range(60):
                i, j = t.rng.sample(range(len(ct)), 2)
                d = t.rng.randrange(1, 256)
                b = list(ct)
                b[i] = chr(ord(b[i]) ^ d)
                b[j] = chr(ord(b[j]) ^ d)
                rejected(t, cz, ''.join(b), 'two bytes changed alike')
                b = list(ct)
                b[i] = chr((ord(b[i]) + d) % 256)
                b[j] = chr((ord(b[j]) - d) % 256)
                if ''.join(b) != ct:
                    rejected(t, cz, ''.join(b), 'two bytes shifted against each other')
                b = list(ct)
                b[i], b[j] = b[j], b[i]
                if ''.join(b) != ct:
                    rejected(t, cz, ''.join(b), 'two bytes swapped')
            mac = ct[-20:]
            for i in range(20):
                rejected(t, cz, ct[:-20] + mac[:i], 'MAC cut')
                rejected(t, cz, ct[:-20] + mac[:i] + '\0' * (20 - i), 'MAC tail zeroed') if mac[i:] != '\0' * (20 - i) else None
                rejected(t, cz, ct[:-20] + t.bs(i) + mac[i:], 'MAC head random') if i else None
            rejected(t, cz, ct[:-20] + mac[::-1], 'MAC reversed')
            rejected(t, cz, ct[:-20] + mac + mac, 'MAC twice')
            rejected(t, cz, ct[:-20], 'no MAC')


def forged(t):
    ks, cz = setup(t)
    k, k2 = ks[0], ks[1]
    h, iv = '\0' + k.raw_id, t.bs(16)
    for m in ('', 'abc', t.bs(16), t.bs(33)):
        body = cbc_enc(k.key, iv, pad(m))
        for what, mac in [('of IV and body only', hmac1(k.mac, iv + body)), ('of body only', hmac1(k.mac, body)),
                          ('of header and body', hmac1(k.mac, h + body)), ('of header and IV', hmac1(k.mac, h + iv)),
                          ('under the AES key', hmac1(k.key, h + iv + body)), ('under another key', hmac1(k2.mac, h + iv + body)),
                          ('under no key', hmac1('', h + iv + body)), ('that is a plain hash', sha1(h + iv + body)),
                          ('of the id without version', hmac1(k.mac, h[1:] + iv + body)), ('empty', ''), ('zero', '\0' * 20),
                          ('of the message', hmac1(k.mac, m)), ('of all but the last byte', hmac1(k.mac, (h + iv + body)[:-1])),
                          ('of a padded copy', hmac1(k.mac, pad(h + iv + body)))]:
            rejected(t, cz, h + iv + body + mac, 'forged with a MAC ' + what)
        for v in list(range(1, 256)):
            x = chr(v) + k.raw_id + iv + body
            t.raises(c.errors.BadVersionError, 'version %d with a correct MAC' % v, cz.Decrypt, x + hmac1(k.mac, x), None, v=v)
        for u in ('\0\0\0\0', k.raw_id[::-1] if k.raw_id[::-1] != k.raw_id else 'zzzz', t.bs(4)):
            x = '\0' + u + iv + body
            t.raises(c.errors.KeyNotFoundError, 'unknown key with a correct MAC', cz.Decrypt, x + hmac1(k.mac, x), None, u=u)
        # the named key is used, not the one that would fit
        x = '\0' + k2.raw_id + iv + body
        rejected(t, cz, x + hmac1(k.mac, x), 'MAC by another key of the set')
    # unusual but authentic: any padding byte within the block
    for p in range(1, 17):
        body = cbc_enc(k.key, iv, (t.bs(32 - 1) + chr(p)))
        x = h + iv + body
        plain = cbc_dec(k.key, iv, body)
        t.eq(t.call('authentic', cz.Decrypt, x + hmac1(k.mac, x), None), plain[:-p], 'padding removed as its last byte says', p=p)


def short(t):
    ks, cz = setup(t)
    for n in range(0, 46):
        for h in ('\0' + ks[0].raw_id, '\0' + ks[1].raw_id, '\1' + ks[0].raw_id, t.bs(5)):
            raw = (h + t.bs(60))[:n]
            valid_or(t, cz, ks, raw, 'short or random input')
            if n < 5:
                t.raises(c.errors.ShortCiphertextError, 'shorter than a header', cz.Decrypt, raw, None)
    for n in range(5, 41):
        x = ('\0' + ks[0].raw_id + t.bs(40))[:n]
        t.raises(c.errors.ShortCiphertextError, 'no room for IV and MAC', cz.Decrypt, x, None, n=n)
        if n >= 25:
            # authentic but too short for an IV
            y = x[:n - 20]
            t.raises(c.errors.KeyczarError, 'authentic but no IV', cz.Decrypt, y + hmac1(ks[0].mac, y), None, n=n)
    for _ in range(300):
        valid_or(t, cz, ks, t.bs(t.rng.randrange(0, 120)), 'random input')


def encoded(t):
    ks, cz = setup(t)
    m = t.bs(20)
    e = b64e(ks[0].encrypt(m, t.bs(16)))
    t.eq(t.call('valid', cz.Decrypt, e), m, 'accepted')
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    for i in range(len(e)):
        x = e[:i] + al[(al.index(e[i]) + t.rng.randrange(1, 64)) % 64] + e[i + 1:]
        if b64d(x) != b64d(e):
            t.raises(c.errors.KeyczarError, 'one character changed', cz.Decrypt, x)
        t.raises(c.errors.KeyczarError, 'cut', cz.Decrypt, e[:i])
        t.raises(c.errors.KeyczarError, 'character missing', cz.Decrypt, e[:i] + e[i + 1:])
    for junk in ('', 'A', 'AAAAA', '????', '=', '====', 'AA==', '\xff\xfe', ' ', '\n', '-', '_' * 50, 'A' * 400):
        t.raises(c.errors.KeyczarError, 'junk', cz.Decrypt, junk)


def others(t):
    """a revoked key no longer decrypts; each key set only its own"""
    ks, cz = setup(t, 5)
    for i, k in enumerate(ks):
        rest = [(j + 1, 'ACTIVE', x) for j, x in enumerate(ks) if j != i]
        cz2 = c.K.Crypter(keyset('DECRYPT_AND_ENCRYPT', rest))
        ct = k.encrypt('secret', t.bs(16))
        t.eq(t.call('decrypt', cz.Decrypt, ct, None), 'secret', 'right set')
        t.raises(c.errors.KeyNotFoundError, 'key not in the set', cz2.Decrypt, ct, None)


GROUPS = [forged, short, encoded, others, changes]
