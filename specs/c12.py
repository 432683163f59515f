"""C12 Public-key encodings follow PKCS#1 and DSA formats."""
from specs.kit import *
from specs.c03 import rsa_raw, rsa_verdict, dsa_raw, dsa_verdict
from specs.contracts import mgf, xorstr, bytesof
SPECS = Registry()
OAEP = ('util.Base64WSDecode', 'util.BytesToLong', 'util.BigIntToBytes', 'util.Hash', 'util.IntToBytes', 'util.MGF',
        'util.Base64WSEncode', 'util.Xor')


def oaep_encode(I, m, k, seed):
  """Specification (RFC 3447, SHA-1, empty label), k bytes."""
  ctx = I.ctx
  ps = tsub(k - 42, slen(m))
  db = mkstr('str', list(rope(sha1(I, '')).segs) + [Rep(0, ps), Lit([1])] + list(rope(m).segs))
  mdb = xorstr(I, db, mgf(I, seed, k - 21))
  ms = xorstr(I, seed, mgf(I, mdb, 20))
  return cat(ctx, '\0', ms, mdb)


def rnd(ctx, I, n0):
  return cat(ctx, '', *[b2s(I, e[2]) for e in ctx.events[n0:] if e[0] == 'urandom'])


def encrypted(ctx, I, key, n0=0):
  l = ctx.apps.get('rsaenc', [])
  if len(l) != n0 + 1:
    raise Unsupported('number of RSA operations')
  return l[-1]


@SPECS.spec(['keys.RsaPublicKey.Encrypt', 'keys.RsaPrivateKey.Encrypt'], deadline=90)
def rsa_encrypt_is_oaep(ctx):
  """For every size, key, message and seed."""
  I = interp(ctx, *OAEP)
  priv, pub, key, size = rsakey(ctx, I)
  k = size // 8
  m = symstr(ctx, 'm')
  n0 = len(ctx.events)
  o = outcome(I, lambda: call(I, (pub, priv)[ctx.choose(2)], 'Encrypt', m))
  if ctx.decide(tz(slen(m)) > k - 42):
    return expect(ctx, I, o, 'KeyczarError', 'message over the limit')
  if o[0] == 'raise':
    return ctx.fail('a message within the limit is encrypted', clsname(o[1].exc.cls))
  seed = rnd(ctx, I, n0)
  ctx.prove(tz(slen(seed)) == 20, 'a fresh 20-byte seed')
  em = oaep_encode(I, m, k, seed)
  a, r = encrypted(ctx, I, key)
  ctx.prove_streq(b2s(I, a[2]), em, 'RSA operates on the OAEP-SHA1 encoding with empty label')
  ctx.prove_eq((a[0], a[1]), (key.fields['n'], key.fields['e']), 'under the public key')
  ctx.prove_streq(o[1], cat(ctx, call(I, pub, 'Header'), mkstr('str', [BS(r, 0, r.length)])),
                  'Header | RSA(OAEP(message))')


@SPECS.spec(['keys.RsaPrivateKey.Decrypt'], deadline=120)
def rsa_decrypt_inverts_oaep(ctx):
  """Also when the library strips leading zero bytes.  Assumed: a valid encoding has
  fewer than k-42 leading zero bytes (probability of the contrary below 2^-170)."""
  I = interp(ctx, *OAEP)
  priv, pub, key, size = rsakey(ctx, I)
  k = size // 8
  m = symstr(ctx, 'm')
  ctx.assume(tz(slen(m)) <= k - 42)
  seed = symstr(ctx, 'seed', 20)
  em = oaep_encode(I, m, k, seed)
  c = key.m_publickey(I).m_encrypt(I, s2b(em), None)[0]
  z = lib.strip0(I, s2b(em))
  ctx.assume(tz(slen(z)) >= 42)
  o = outcome(I, lambda: call(I, priv, 'Decrypt', cat(ctx, symstr(ctx, 'hdr', 5), b2s(I, c))))
  if o[0] == 'raise':
    return ctx.fail('a valid encoding is decoded', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], m, 'exactly the message')


def raw_decrypt(ctx, I, priv, key, k):
  """Decryption of a ciphertext whose decrypted block (k-1 bytes, leading zero byte
  dropped by the library) is ms|mdb with a non-zero first byte."""
  ms, mdb = symstr(ctx, 'ms', 20), symstr(ctx, 'mdb', k - 21)
  c = symstr(ctx, 'c', k)
  return ms, mdb, c


@SPECS.spec(['keys.RsaPrivateKey.Decrypt'], deadline=120)
def rsa_decrypt_refuses(ctx):
  """An encoding whose data block is not sha1('') | zeros | 01 | M is refused."""
  I = interp(ctx, *OAEP)
  priv, pub, key, size = rsakey(ctx, I)
  k = size // 8
  db = symstr(ctx, 'db', k - 21)
  seed = symstr(ctx, 'seed', 20)
  mdb = xorstr(I, db, mgf(I, seed, k - 21))
  ms = xorstr(I, seed, mgf(I, mdb, 20))
  ctx.assume(tz(ctx.at(ms, 0)) != 0)
  c = key.m_publickey(I).m_encrypt(I, s2b(cat(ctx, '\0', ms, mdb)), None)[0]
  o = outcome(I, lambda: call(I, priv, 'Decrypt', cat(ctx, symstr(ctx, 'hdr', 5), b2s(I, c))))
  h = sha1(I, '')
  if not ctx.decide_streq(ctx.slice(db, 0, 20), h):
    return expect(ctx, I, o, 'KeyczarError', 'wrong label hash')
  rest = b2s(I, lib.strip0(I, s2b(ctx.slice(db, 20, None))))
  if ctx.decide(tz(slen(rest)) == 0):
    return expect(ctx, I, o, 'KeyczarError', 'no delimiter')
  if ctx.decide(tz(ctx.at(rest, 0)) != 1):
    return expect(ctx, I, o, 'KeyczarError', 'wrong delimiter')
  if o[0] == 'raise':
    return ctx.fail('a valid encoding is decoded', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], ctx.slice(rest, 1, None), 'what follows the delimiter')


@SPECS.spec(['util.MGF'])
def mgf_limit(ctx):
  I = interp(ctx)
  seed, n = symstr(ctx, 'seed'), symint(ctx, 'n', 20 * 2**32 + 1)
  expect(ctx, I, outcome(I, lambda: I.call(I.get('util.MGF'), [seed, n])), 'KeyczarError', 'mask too long')


@SPECS.spec(['util.MakeEmsaMessage'])
def emsa_encoding(ctx):
  I = interp(ctx, 'util.Hash')
  m = symstr(ctx, 'm')
  bits = RSA_SIZES[ctx.choose(len(RSA_SIZES))]
  ctx.prove_streq(I.call(I.get('util.MakeEmsaMessage'), [m, bits]), emsa(I, m, bits // 8),
                  'EMSA-PKCS1-v1_5 with SHA-1')


SPECS.spec(['keys.RsaPrivateKey.Sign', 'util.MakeEmsaMessage', 'util.PadBytes'])(rsa_raw)
SPECS.spec(['keys.RsaPublicKey.Verify'])(rsa_verdict)
SPECS.spec(['keys.DsaPrivateKey.Sign', 'util.MakeDsaSig'])(dsa_raw)
SPECS.spec(['keys.DsaPublicKey.Verify', 'util.ParseDsaSig'])(dsa_verdict)


@SPECS.spec(['util.ParseDsaSig', 'util.MakeDsaSig'])
def dsa_format(ctx):
  I = interp(ctx)
  if ctx.choose(2):
    r, s = symint(ctx, 'r', 0), symint(ctx, 's', 0)
    d = I.call(I.get('util.MakeDsaSig'), [r, s])
    ctx.prove_streq(d, der_rs(I, r, s), 'DER sequence of r and s')
    ctx.prove_eq(I.call(I.get('util.ParseDsaSig'), [d]), (r, s), 'parsed back')
    return
  sig = symstr(ctx, 'sig')
  o = outcome(I, lambda: I.call(I.get('util.ParseDsaSig'), [sig]))
  if o[0] == 'raise':
    return expect(ctx, I, o, 'KeyczarError', 'refusal')
  r, s = o[1]
  ctx.prove_streq(sig, der_rs(I, r, s), 'only the DER form of two integers is accepted')
