"""C03 Signatures verify exactly when they should."""
from specs.kit import *
from specs.absset import *
SPECS = Registry()


def setup(ctx, cls, purpose='SIGN_AND_VERIFY', primary='maybe', ktype='HMAC_SHA1'):
  I = interp(ctx, 'util.Base64WSEncode', 'util.Base64WSDecode')
  s = AbsSet(ctx, I)
  return I, s, keyset(ctx, I, cls, s, purpose, ktype, primary)


def coder(ctx):
  """Default encoder/decoder or none: (extra positional arguments, encoded?)"""
  return ((), True) if ctx.choose(2) else ((None,), False)


@SPECS.spec(['keyczar.Signer.Sign', 'keyczar.Keyczar.primary_key', 'keyczar.Keyczar.GetKey'])
def sign_format(ctx):
  I, s, k = setup(ctx, 'Signer')
  m = symstr(ctx, 'm')
  extra, enc = coder(ctx)
  o = outcome(I, lambda: call(I, k, 'Sign', m, *extra))
  if s.pi is None:
    return expect(ctx, I, o, 'NoPrimaryKeyError', 'no primary key')
  if o[0] == 'raise':
    return ctx.fail('signing with a primary key succeeds', clsname(o[1].exc.cls))
  pk = s.elems[0][2]
  ctx.prove(pk is not None and len(pk.signed) == 1, 'signed once by the primary key')
  msg, sig = pk.signed[0]
  ctx.prove_streq(msg, cat(ctx, m, '\0'), 'what is signed is message|0x00')
  raw = cat(ctx, pk.header(I), sig)
  ctx.prove_streq(o[1], b64(I, raw) if enc else raw, 'Header | raw signature')


@SPECS.spec(['keyczar.Verifier.Verify', 'keyczar.Keyczar._ParseHeader', 'keyczar.Keyczar.GetKey'])
def verify_any_signature(ctx):
  I, s, k = setup(ctx, ('Verifier', 'Signer')[ctx.choose(2)])
  m, sig = symstr(ctx, 'm'), symstr(ctx, 'sig')
  o = outcome(I, lambda: call(I, k, 'Verify', m, sig, None))
  judge(ctx, I, s, m, sig, o)


def judge(ctx, I, s, m, sig, o, what='Signature', msg=None):
  n = tz(slen(sig))
  if ctx.decide(n < 5):
    return expect(ctx, I, o, 'KeyczarError', 'too short')
  if ctx.decide(tz(ctx.at(sig, 0)) != 0):
    return expect(ctx, I, o, 'KeyczarError', 'wrong version')
  e = s.by_id(b64(I, ctx.slice(sig, 1, 5)))
  if e is None:
    return expect(ctx, I, o, 'KeyczarError', 'unknown key')
  if o[0] == 'raise':
    return ctx.fail('an answer for a known key', '%s' % clsname(o[1].exc.cls))
  body = cat(ctx, m, '\0')
  rest = ctx.slice(sig, 5, None)
  want = s.key(e).m_Verify(I, body, rest)
  ctx.prove_eq(o[1], want, "the answer is the key's verdict on (message|0x00, rest)")


@SPECS.spec(['keyczar.Verifier.Verify'])
def verify_encoded(ctx):
  """The default decoder: the verdict on the decoded bytes."""
  I, s, k = setup(ctx, 'Verifier')
  m, t = symstr(ctx, 'm'), symstr(ctx, 't', maxcode=127)
  o = outcome(I, lambda: call(I, k, 'Verify', m, t))
  d = outcome(I, lambda: I.call(I.get('util.Base64WSDecode'), [t]))
  if d[0] == 'raise':
    return expect(ctx, I, o, 'KeyczarError', 'undecodable')
  judge(ctx, I, s, m, d[1], o)


@SPECS.spec(['keyczar.Signer.Sign', 'keyczar.Verifier.Verify'])
def signed_verifies(ctx):
  """With any set holding the signing key, whatever else it holds."""
  I, s, k = setup(ctx, 'Signer', primary='yes')
  m = symstr(ctx, 'm')
  extra, enc = coder(ctx)
  sig = call(I, k, 'Sign', m, *extra)
  pk = s.elems[0][2]
  t = AbsSet(ctx, I)
  e = t.fresh()
  e[2] = OpaqueKey(I, pk.hid)
  e[2].priv = pk          # the same key or its public key
  v = keyset(ctx, I, ('Verifier', 'Signer')[ctx.choose(2)], t, 'SIGN_AND_VERIFY', 'HMAC_SHA1')
  r = call(I, v, 'Verify', m, sig, *extra)
  ctx.prove_eq(r, True, 'a produced signature verifies')


# ------------------------------------------------------------ what the keys do
NUMS = ('util.BytesToLong', 'util.BigIntToBytes', 'util.Hash', 'util.IntToBytes')


@SPECS.spec(['keys.HmacKey.Sign', 'keys.HmacKey.Verify'])
def hmac_raw(ctx):
  I = interp(ctx, 'keys.HmacKey.VerifySignedData', 'util.Base64WSEncode')
  k, kb = hmackey(ctx, I)
  m, sig = symstr(ctx, 'm'), symstr(ctx, 'sig')
  mac = hmac_sha1(I, kb, m)
  ctx.prove_streq(call(I, k, 'Sign', m), mac, 'raw signature is the MAC')
  ctx.prove_eq(call(I, k, 'Verify', m, call(I, k, 'Sign', m)), True, 'own signature verifies')
  r = call(I, k, 'Verify', m, sig)
  if isinstance(r, SBool):
    r = ctx.decide(r.t)
  if r is True:
    ctx.prove_streq(sig, mac, 'True only for the MAC')
  else:
    ctx.prove(r is False, 'False otherwise')


@SPECS.spec(['keys.RsaPrivateKey.Sign', 'keys.RsaPrivateKey.Verify', 'keys.RsaPublicKey.Verify',
             'util.MakeEmsaMessage'])
def rsa_raw(ctx):
  """For every key size of the type and every key of that size."""
  from specs.contracts import bnum, bytesof
  I = interp(ctx, *NUMS)
  priv, pub, key, size = rsakey(ctx, I)
  k = size // 8
  m = symstr(ctx, 'm')
  em = emsa(I, m, k)
  sig = call(I, priv, 'Sign', m)
  ctx.prove(tz(slen(sig)) == k, 'exactly as long as the modulus')
  s = key.m_sign(I, s2b(em), None)[0]
  b = bytesof(I, s)
  ctx.prove_streq(sig, mkstr('str', [Rep(0, tsub(k, slen(b)))] + list(rope(b).segs)),
                  'RSA signature of the EMSA-PKCS1-v1_5 SHA-1 encoding')
  for x in (priv, pub):
    ctx.prove_eq(call(I, x, 'Verify', m, sig), True, 'own signature verifies')


@SPECS.spec(['keys.RsaPrivateKey.Verify', 'keys.RsaPublicKey.Verify'])
def rsa_verdict(ctx):
  from specs.contracts import bnum, bytesof
  I = interp(ctx, *NUMS)
  priv, pub, key, size = rsakey(ctx, I)
  m, sig = symstr(ctx, 'm'), symstr(ctx, 'sig')
  o = outcome(I, lambda: call(I, (priv, pub)[ctx.choose(2)], 'Verify', m, sig))
  if o[0] == 'raise':
    return ctx.fail('malformed signatures give False', clsname(o[1].exc.cls))
  want = key.m_verify(I, s2b(emsa(I, m, size // 8)), (bnum(I, sig),))
  ctx.prove_eq(o[1], want, 'RSA verification of the EMSA encoding of exactly that message')


@SPECS.spec(['keys.DsaPrivateKey.Sign', 'keys.DsaPublicKey.Verify', 'util.MakeDsaSig', 'util.ParseDsaSig'])
def dsa_raw(ctx):
  I = interp(ctx, 'util.Hash')
  priv, pub, key = dsakey(ctx, I)
  m = symstr(ctx, 'm')
  sig = call(I, priv, 'Sign', m)
  ks = [e[1] for e in ctx.events if e[0] == 'dsasign']
  ctx.prove(len(ks) == 1, 'one signature')
  rnd = [e for e in ctx.events if e[0] == 'randint' and isinstance(ks[0], SInt) and e[3].eq(ks[0].t)]
  ctx.prove(len(rnd) == 1, "the DSA k comes from the system's random source")
  ctx.prove(z3.And(tz(iterm(rnd[0][1])) <= 2, tz(iterm(rnd[0][2])) == tz(iterm(key.fields['q'])) - 1),
            'k covers the whole range') if rnd else None
  r, s = key.m_sign(I, s2b(sha1(I, m)), ks[0])
  ctx.prove_streq(sig, der_rs(I, r, s), 'DER sequence of r and s over the SHA-1 hash')
  for x in (priv, pub):
    ctx.prove_eq(call(I, x, 'Verify', m, sig), True, 'own signature verifies')


@SPECS.spec(['keys.DsaPrivateKey.Verify', 'keys.DsaPublicKey.Verify', 'util.ParseDsaSig'])
def dsa_verdict(ctx):
  I = interp(ctx, 'util.Hash')
  priv, pub, key = dsakey(ctx, I)
  m = symstr(ctx, 'm')
  x = (priv, pub)[ctx.choose(2)]
  if ctx.choose(2):
    r, s = symint(ctx, 'r', 0), symint(ctx, 's', 0)
    o = outcome(I, lambda: call(I, x, 'Verify', m, der_rs(I, r, s)))
    if o[0] == 'raise':
      return ctx.fail('an answer', clsname(o[1].exc.cls))
    ctx.prove_eq(o[1], key.m_verify(I, s2b(sha1(I, m)), (r, s)), 'DSA verification of (r, s)')
    return
  sig = symstr(ctx, 'sig')
  o = outcome(I, lambda: call(I, x, 'Verify', m, sig))
  if o[0] == 'raise':
    return ctx.fail('malformed signatures give False', clsname(o[1].exc.cls))
  r = o[1]
  if isinstance(r, SBool):
    r = ctx.decide(r.t)
  if r is True:
    # only when sig is the DER form of some (r, s) the library accepts
    ok = False
    for a, v in ctx.apps.get('dsaverify', []):
      if ctx.str_eq_valid(a[4], s2b(sha1(I, m))) and ctx.str_eq_valid(sig, der_rs(I, a[5], a[6])):
        ok = ok or ctx.entails(v)
    ctx.prove(ok, 'True only for the DER form of an accepted (r, s)')
  else:
    ctx.prove(r is False, 'False otherwise')
