"""C02 Symmetric decryption releases only authenticated plaintext."""
from specs.kit import *
from specs.absset import *
from specs.c01 import HM, setup, crypt_lib, cbc, aes_header
SPECS = Registry()


@SPECS.spec(['keys.AesKey.Decrypt', 'keys.AesKey._UnPad', 'keys.AesKey._CreateCipher'], deadline=120)
def aes_decrypt_any_input(ctx):
  """Every byte string of at least a header's length."""
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  k, kb, hb = aeskey(ctx, I)
  c = symstr(ctx, 'c')
  L = tz(slen(c))
  ctx.assume(L >= 5)
  n0 = len(I.state.get('ciphers', []))
  o = outcome(I, lambda: call(I, k, 'Decrypt', c))
  made = I.state.get('ciphers', [])[n0:]
  if ctx.decide(L < 41):
    ctx.prove(not made, 'nothing is decrypted')
    return expect(ctx, I, o, 'KeyczarError', 'too short')
  mac = ctx.slice(c, mkint(simp(L - 20)), None)
  body = ctx.slice(c, 0, mkint(simp(L - 20)))
  if not ctx.decide_streq(hmac_sha1(I, hb, body), mac):
    ctx.prove(not made, 'nothing is decrypted')
    return expect(ctx, I, o, 'KeyczarError', 'wrong MAC')
  ct = ctx.slice(c, 21, mkint(simp(L - 20)))
  if ctx.decide(z3.Or(L == 41, (L - 41) % 16 != 0)):
    return ctx.ok('authentic but not a ciphertext: no claim')
  plain = cbc(I, kb, ctx.slice(c, 5, 21), ct, 0)
  p = tz(ctx.at(plain, simp(L - 42)))
  if not ctx.decide(z3.And(p >= 1, p <= 16)):
    return ctx.ok('authentic but not padded: no claim')
  if o[0] == 'raise':
    return ctx.fail('an authentic ciphertext is decrypted', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], ctx.slice(plain, 0, mkint(simp(L - 41 - p))),
                  'CBC decryption under the key with its padding removed')


@SPECS.spec(['keyczar.Crypter.Decrypt', 'keyczar.Keyczar._ParseHeader', 'keyczar.Keyczar.GetKey'])
def set_decrypt_any_input(ctx):
  """The key set hands the whole input to the key named in the header, and only to it."""
  I, s, k = setup(ctx, 'Crypter', 'DECRYPT_AND_ENCRYPT', ktype='AES')
  c = symstr(ctx, 'c')
  o = outcome(I, lambda: call(I, k, 'Decrypt', c, None))
  judge(ctx, I, s, c, o)


@SPECS.spec(['keyczar.Crypter.Decrypt'])
def set_decrypt_any_text(ctx):
  I, s, k = setup(ctx, 'Crypter', 'DECRYPT_AND_ENCRYPT', ktype='AES')
  t = symstr(ctx, 't', maxcode=127)
  o = outcome(I, lambda: call(I, k, 'Decrypt', t))
  d = outcome(I, lambda: I.call(I.get('util.Base64WSDecode'), [t]))
  if d[0] == 'raise':
    return expect(ctx, I, o, 'KeyczarError', 'undecodable')
  judge(ctx, I, s, d[1], o)


def judge(ctx, I, s, c, o):
  ops = [(e, x) for e in s.elems if e[2] is not None for x in e[2].calls]
  if ctx.decide(tz(slen(c)) < 5):
    ctx.prove(not ops, 'no key is used')
    return expect(ctx, I, o, 'KeyczarError', 'too short')
  if ctx.decide(tz(ctx.at(c, 0)) != 0):
    ctx.prove(not ops, 'no key is used')
    return expect(ctx, I, o, 'KeyczarError', 'wrong version')
  e = s.by_id(b64(I, ctx.slice(c, 1, 5)))
  if e is None:
    ctx.prove(not ops, 'no key is used')
    return expect(ctx, I, o, 'KeyczarError', 'unknown key')
  ctx.prove(len(ops) >= 1 and all(x[0] is e and x[1][0] == 'Decrypt' for x in ops),
            'only the identified key decrypts')
  for x in ops:
    ctx.prove_streq(x[1][1], c, 'the key sees the whole input')
  if o[0] == 'raise':
    if getattr(o[1].exc, 'fromkey', None) is s.key(e):
      return ctx.ok("the key's refusal is passed on")
    if kcz(I, o[1]) and any(f for f in s.key(e).refused):
      return ctx.ok("the key's refusal is passed on")
    return ctx.fail('an answer of the key is passed on', clsname(o[1].exc.cls))
  if not s.key(e).answered:
    return ctx.fail('no plaintext without the key', repr(o[1]))
  ctx.prove_streq(o[1], s.key(e).answered[-1], "the key's plaintext")


@SPECS.spec(['keys.AesKey._Hash', 'keys.Key.Header'])
def header_names_the_key(ctx):
  """The identifier under which a key is found is the one of its key material."""
  I = interp(ctx, *HM)
  k, kb, hb = aeskey(ctx, I)
  ctx.prove_streq(call(I, k, 'Header'), aes_header(I, kb, hb), 'version byte 0 and key hash')
  ctx.prove_streq(I.getattr(k, 'hash_id'), b64(I, ctx.slice(aes_header(I, kb, hb), 1, 5)), 'identifier')
