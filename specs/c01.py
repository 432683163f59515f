"""C01 Encryption round trip."""
from specs.kit import *
from specs.absset import *
from specs.c03 import setup, coder
SPECS = Registry()
HM = ('util.Base64WSDecode', 'keys.HmacKey.Sign', 'keys.HmacKey.Verify', 'util.Base64WSEncode', 'util.Hash', 'util.IntToBytes')


def crypt_lib(ctx, I, which=None):
  """Either crypto library: M2Crypto present, or only PyCrypto."""
  ns = I.module('keys').ns
  if ctx.choose(2) if which is None else which:
    need('ACTIVE_CRYPT_LIB' in ns and 'EVP' in ns, 'ACTIVE_CRYPT_LIB')
    ns['EVP'] = None
    ns['ACTIVE_CRYPT_LIB'] = 'pycrypto'


def cbc(I, kb, iv, data, op):
  """Specification: AES-CBC without padding."""
  return b2s(I, lib.CipherN(I, s2b(kb), s2b(iv), op).run(I, s2b(data)))


def pkcs5(ctx, m):
  n = tz(slen(m))
  p = simp(16 - n % 16)
  return mkstr('str', list(rope(m).segs) + [Rep(p, p)])


def aes_header(I, kb, hb):
  h = sha1(I, cat(I.ctx, be32(I.ctx, mkint(slen(kb))), kb, hb))
  return I.ctx.concat('\0', I.ctx.slice(h, 0, 4))


def random_pieces(ctx):
  """Everything the system's random source delivered, in order."""
  return [e for e in ctx.events if e[0] == 'urandom']


@SPECS.spec(['keyczar.Encrypter.Encrypt', 'keyczar.Keyczar.primary_key'])
def encrypt_uses_primary(ctx):
  cls, purp = (('Encrypter', 'ENCRYPT'), ('Encrypter', 'DECRYPT_AND_ENCRYPT'),
               ('Crypter', 'DECRYPT_AND_ENCRYPT'))[ctx.choose(3)]
  I, s, k = setup(ctx, cls, purp, ktype='AES')
  m = symstr(ctx, 'm')
  extra, enc = coder(ctx)
  o = outcome(I, lambda: call(I, k, 'Encrypt', m, *extra))
  if s.pi is None:
    return expect(ctx, I, o, 'NoPrimaryKeyError', 'no primary key')
  if o[0] == 'raise':
    return ctx.fail('encryption with a primary key succeeds', clsname(o[1].exc.cls))
  pk = s.elems[0][2]
  ctx.prove(pk is not None and len(pk.encrypted) == 1, 'encrypted once by the primary key')
  msg, c = pk.encrypted[0]
  ctx.prove_streq(msg, m, 'exactly the message is encrypted')
  ctx.prove_streq(o[1], b64(I, c) if enc else c, "the key's ciphertext, encoded")


@SPECS.spec(['keyczar.Encrypter.Encrypt', 'keyczar.Crypter.Decrypt', 'keyczar.Keyczar._ParseHeader'])
def round_trip_any_set(ctx):
  """Decryption with any set that holds the key, whatever its status there and whatever
  else the set holds: covers every later add, promote and demote."""
  I, s, k = setup(ctx, 'Encrypter', 'DECRYPT_AND_ENCRYPT', 'yes', 'AES')
  m = symstr(ctx, 'm')
  extra, enc = coder(ctx)
  c = call(I, k, 'Encrypt', m, *extra)
  pk = s.elems[0][2]
  t = AbsSet(ctx, I)
  if ctx.choose(2):
    v = keyset(ctx, I, 'Crypter', t, 'DECRYPT_AND_ENCRYPT', 'AES', 'maybe')
    e = t.fresh()
  else:
    v = keyset(ctx, I, 'Crypter', t, 'DECRYPT_AND_ENCRYPT', 'AES', 'yes')
    e = t.elems[0]
  e[2] = OpaqueKey(I, pk.hid)
  e[2].priv = pk
  o = outcome(I, lambda: call(I, v, 'Decrypt', c, *extra))
  if o[0] == 'raise':
    return ctx.fail('decryption of a produced ciphertext succeeds', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], m, 'exactly the message')


@SPECS.spec(['keys.AesKey.Encrypt', 'keys.AesKey._Pad', 'keys.AesKey._CreateCipher',
             'keys.Key.Header', 'keys.AesKey._Hash'])
def aes_format(ctx):
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  k, kb, hb = aeskey(ctx, I)
  m = symstr(ctx, 'm')
  n0 = len(random_pieces(ctx))
  c = call(I, k, 'Encrypt', m)
  rnd = random_pieces(ctx)[n0:]
  iv = cat(ctx, '', *[b2s(I, e[2]) for e in rnd])
  ctx.prove(tz(slen(iv)) == 16, 'fresh 16-byte IV')
  head = cat(ctx, aes_header(I, kb, hb), iv, cbc(I, kb, iv, pkcs5(ctx, m), 1))
  ctx.prove_streq(c, cat(ctx, head, hmac_sha1(I, hb, head)),
                  'Header | IV | CBC(PKCS5(m)) | HMAC-SHA1 of everything before')


@SPECS.spec(['keys.AesKey.Encrypt', 'keys.AesKey.Decrypt', 'keys.AesKey._UnPad'])
def aes_round_trip(ctx):
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  k, kb, hb = aeskey(ctx, I)
  m = symstr(ctx, 'm')
  c = call(I, k, 'Encrypt', m)
  o = outcome(I, lambda: call(I, k, 'Decrypt', c))
  if o[0] == 'raise':
    return ctx.fail('decryption succeeds', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], m, 'Decrypt(Encrypt(m)) == m')


from specs.c12 import rsa_encrypt_is_oaep, rsa_decrypt_inverts_oaep
SPECS.spec(['keys.RsaPublicKey.Encrypt', 'keys.RsaPrivateKey.Encrypt'], deadline=90)(rsa_encrypt_is_oaep)
SPECS.spec(['keys.RsaPrivateKey.Decrypt'], deadline=120)(rsa_decrypt_inverts_oaep)
