"""C18 Sessions."""
from specs.kit import *
from specs.absset import *
from specs.c01 import HM, crypt_lib, cbc, pkcs5, aes_header, random_pieces
from specs.c03 import coder
from specs.c22 import from_random
from specs.c07 import numtext
SPECS = Registry()


class EncN(Native):
  """An encrypter and the crypter that holds its key: Decrypt inverts Encrypt; whatever else
  is decrypted is refused or anything at all."""
  tname = 'crypter'

  def __init__(self, I, any_=None):
    Native.__init__(self, I)
    self.done, self.any = [], any_

  def m_Encrypt(self, I, data, *a):
    need(not a, 'coder of the session material')
    ct = I.ctx.freshstr('material%d' % len(self.done), maxcode=127)
    self.done.append((data, ct))
    return ct

  def m_Decrypt(self, I, ct, *a):
    need(not a, 'coder of the session material')
    if self.any is not None:
      return self.any
    for d, c in self.done:
      if I.ctx.quick_same(c, ct) or I.ctx.str_eq_valid(c, ct):
        return d
    raise PyRaise(I.exc(I.get('errors.KeyczarError'), 'refused'))


class SigN(Native):
  """A signer and the matching verifier of attached signatures."""
  tname = 'signer'

  def __init__(self, I):
    Native.__init__(self, I)
    self.signed, self.asked = [], []
    self.any = None

  def m_AttachedSign(self, I, data, nonce, *a):
    need(not a, 'coder of the signed data')
    b = I.ctx.freshstr('blob%d' % len(self.signed), maxcode=127)
    self.signed.append((data, nonce, b))
    return b

  def m_AttachedVerify(self, I, blob, nonce, *a):
    need(not a, 'coder of the signed data')
    self.asked.append((blob, nonce))
    if self.any is not None:
      return self.any(I, blob, nonce)
    ctx = I.ctx
    for d, n, b in self.signed:
      if (ctx.quick_same(b, blob) or ctx.str_eq_valid(b, blob)) and ctx.decide_streq(n, nonce):
        return d
    return None


def fresh_pieces(ctx, I, n0):
  return [b2s(I, e[2]) for e in random_pieces(ctx)[n0:]]


def parse_packed(ctx, I, p):
  """The two arrays of packed material (by the contract of the framing, C11)."""
  r = I.call(I.get('util.UnpackMultipleByteArrays'), [p])
  return r.items if isinstance(r, PList) and r.sym is None else None


def key_of_material(ctx, I, p):
  """Specification: (key, MAC key) packed as two arrays after the count word."""
  xs = parse_packed(ctx, I, p)
  if xs is None or len(xs) != 2:
    ctx.fail('the material is two byte arrays', repr(p))
    return None
  kb, hb = xs
  want = cat(ctx, be32(ctx, 2), be32(ctx, slen(kb)), kb, be32(ctx, slen(hb)), hb)
  ctx.prove_streq(p, want, 'count, key, MAC key, each with its length')
  return kb, hb


@SPECS.spec(['keyczar.SessionEncrypter.__init__', 'keyczar._Session.New', 'keyczar._Session.packed_key',
             'keyczar.SessionEncrypter.session_material', 'util.PackMultipleByteArrays'])
def fresh_session(ctx):
  """Key and MAC key come from the random source, every session has its own; the material is
  the packed key encrypted with the encrypter given, nothing else."""
  I = interp(ctx, *HM)
  enc = EncN(I)
  used = []
  for i in range(2):
    n0 = len(random_pieces(ctx))
    s = I.call(I.get('keyczar.SessionEncrypter'), [enc])
    ps = fresh_pieces(ctx, I, n0)
    ctx.prove(len(enc.done) == i + 1, 'the key is encrypted once')
    ctx.prove_streq(I.getattr(s, 'session_material'), enc.done[i][1], 'the material is the encrypted key')
    r = key_of_material(ctx, I, enc.done[i][0])
    if r is None:
      return
    kb, hb = r
    ctx.prove(z3.Or(*[tz(slen(kb)) == x for x in (16, 24, 32)]), 'an AES key')
    ctx.prove(tz(slen(hb)) == 32, 'a 256-bit MAC key')
    rest = from_random(ctx, kb, ps)
    if rest is None:
      return ctx.fail('the key is fresh from the random source', repr(kb))
    if from_random(ctx, hb, rest) is None:
      return ctx.fail('the MAC key is fresh from the random source', repr(hb))
    ctx.ok('fresh')


@SPECS.spec(['keyczar.SessionEncrypter.Encrypt', 'keyczar.SessionDecrypter.__init__', 'keyczar.SessionDecrypter.Decrypt',
             'keyczar._Session.LoadPackedKey', 'keyczar._Session.crypter', 'readers.StaticKeyReader.GetKey',
             'readers.StaticKeyReader.GetMetadata', 'util.Memoize', 'util.UnpackMultipleByteArrays'], deadline=120)
def session_round_trip(ctx):
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  enc = EncN(I)
  s = I.call(I.get('keyczar.SessionEncrypter'), [enc])
  m = symstr(ctx, 'm')
  extra, coded = coder(ctx)
  r = key_of_material(ctx, I, enc.done[0][0])
  if r is None:
    return
  kb, hb = r
  n0 = len(random_pieces(ctx))
  c = call(I, s, 'Encrypt', m, *extra)
  iv = cat(ctx, '', *fresh_pieces(ctx, I, n0))
  ctx.prove(tz(slen(iv)) == 16, 'fresh IV')
  head = cat(ctx, aes_header(I, kb, hb), iv, cbc(I, kb, iv, pkcs5(ctx, m), 1))
  raw = cat(ctx, head, hmac_sha1(I, hb, head))
  ctx.prove_streq(c, b64(I, raw) if coded else raw, 'encrypted under the session key')
  d = I.call(I.get('keyczar.SessionDecrypter'), [enc, I.getattr(s, 'session_material')])
  o = outcome(I, lambda: call(I, d, 'Decrypt', c, *extra))
  if o[0] == 'raise':
    return ctx.fail('decrypts', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], m, 'exactly the data')


@SPECS.spec(['keyczar.SessionDecrypter.__init__', 'keyczar._Session.LoadPackedKey', 'keyczar.SessionDecrypter.Decrypt'],
            deadline=120)
def any_packed_material(ctx):
  """Arbitrary decrypted material: accepted only if it is exactly two length-prefixed arrays
  after the count word, and the session key is made of these."""
  I = interp(ctx, 'util.UnpackMultipleByteArrays', *HM)
  d = symstr(ctx, 'd')
  o = outcome(I, lambda: I.call(I.get('keyczar.SessionDecrypter'), [EncN(I, d), symstr(ctx, 'material')]))
  if o[0] == 'raise':
    return ctx.ok('refused')
  u = I.state.get('unpacked', [])
  need(len(u) == 1 and ctx.quick_same(u[0][0], d), 'util.UnpackMultipleByteArrays')
  _, F, n = u[0]
  ctx.prove(n == 2, 'exactly two arrays')
  kb, hb = F.array(0), F.array(1)
  seen = []

  def dec(I, f, a, k):
    seen.append(a[0])
    ctx.prove_streq(I.getattr(a[0], 'key_bytes'), kb, 'the first array is the AES key')
    ctx.prove_streq(I.getattr(I.getattr(a[0], 'hmac_key'), 'key_bytes'), hb, 'the second is the MAC key')
    return 'plain'
  I.contracts['keys.AesKey.Decrypt'] = dec
  o = outcome(I, lambda: call(I, o[1], 'Decrypt', cat(ctx, aes_header(I, kb, hb), symstr(ctx, 'c', 100)), None))
  if o[0] == 'raise':
    # an AES key of an impossible length
    ctx.ok('refused')
    return
  need(len(seen) == 1, 'keys.AesKey.Decrypt')


@SPECS.spec(['keyczar.SessionDecrypter.__init__', 'keyczar.SignedSessionDecrypter.__init__'])
def undecryptable_material(ctx):
  I = interp(ctx, *HM)
  signed = ctx.choose(2)
  e = EncN(I)
  a = [e, SigN(I), symstr(ctx, 'x')] if signed else [e, symstr(ctx, 'x')]
  o = outcome(I, lambda: I.call(I.get('keyczar.' + ('SignedSessionDecrypter' if signed else 'SessionDecrypter')), a))
  ctx.prove(o[0] == 'raise', 'refused')


@SPECS.spec(['keyczar.SignedSessionEncrypter.__init__', 'keyczar._Session.New', 'keyczar._Session.json',
             'keyczar.SignedSessionEncrypter.session_material'])
def fresh_signed_session(ctx):
  I = interp(ctx, *HM)
  enc, sg = EncN(I), SigN(I)
  for i in range(2):
    n0 = len(random_pieces(ctx))
    s = I.call(I.get('keyczar.SignedSessionEncrypter'), [enc, sg])
    ps = fresh_pieces(ctx, I, n0)
    ctx.prove(len(enc.done) == i + 1, 'the session is encrypted once')
    ctx.prove_streq(I.getattr(s, 'session_material'), enc.done[i][1], 'the material is the encrypted session')
    if signed_parts(ctx, I, enc.done[i][0], ps) is None:
      return


def signed_parts(ctx, I, j, ps=None):
  """Specification of the JSON of a signed session -> (key, MAC key, nonce)."""
  t = jdict(ctx, I, j)
  out = []
  d = {k: v for k, v in t.entries}
  if sorted(d) != ['key', 'nonce']:
    ctx.fail('JSON with key and nonce', repr(sorted(d)))
    return None
  k = {a: v for a, v in d['key'].entries}
  h = {a: v for a, v in k['hmacKey'].entries}
  dec = lambda x: I.call(I.get('util.Base64WSDecode'), [x])
  kb, hb, n = dec(k['aesKeyString']), dec(h['hmacKeyString']), dec(d['nonce'])
  prove_tree(ctx, I, t, dict(nonce=b64(I, n), key=dict(
      mode='CBC', size=mkint(tmul(slen(kb), 8)), aesKeyString=b64(I, kb),
      hmacKey=dict(size=256, hmacKeyString=b64(I, hb)))), 'session JSON')
  ctx.prove(tz(slen(n)) == 16, '16-byte nonce')
  if ps is not None:
    rest = ps
    for what, x in (('key', kb), ('MAC key', hb), ('nonce', n)):
      rest = from_random(ctx, x, rest)
      if rest is None:
        ctx.fail('the %s is fresh from the random source' % what, repr(x))
        return None
    ctx.ok('fresh')
  return kb, hb, n


@SPECS.spec(['keyczar.SignedSessionEncrypter.Encrypt', 'keyczar.SignedSessionDecrypter.__init__',
             'keyczar.SignedSessionDecrypter.Decrypt', 'keyczar._Session.LoadJsonSession', 'keyczar._Session.nonce',
             'keys.AesKey.Read'], deadline=120)
def signed_round_trip(ctx):
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  enc, sg = EncN(I), SigN(I)
  s = I.call(I.get('keyczar.SignedSessionEncrypter'), [enc, sg])
  m = symstr(ctx, 'm')
  r = signed_parts(ctx, I, enc.done[0][0])
  if r is None:
    return
  kb, hb, nonce = r
  n0 = len(random_pieces(ctx))
  b = call(I, s, 'Encrypt', m)
  iv = cat(ctx, '', *fresh_pieces(ctx, I, n0))
  ctx.prove(len(sg.signed) == 1, 'signed once')
  ctx.prove_streq(b, sg.signed[0][2], 'the attached signature is returned')
  head = cat(ctx, aes_header(I, kb, hb), iv, cbc(I, kb, iv, pkcs5(ctx, m), 1))
  ctx.prove_streq(sg.signed[0][0], cat(ctx, head, hmac_sha1(I, hb, head)), 'the ciphertext is signed')
  ctx.prove_streq(sg.signed[0][1], nonce, "with the session's nonce")
  d = I.call(I.get('keyczar.SignedSessionDecrypter'), [enc, sg, I.getattr(s, 'session_material')])
  o = outcome(I, lambda: call(I, d, 'Decrypt', b))
  if o[0] == 'raise':
    return ctx.fail('decrypts', clsname(o[1].exc.cls))
  if strkind(o[1]) != 'str':
    return ctx.fail('decrypts', repr(o[1]))
  ctx.prove_streq(o[1], m, 'exactly the data')


def session_json(ctx, I):
  kb, hb, n = symstr(ctx, 'kb', 16), symstr(ctx, 'hb', 32), symstr(ctx, 'nonce')
  return kb, hb, n, dict(nonce=b64(I, n), key=dict(
      mode='CBC', size=128, aesKeyString=b64(I, kb), hmacKey=dict(size=256, hmacKeyString=b64(I, hb))))


@SPECS.spec(['keyczar.SignedSessionDecrypter.Decrypt'], deadline=120)
def signed_releases_only_verified(ctx):
  """Whatever blob and whatever the verifier says: plaintext only from data that the verifier
  returned for this very blob and the session's nonce, decrypted under the session key."""
  I = interp(ctx, *HM)
  kb, hb, n, t = session_json(ctx, I)
  sg = SigN(I)
  given = []

  def verdict(I, blob, nonce):
    r = ctx.choose(3)
    if r == 0:
      given.append(None)
      return None
    if r == 1:
      given.append('raise')
      raise PyRaise(I.exc(I.get('errors.KeyNotFoundError'), 'x'))
    given.append(symstr(ctx, 'signed'))
    return given[-1]
  sg.any = verdict
  d = I.call(I.get('keyczar.SignedSessionDecrypter'), [
      EncN(I, lib.json_dumps(I, lib.topv(I, t))), sg, symstr(ctx, 'material')])
  seen = []

  def dec(I, f, a, k):
    seen.append(a)
    if ctx.choose(2):
      raise PyRaise(I.exc(I.get('errors.InvalidSignatureError')))
    return 'plain'
  I.contracts['keys.AesKey.Decrypt'] = dec
  blob = symstr(ctx, 'blob')
  o = outcome(I, lambda: call(I, d, 'Decrypt', blob))
  ctx.prove(len(sg.asked) == 1, 'the verifier is asked once')
  ctx.prove_streq(sg.asked[0][0], blob, 'about the blob')
  if strkind(sg.asked[0][1]) != 'str':
    return ctx.fail("with the session's nonce", repr(sg.asked[0][1]))
  ctx.prove_streq(sg.asked[0][1], n, "with the session's nonce")
  if given[0] is None or given[0] == 'raise':
    ctx.prove(o[0] == 'raise' or o[1] is None, 'no plaintext without a verified signature')
    return ctx.prove(not seen, 'nothing is decrypted')
  if o[0] == 'raise' or o[1] is None:
    return ctx.ok('refused')
  ctx.prove(len(seen) == 1, 'the plaintext comes from the session key')
  ctx.prove_streq(o[1], 'plain', 'and is exactly its plaintext')
  ctx.prove_streq(I.getattr(seen[0][0], 'key_bytes'), kb, 'the session key')
  ctx.prove_streq(I.getattr(I.getattr(seen[0][0], 'hmac_key'), 'key_bytes'), hb, 'its MAC key')
  ctx.prove_streq(seen[0][1], given[0], 'exactly the verified ciphertext')


@SPECS.spec(['keyczar._Session.LoadJsonSession'])
def bad_json_material(ctx):
  """Without key or nonce, or not an object, or not JSON."""
  I = interp(ctx, *HM)
  kb, hb, n, t = session_json(ctx, I)
  case = ctx.choose(7)
  if case == 0:
    del t['key']
  elif case == 1:
    del t['nonce']
  elif case == 2:
    del t['key']['aesKeyString']
  elif case == 3:
    del t['key']['hmacKey']
  elif case == 4:
    t = [t['key'], t['nonce']]
  elif case == 5:
    t = t['nonce']
  text_ = lib.json_dumps(I, lib.topv(I, t)) if case < 6 else '{'
  o = outcome(I, lambda: I.call(I.get('keyczar.SignedSessionDecrypter'), [
      EncN(I, text_), SigN(I), symstr(ctx, 'material')]))
  ctx.prove(o[0] == 'raise', 'refused')


@SPECS.spec(['keyczar._Session.crypter', 'util.Memoize'], deadline=120)
def sessions_do_not_mix(ctx):
  """Two sessions in one process: each encrypts under its own key, in any order."""
  I = interp(ctx, *HM)
  crypt_lib(ctx, I, 0)
  enc = EncN(I)
  cls = ('SessionEncrypter', 'SignedSessionEncrypter')[ctx.choose(2)]
  sg = SigN(I)
  ss = [I.call(I.get('keyczar.' + cls), [enc] + ([sg] if cls[1] == 'i' else [])) for _ in range(2)]
  ks = []
  for d, _ in enc.done:
    r = signed_parts(ctx, I, d) if cls[1] == 'i' else key_of_material(ctx, I, d)
    if r is None:
      return
    ks.append(r)
  # fresh random strings differ (equal ones would do no harm)
  for x, y in zip(*ks):
    ctx.assume_strne(x, y)
    ctx.assume_strne(b64(I, x), b64(I, y))
  seen = []

  def encrypt(I, f, a, k):
    seen.append(a[0])
    return cat(ctx, call(I, a[0], 'Header'), 'c')
  I.contracts['keys.AesKey.Encrypt'] = encrypt
  for i in ([0, 1, 0], [1, 0])[ctx.choose(2)]:
    call(I, ss[i], 'Encrypt', symstr(ctx, 'm'))
    need(len(seen) >= 1, 'keys.AesKey.Encrypt')
    k = seen.pop()
    ctx.prove_streq(I.getattr(k, 'key_bytes'), ks[i][0], 'its own key')
    ctx.prove_streq(I.getattr(I.getattr(k, 'hmac_key'), 'key_bytes'), ks[i][1], 'its own MAC key')
    if cls[1] == 'i':
      ctx.prove_streq(sg.signed[-1][1], ks[i][2], 'its own nonce')
