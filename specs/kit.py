"""Shared specification vocabulary: symbolic keys, spec-level functions."""
from pyvc.spec import *
from pyvc import lib
from pyvc.core import bitlen_f


def hmac_sha1(I, kb, msg):
  """Specification HMAC-SHA1 (str -> str)."""
  return b2s(I, lib.digest(I, s2b(kb), s2b(msg)))


def sha1(I, msg):
  return b2s(I, lib.digest(I, None, s2b(msg)))


def b64(I, x):
  """Specification of unpadded web-safe Base64."""
  return b2s(I, lib.b64core(I, s2b(x)))


def call(I, obj, name, *args, **kw):
  return I.call(I.getattr(obj, name), list(args), kw)


def hmackey(ctx, I, name='hb', length=None):
  """An arbitrary HMAC key: (object, key bytes)."""
  kb = symstr(ctx, name, length)
  size = 256 if length == 32 else mkint(tmul(slen(kb), 8))
  return I.call(I.get('keys.HmacKey'), [b64(I, kb), size]), kb


def aeskey(ctx, I, name='k', sizes=(16, 24, 32)):
  """An arbitrary AES key with an arbitrary HMAC key: (object, key, MAC key)."""
  kb = symstr(ctx, name + 'b')
  ctx.assume(z3.Or(*[tz(slen(kb)) == q for q in sizes]))
  hk, hb = hmackey(ctx, I, name + 'h')
  k = I.call(I.get('keys.AesKey'), [b64(I, kb), hk, mkint(tmul(slen(kb), 8))])
  return k, kb, hb


def outcome(I, fn):
  """('value', v) or ('raise', PyRaise)."""
  try:
    return 'value', fn()
  except PyRaise as e:
    return 'raise', e


def expect(ctx, I, o, exc, label):
  """The outcome must be an exception of class exc."""
  if o[0] == 'raise':
    if isexc(I, o[1], exc):
      ctx.ok(label)
    else:
      ctx.fail(label, 'raises %s instead of %s' % (clsname(o[1].exc.cls), exc))
  else:
    ctx.fail(label, 'not refused, returns %r' % (o[1],))


def snapshot(ctx, I, v, seen=None):
  """Deep structural view of a value (aliasing is recorded by visit order)."""
  seen = {} if seen is None else seen
  if isinstance(v, (Obj, Native, PList, PDict)):
    if id(v) in seen:
      return ('ref', seen[id(v)])
    seen[id(v)] = len(seen)
    if isinstance(v, PList):
      if v.sym is not None:
        raise Unsupported('snapshot of a symbolic list')
      return ('list',) + tuple(snapshot(ctx, I, x, seen) for x in v.items)
    if isinstance(v, PDict):
      return ('dict',) + tuple((snapshot(ctx, I, k, seen), snapshot(ctx, I, x, seen))
                               for k, x in v.entries)
    if isinstance(v, Obj):
      tag = clsname(v.cls)
    else:
      tag = type(v).__name__
    extra = ()
    if hasattr(v, 'snap'):
      extra = tuple(snapshot(ctx, I, x, seen) for x in v.snap())
    return ('obj', tag, extra) + tuple(
        (k, snapshot(ctx, I, v.fields[k], seen)) for k in sorted(v.fields))
  if isinstance(v, tuple):
    return ('tuple',) + tuple(snapshot(ctx, I, x, seen) for x in v)
  return v


def same_state(ctx, a, b, label):
  """Proves two snapshots equal; a difference is 'undecided' (the induction argument
  does not go through for this representation), never a violation by itself."""
  def rec(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
      if len(x) != len(y):
        return False
      return all(rec(p, q) for p, q in zip(x, y))
    if strkind(x) or strkind(y):
      return bool(strkind(x)) and strkind(x) == strkind(y) and ctx.str_eq_valid(x, y)
    num = lambda q: isinstance(q, (int, SInt)) and not isinstance(q, bool)
    if num(x) and num(y):
      return ctx.teq(iterm(x), iterm(y))
    if isinstance(x, SBool) or isinstance(y, SBool):
      p = x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))
      q = y.t if isinstance(y, SBool) else z3.BoolVal(bool(y))
      return ctx.entails(p == q)
    return x is y or (type(x) is type(y) and not isinstance(x, Ref) and x == y)
  if rec(a, b):
    ctx.ok(label, 'z3')
  else:
    raise Unsupported('induction: %s' % label)


class Sink(Native):
  """A file-like object open for writing."""
  tname = 'sink'

  def __init__(self, I):
    Native.__init__(self, I)
    self.fields['data'] = ''
    self.fields['closed'] = False
    self.flushes = 0

  def m_write(self, I, s):
    if self.fields['closed']:
      I.throw(ValueError, 'I/O operation on closed file')
    if strkind(s) != 'str':
      I.throw(TypeError, 'a str is required')
    I.setfield(self, 'data', I.ctx.concat(self.fields['data'], s))
    return mkint(slen(s))

  def m_flush(self, I):
    if self.fields['closed']:
      I.throw(ValueError, 'I/O operation on closed file')
    self.flushes += 1

  def m_close(self, I):
    I.setfield(self, 'closed', True)


# ------------------------------------------------------------ asymmetric keys
RSA_SIZES = (1024, 2048, 4096, 768, 512)


def pad1(I, n):
  """A number as stored in key parameters: a zero byte and its minimal bytes."""
  from specs.contracts import bytesof
  return I.ctx.concat('\0', bytesof(I, n))


def sdict(ctx, **k):
  return PDict(list(k.items()), ctx.newserial())


def rsakey(ctx, I, size=None):
  """An arbitrary RSA private key object of the given size (library key: key.key)."""
  if size is None:
    size = RSA_SIZES[ctx.choose(len(RSA_SIZES))]
  key = lib.rsa_fresh(I, size)
  f = key.fields
  x = {k: SInt(ctx.fresh('rsa_' + k)) for k in ('dp', 'dq')}
  for v in x.values():
    ctx.add(v.t >= 0)
  pub = I.call(I.get('keys.RsaPublicKey'), [sdict(
      ctx, modulus=pad1(I, f['n']), publicExponent=pad1(I, f['e'])), key.m_publickey(I), size])
  priv = I.call(I.get('keys.RsaPrivateKey'), [sdict(
      ctx, privateExponent=pad1(I, f['d']), primeP=pad1(I, f['q']), primeQ=pad1(I, f['p']),
      primeExponentP=pad1(I, x['dp']), primeExponentQ=pad1(I, x['dq']),
      crtCoefficient=pad1(I, f['u'])), pub, key, size])
  return priv, pub, key, size


def dsakey(ctx, I):
  key = lib.dsa_fresh(I)
  f = key.fields
  pub = I.call(I.get('keys.DsaPublicKey'), [sdict(
      ctx, g=pad1(I, f['g']), p=pad1(I, f['p']), q=pad1(I, f['q']), y=pad1(I, f['y'])),
      key.m_publickey(I), 1024])
  priv = I.call(I.get('keys.DsaPrivateKey'), [sdict(ctx, x=pad1(I, f['x'])), pub, key, 1024])
  return priv, pub, key


DIGEST_INFO = ''.join(map(chr, [0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a,
                                0x05, 0x00, 0x04, 0x14]))


def emsa(I, m, k):
  """EMSA-PKCS1-v1_5 with SHA-1 for a modulus of k bytes, without the leading zero byte."""
  ff = k - 1 - 2 - len(DIGEST_INFO) - 20
  return cat(I.ctx, '\x01' + '\xff' * ff + '\0' + DIGEST_INFO, sha1(I, m))


def der(I, frozen):
  """Specification: the DER encoding of an ASN.1 tree ('A','seq',...)/('A','int',n)/..."""
  ctx = I.ctx
  def mk():
    n = ctx.fresh('derlen')
    ctx.add(n >= 2)
    return n
  return b2s(I, ctx.sapp('der', (frozen,), mk, 'bytes'))


def der_rs(I, r, s):
  return der(I, ('A', 'seq', ('A', 'int', r), ('A', 'int', s)))


# ------------------------------------------------------------ JSON
def jdict(ctx, I, text):
  """The parsed JSON text (an interpreter value)."""
  return lib.json_loads(I, text)


def prove_tree(ctx, I, got, want, label):
  """got: interpreter value; want: python dict/list/str/int/bool/None or symbolic leaf.
  Dictionaries are compared without order."""
  if isinstance(want, dict):
    if not isinstance(got, PDict):
      return ctx.fail(label, 'not an object: %r' % (got,))
    ks = [k for k, _ in got.entries]
    if any(not isinstance(k, str) for k in ks) or sorted(ks) != sorted(want):
      return ctx.fail(label, 'fields %r instead of %r' % (ks, sorted(want)))
    for k, v in got.entries:
      prove_tree(ctx, I, v, want[k], '%s.%s' % (label, k))
  elif isinstance(want, list):
    if not isinstance(got, PList) or got.sym is not None or len(got.items) != len(want):
      return ctx.fail(label, 'not a list of %d: %r' % (len(want), got))
    for i, (a, b) in enumerate(zip(got.items, want)):
      prove_tree(ctx, I, a, b, '%s[%d]' % (label, i))
  else:
    ctx.prove_eq(got, want, label)


def allkeys(ctx, I, kinds=('AES', 'HMAC_SHA1', 'RSA_PRIV', 'RSA_PUB', 'DSA_PRIV', 'DSA_PUB')):
  """An arbitrary key of an arbitrary type: (type name, object, details)."""
  kind = kinds[ctx.choose(len(kinds))]
  if kind == 'AES':
    k, kb, hb = aeskey(ctx, I)
    return kind, k, dict(kb=kb, hb=hb)
  if kind == 'HMAC_SHA1':
    k, kb = hmackey(ctx, I)
    return kind, k, dict(kb=kb)
  if kind.startswith('RSA'):
    priv, pub, key, size = rsakey(ctx, I)
    return kind, (priv if kind == 'RSA_PRIV' else pub), dict(priv=priv, pub=pub, key=key, size=size)
  priv, pub, key = dsakey(ctx, I)
  return kind, (priv if kind == 'DSA_PRIV' else pub), dict(priv=priv, pub=pub, key=key, size=1024)


def trimmed(I, n):
  """Trimmed bytes of a number >= 0: minimal, one zero byte for zero."""
  from specs.contracts import bytesof
  return bytesof(I, n)


def idhash(ctx, I, kind, d):
  """Specification: the SHA-1 the key format prescribes."""
  if kind == 'AES':
    return sha1(I, cat(ctx, be32(ctx, mkint(slen(d['kb']))), d['kb'], d['hb']))
  if kind == 'HMAC_SHA1':
    return sha1(I, d['kb'])
  f = d['key'].fields
  names = ('n', 'e') if kind.startswith('RSA') else ('p', 'q', 'g', 'y')
  parts = []
  for x in names:
    b = trimmed(I, f[x])
    parts += [be32(ctx, mkint(slen(b))), b]
  return sha1(I, cat(ctx, *parts))


def text(I, v):
  """str(v)"""
  from pyvc import models
  return models.to_str(I, v)
