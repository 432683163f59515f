"""Contracts on functions of /repo that callers' proofs rely on.

apply: what a caller may use.  verify: the body meets it, for all inputs."""
from specs.kit import *
from pyvc import lib, models
from pyvc.core import bitlen_f, pow256_f


# ------------------------------------------------------------ Base64WSEncode
def a_b64(I, f, a, k):
  if len(a) != 1 or k or strkind(a[0]) != 'str':
    return NotImplemented
  return b64(I, a[0])


def v_b64(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  ctx.prove_streq(I.call_body(I.get('util.Base64WSEncode'), [x]), b64(I, x),
                  'unpadded web-safe Base64')


Contract('util.Base64WSEncode', a_b64, v_b64)


# ------------------------------------------------------------ IntToBytes
def a_i2b(I, f, a, k):
  if len(a) != 1 or k or not isinstance(a[0], (int, SInt)) or isinstance(a[0], bool):
    return NotImplemented
  return be32(I.ctx, a[0])


def v_i2b(ctx):
  I = interp(ctx)
  n = symint(ctx, 'n')
  ctx.prove_streq(I.call_body(I.get('util.IntToBytes'), [n]), be32(ctx, n), 'big-endian 4 bytes')


Contract('util.IntToBytes', a_i2b, v_i2b)


# ------------------------------------------------------------ Hash
def a_hash(I, f, a, k):
  if k or not all(strkind(x) == 'str' for x in a):
    return NotImplemented
  return sha1(I, cat(I.ctx, '', *a))


def v_hash(ctx):
  I = interp(ctx)
  xs = [symstr(ctx, 'x%d' % i) for i in range(ctx.choose(5))]
  ctx.prove_streq(I.call_body(I.get('util.Hash'), xs), sha1(I, cat(ctx, '', *xs)),
                  'SHA-1 of the concatenation')


Contract('util.Hash', a_hash, v_hash)


# ------------------------------------------------------------ HMAC
def keybytes(I, k):
  return I.getattr(k, 'key_bytes')


def a_hsign(I, f, a, k):
  if len(a) != 2 or k or strkind(a[1]) != 'str':
    return NotImplemented
  return hmac_sha1(I, keybytes(I, a[0]), a[1])


def v_hsign(ctx):
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  m = symstr(ctx, 'm')
  ctx.prove_streq(I.call_body(I.get('keys.HmacKey.Sign'), [k, m]), hmac_sha1(I, kb, m),
                  'HMAC-SHA1')


Contract('keys.HmacKey.Sign', a_hsign, v_hsign)


def a_hcmp(I, f, a, k):
  if len(a) != 3 or k or strkind(a[1]) != 'str' or strkind(a[2]) != 'str':
    return NotImplemented
  if isz(slen(a[1])) or slen(a[1]) != 20:
    return NotImplemented
  return I.ctx.decide_streq(a[1], a[2])


def bool_is_eq(ctx, r, a, b):
  """r (concrete on this path or symbolic) says whether a == b, with |a| = 20."""
  eq = z3.And(tz(slen(a)) == tz(slen(b)),
              *[tz(ctx.at(a, i)) == tz(ctx.at(b, i)) for i in range(20)])
  if isinstance(r, SBool):
    ctx.prove(r.t == eq, 'True iff equal')
  elif r is True:
    ctx.prove(eq, 'True only if equal')
  elif r is False:
    ctx.prove(z3.Not(eq), 'False only if different')
  else:
    ctx.fail('the answer is a boolean', repr(r))


def v_hcmp(ctx):
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  a, b = symstr(ctx, 'a', 20), symstr(ctx, 'b')
  if ctx.decide(tz(slen(b)) == 20):
    b = symstr(ctx, 'b', 20)
  else:
    r = I.call_body(I.get('keys.HmacKey.VerifySignedData'), [k, a, b])
    ctx.prove(z3.Not(r.t) if isinstance(r, SBool) else r is False, 'other length: False')
    return
  r = I.call_body(I.get('keys.HmacKey.VerifySignedData'), [k, a, b])
  bool_is_eq(ctx, r, a, b)


Contract('keys.HmacKey.VerifySignedData', a_hcmp, v_hcmp)


def a_hver(I, f, a, k):
  if len(a) != 3 or k or strkind(a[1]) != 'str' or strkind(a[2]) != 'str':
    return NotImplemented
  return I.ctx.decide_streq(hmac_sha1(I, keybytes(I, a[0]), a[1]), a[2])


def v_hver(ctx):
  I = interp(ctx, 'keys.HmacKey.Sign', 'keys.HmacKey.VerifySignedData')
  k, kb = hmackey(ctx, I)
  m, sig = symstr(ctx, 'm'), symstr(ctx, 'sig')
  want = hmac_sha1(I, kb, m)
  if ctx.decide(tz(slen(sig)) == 20):
    sig = symstr(ctx, 'sig', 20)
  else:
    r = I.call_body(I.get('keys.HmacKey.Verify'), [k, m, sig])
    ctx.prove(z3.Not(r.t) if isinstance(r, SBool) else r is False, 'other length: False')
    return
  r = I.call_body(I.get('keys.HmacKey.Verify'), [k, m, sig])
  bool_is_eq(ctx, r, want, sig)


Contract('keys.HmacKey.Verify', a_hver, v_hver)


# ------------------------------------------------------------ numbers
def vfun(ctx, x):
  """V(k): big-endian value of the first k bytes of x.  V(0)=0, V(k)=256V(k-1)+x[k-1]."""
  known = ctx.__dict__.setdefault('vfuns', [])
  for y, V in known:
    if ctx.str_eq_valid(mkstr('str', rope(y).segs), mkstr('str', rope(x).segs)):
      return V
  ctx.n += 1
  V = z3.Function('V!%d' % ctx.n, z3.IntSort(), z3.IntSort())

  def hook(c, t, walked):
    k = t.arg(0)
    k1 = z3.simplify(k - 1)
    p = V(k1)
    facts = []
    xb = c.at_t(x, k1, facts) if rope(x).segs else z3.IntVal(0)
    return [z3.Implies(k == 0, t == 0), z3.Implies(k >= 0, t >= 0)] + facts + [
        z3.Implies(k >= 1, t == 256 * p + tz(xb))]
  ctx.lemma_hooks[V.name()] = hook
  known.append((x, V))
  return V


def shrfun(ctx, n):
  """R(k) = n div 256^k.  R(0)=n, R(k)=R(k-1) div 256."""
  known = ctx.__dict__.setdefault('shrfuns', [])
  for m, R in known:
    if ctx.teq(iterm(m), iterm(n)):
      return R
  ctx.n += 1
  R = z3.Function('R!%d' % ctx.n, z3.IntSort(), z3.IntSort())
  nt = tz(iterm(n))

  def hook(c, t, walked):
    k = t.arg(0)
    p = R(z3.simplify(k - 1))
    return [z3.Implies(k == 0, t == nt), z3.Implies(z3.And(k >= 0, nt >= 0), t >= 0),
            z3.Implies(k >= 1, t == p / 256), z3.Implies(z3.And(k >= 1, nt >= 0), p >= t)]
  ctx.lemma_hooks[R.name()] = hook
  known.append((n, R))
  return R


models.VALUE_OF, models.DIGITS_OF = vfun, shrfun


def sum_by_induction(ctx, I, inv, label):
  """For every sum over a symbolic sequence: proves P(k)==inv(k) for 0<=k<=n."""
  for rec in I.state.get('sums', []):
    P, n = rec.P, tz(rec.n)
    k = ctx.fresh('ik')
    good = ctx._check(P(z3.IntVal(0)) != inv(z3.IntVal(0)))[0] == 'unsat'
    ctx.push()
    ctx.add(z3.And(k >= 0, k < n, P(k) == inv(k), P(k + 1) == P(k) + tz(rec.elem(k))))
    good = good and ctx._check(P(k + 1) != inv(z3.simplify(k + 1)))[0] == 'unsat'
    ctx.pop()
    if good:
      ctx.ok(label + ': base and step', 'z3')
      ctx.add(P(n) == inv(n))
    else:
      raise Unsupported('induction over the sum')


def run_b2l(ctx, I, x):
  """BytesToLong(x) together with V of x."""
  V = vfun(ctx, x)
  l = tz(slen(x))
  I.loopspec = loopinv(defs=[('value so far', 'int', lambda env, loc: SInt(V(tz(env.k))))])
  r = I.call_body(I.get('util.BytesToLong'), [x])
  sum_by_induction(ctx, I, lambda k: V(k) * pow256_f(z3.simplify(l - k)), 'value')
  return r, V, l


def v_b2l(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  r, V, l = run_b2l(ctx, I, x)
  ctx.prove(tz(iterm(r)) == V(l), 'big-endian value')


def strip_zeros(ctx, x):
  """x without a known run of leading zero bytes."""
  segs = list(rope(x).segs)
  while segs:
    s = segs[0]
    if isinstance(s, Lit):
      cs = list(s.codes)
      while cs and cs[0] == 0:
        cs.pop(0)
      segs[0] = Lit(cs)
      if cs:
        break
      segs.pop(0)
    elif isinstance(s, Rep) and (s.code == 0 or (isz(s.code) and ctx.entails(s.code == 0))):
      segs.pop(0)
    else:
      break
  return mkstr(strkind(x), segs)


def bnum(I, x):
  """Specification: the big-endian value of x (leading zeros do not matter)."""
  ctx = I.ctx
  x = strip_zeros(ctx, x)
  if not isinstance(x, S):
    return int.from_bytes(codes_of(x), 'big')
  a = lib.find_app(I, 'bytesof', x)
  if a is not None:
    return a[0]
  v = ctx.iapp('bnum', (x,))
  ctx.add(tz(iterm(v)) >= 0)
  return v


def a_b2l(I, f, a, k):
  if len(a) != 1 or k or strkind(a[0]) != 'str':
    return NotImplemented
  return bnum(I, a[0])


Contract('util.BytesToLong', a_b2l, v_b2l)


def nbytes(n):
  return simp((bitlen_f(tz(n)) + 7) / 8)


def bytesof(I, n):
  """Specification: the minimal big-endian bytes of n >= 0."""
  ctx = I.ctx
  t = iterm(n)
  if not isz(t):
    return concrete_of('str', list(t.to_bytes((t.bit_length() + 7) // 8, 'big')))
  r = ctx.sapp('bytesof', (mkint(t),), nbytes(t), 'str')
  if isinstance(r, S):
    b = r.segs[0].base
    ctx.add(z3.Implies(tz(b.length) > 0, b.fn(z3.IntVal(0)) != 0))
    ctx.add((tz(b.length) == 0) == (t == 0))
  return r


def a_bib(I, f, a, k):
  if len(a) != 1 or k or not isinstance(a[0], (int, SInt)) or isinstance(a[0], bool):
    return NotImplemented
  if not I.ctx.entails(tz(iterm(a[0])) >= 0):
    return NotImplemented
  return bytesof(I, a[0])


def v_bib(ctx):
  """Minimal big-endian bytes whose value is n."""
  I = interp(ctx)
  n = symint(ctx, 'n', 0)
  R = shrfun(ctx, n)
  I.loopspec = loopinv(
      defs=[('rest', 'int', lambda env, loc: SInt(R(tz(env.k)))),
            ('digits', 'list', lambda env, loc: GList(tz(env.k), lambda i: mkstr(
                'str', [Rep(simp(R(tz(i)) % 256), 1)]))),
            ('digits put in front', 'str', lambda env, loc: mkstr('str', [Gen(
                tz(env.k), lambda i, facts: simp(R(simp(tz(env.k) - 1 - tz(i))) % 256))]))],
      gpreds=[('every digit was needed', lambda env: z3.Or(
          tz(env.k) == 0, R(z3.simplify(tz(env.k) - 1)) > 0))])
  r = I.call_body(I.get('util.BigIntToBytes'), [n])
  L = tz(slen(r))
  V = vfun(ctx, r)
  # V(j) == R(L - j) by induction on j
  ctx.prove(R(L) == 0, 'no digit is missing')
  ctx.prove(z3.Or(L == 0, R(z3.simplify(L - 1)) > 0), 'minimal length')
  j = ctx.fresh('j')
  ctx.push()
  ctx.add(z3.And(j >= 0, j < L, V(j) == R(z3.simplify(L - j))))
  ctx.prove(V(z3.simplify(j + 1)) == R(z3.simplify(L - j - 1)), 'induction step: V(j+1) == n div 256^(L-j-1)')
  ctx.pop()
  ctx.prove(V(z3.IntVal(0)) == R(L), 'induction base')


Contract('util.BigIntToBytes', a_bib, v_bib)


# ------------------------------------------------------------ MGF1
def mgf(I, seed, n):
  """Specification: the first n bytes of the MGF1-SHA1 stream of seed."""
  ctx = I.ctx
  b = ctx.app('mgf1', (seed,), lambda: ctx.newbase('mgf1', ctx.fresh('mgfmax'), origin=('mgf1', (seed,))))
  ctx.add(tz(b.length) >= tz(n))
  return mkstr('str', [BS(b, 0, n)])


def a_mgf(I, f, a, k):
  if len(a) != 2 or k or strkind(a[0]) != 'str' or not isinstance(a[1], (int, SInt)):
    return NotImplemented
  n = iterm(a[1])
  if not I.ctx.entails(z3.And(tz(n) >= 0, tz(n) <= 20 * 2**32)):
    return NotImplemented
  return mgf(I, a[0], n)


def v_mgf(ctx):
  I = interp(ctx, 'util.IntToBytes', 'util.Hash')
  seed = symstr(ctx, 'seed')
  n = symint(ctx, 'mlen', 0, 20 * 2**32)
  G = ctx.newbase('G', ctx.fresh('glen'))
  ctx.add(tz(G.length) >= n.t + 20)

  def hook(I, data, base):
    # definition of the stream: G[20c:20c+20] = SHA-1(seed | c as 4 bytes)
    if not ctx.teq(slen(data), tadd(slen(seed), 4)):
      return
    if not ctx.str_eq_valid(ctx.slice(data, 0, mkint(slen(seed))), s2b(seed), merge=False):
      return
    c = ctx.fresh('ctr')
    ctx.add(z3.And(c >= 0, c < 2**32))
    for i in range(4):
      ctx.add(tz(ctx.at(data, tadd(slen(seed), i))) == (c / 256 ** (3 - i)) % 256)
    for j in range(20):
      ctx.add(base.fn(z3.IntVal(j)) == G.fn(20 * c + j))
  I.state['sha1hooks'] = [hook]
  I.loopspec = loopinv(defs=[('stream prefix', 'str', lambda env, loc: mkstr(
      'str', [BS(G, 0, simp(20 * tz(env.k)))]))])
  r = I.call_body(I.get('util.MGF'), [seed, n])
  ctx.prove_streq(r, mkstr('str', [BS(G, 0, n.t)]), 'MGF1 stream prefix of exactly that length')


Contract('util.MGF', a_mgf, v_mgf)


# ------------------------------------------------------------ Xor
def xorstr(I, a, b):
  """Specification: byte-wise xor of strings of equal length."""
  ctx = I.ctx
  if not isinstance(a, S) and not isinstance(b, S):
    return ''.join(chr(ord(p) ^ ord(q)) for p, q in zip(a, b))
  for (p, q), r in ctx.apps.get('xor', []):
    # (x ^ y) ^ y == x
    for x, y in ((a, b), (b, a)):
      if ctx.str_eq_valid(x, mkstr('str', [BS(r, 0, r.length)])):
        if ctx.str_eq_valid(y, q):
          return p
        if ctx.str_eq_valid(y, p):
          return q
  for (p, q), r in ctx.apps.get('xor', []):
    if ctx.str_eq_valid(a, q) and ctx.str_eq_valid(b, p):
      return mkstr('str', [BS(r, 0, r.length)])
  return ctx.sapp('xor', (a, b), slen(a))


def a_xor(I, f, a, k):
  if len(a) != 2 or k or strkind(a[0]) != 'str' or strkind(a[1]) != 'str':
    return NotImplemented
  if not I.ctx.teq(slen(a[0]), slen(a[1])):
    return NotImplemented
  return xorstr(I, a[0], a[1])


def v_xor(ctx):
  from pyvc.core import bxor_f
  I = interp(ctx)
  a = symstr(ctx, 'a')
  b = symstr(ctx, 'b', slen(a))
  r = I.call_body(I.get('util.Xor'), [a, b])
  ctx.prove(tz(slen(r)) == tz(slen(a)), 'length')
  i = ctx.fresh('i')
  ctx.assume(z3.And(i >= 0, i < tz(slen(a))))
  ctx.prove(tz(ctx.at(r, i)) == bxor_f(tz(ctx.at(a, i)), tz(ctx.at(b, i))), 'byte i is the xor of bytes i')


Contract('util.Xor', a_xor, v_xor)


# ------------------------------------------------------------ Base64WSDecode
def a_b64d(I, f, a, k):
  if len(a) != 1 or k or not isinstance(a[0], S) or a[0].kind != 'str':
    return NotImplemented
  v = a[0]
  if len(v.segs) == 1 and isinstance(v.segs[0], BS):
    s = v.segs[0]
    if s.base.origin and s.base.origin[0] == 'b64' and tsame(s.lo, 0) and tsame(
        s.hi, s.base.length):
      return b2s(I, s.base.origin[1][0])
  return NotImplemented


def v_b64d(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  ctx.prove_streq(I.call_body(I.get('util.Base64WSDecode'), [b64(I, x)]), x,
                  'inverts unpadded web-safe Base64')


Contract('util.Base64WSDecode', a_b64d, v_b64d)


# ------------------------------------------------------------ BytesToBin
def binstr(I, x):
  """Specification: the bits of a byte string, most significant first."""
  return I.ctx.sapp('bin', (x,), lambda: tmul(slen(x), 8), 'str', 49, frozenset({39, 10, 32}))


def a_bin(I, f, a, k):
  if len(a) != 1 or k or strkind(a[0]) != 'str':
    return NotImplemented
  return binstr(I, a[0])


def v_bin(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  r = I.call_body(I.get('util.BytesToBin'), [x])
  ctx.prove(tz(slen(r)) == 8 * tz(slen(x)), 'eight characters per byte')
  i = ctx.fresh('i')
  ctx.assume(z3.And(i >= 0, i < tz(slen(x))))
  for j in range(8):
    ctx.prove(tz(ctx.at(r, 8 * i + j)) == 48 + (tz(ctx.at(x, i)) / (1 << (7 - j))) % 2,
              'character %d of byte i is its bit' % j)


Contract('util.BytesToBin', a_bin, v_bin)


# ------------------------------------------------------------ packed byte arrays
class Frames(object):
  """The positions of the arrays packed in d (bytes 4.. of it): P(0) = 4 and
  P(t+1) = P(t) + 4 + (the signed 4-byte length at P(t))."""
  def __init__(self, ctx, d):
    self.ctx, self.d = ctx, rope(d)
    assert len(self.d.segs) == 1
    g = self.d.segs[0]
    self.base, self.lo, self.L = g.base, tz(g.lo), tz(slen(d))
    ctx.n += 1
    self.P = z3.Function('frame!%d' % ctx.n, z3.IntSort(), z3.IntSort())
    ctx.add(self.P(z3.IntVal(0)) == 4)

  def length(self, t):
    p = self.P(simp(tz(t)))
    cs = [self.base.fn(simp(self.lo + p + i)) for i in range(4)]
    for c in cs:
      self.ctx.add(z3.And(c >= 0, c <= 255))
    v = sum(c * 256 ** (3 - i) for i, c in enumerate(cs))
    return z3.If(cs[0] >= 128, v - 2**32, v)

  def define(self, t):
    """The definition of P at t + 1."""
    t = simp(tz(t))
    self.ctx.add(z3.Implies(t >= 0, self.P(simp(t + 1)) == self.P(t) + 4 + self.length(t)))

  def array(self, t):
    t = simp(tz(t))
    m = lambda x: z3.If(x <= self.L, x, self.L)
    lo = m(self.P(t) + 4)
    hi = m(self.P(simp(t + 1)))
    hi = z3.If(hi >= lo, hi, lo)
    return mkstr('str', [BS(self.base, simp(self.lo + lo), simp(self.lo + hi))])

  def wellformed(self, t):
    """What the caller knows of the t-th array (t inside the range)."""
    t = simp(tz(t))
    self.define(t)
    p, q = self.P(t), self.P(simp(t + 1))
    return z3.And(p >= 4, p + 4 <= q, q <= self.L)

  def loops(self, gpreds=()):
    def pos(env, loc):
      self.define(tz(env.k))
      self.define(tz(env.k) - 1)
      return SInt(self.P(simp(tz(env.k))))
    return loopinv(gpreds=list(gpreds), defs=[
        ('position of the array', 'int', pos),
        ('the arrays before it', 'list', lambda env, loc: GList(tz(env.k), self.array))])


def a_unpackm(I, f, a, k):
  ctx = I.ctx
  if len(a) != 1 or k or not isinstance(a[0], S) or len(a[0].segs) != 1 or not isinstance(a[0].segs[0], BS):
    return NotImplemented
  r = ctx.choose(3)
  if r == 1:
    raise PyRaise(I.exc(AssertionError))
  if r == 2:
    import struct
    raise PyRaise(I.exc(struct.error, 'unpack requires a buffer of 4 bytes'))
  F = Frames(ctx, a[0])
  n = ctx.fresh('narrays')
  ctx.assume(z3.And(n >= 0, F.P(n) == F.L, F.L >= 4))

  def at(i):
    w = F.wellformed(i)
    ctx.add(z3.Implies(z3.And(tz(i) >= 0, tz(i) < n), w))
    return F.array(i)
  p = PList([], ctx.newserial())
  p.sym = GList(n, at)
  I.state.setdefault('unpacked', []).append((a[0], F, n))
  return p


def v_unpackm(ctx):
  """Data that is accepted consists of exactly the arrays returned."""
  I = interp(ctx)
  d = symstr(ctx, 'd')
  F = Frames(ctx, d)
  g = ctx.fresh('g')          # any one of the arrays
  ctx.add(g >= 0)
  F.define(g)
  # (with P(0) = 4 and increasing positions)
  I.loopspec = F.loops([('arrays lie one after the other', lambda env: z3.And(
      F.P(simp(tz(env.k))) >= 4,
      z3.Implies(g < tz(env.k), z3.And(F.P(g) >= 4, F.P(g) + 4 <= F.P(simp(g + 1)),
                                       F.P(simp(g + 1)) <= F.P(simp(tz(env.k)))))))])
  o = outcome(I, lambda: I.call_body(I.get('util.UnpackMultipleByteArrays'), [d]))
  if o[0] == 'raise':
    return ctx.ok('refused')
  r = o[1]
  if not isinstance(r, PList):
    return ctx.fail('a list', repr(r))
  K = tz(tadd(r.sym.n if r.sym is not None else 0, len(r.items)))
  if r.sym is None:
    for i in range(len(r.items)):
      F.define(i)
  ctx.prove(F.L >= 4, 'the count is there')
  ctx.prove(F.P(simp(K)) == F.L, 'the arrays fill the data exactly')
  ctx.assume(g < K)
  ctx.prove(F.wellformed(g), 'array g lies inside the data')
  ctx.prove_streq(I.getitem(r, SInt(g)), F.array(g), 'array g')


Contract('util.UnpackMultipleByteArrays', a_unpackm, v_unpackm)


from specs import streams
