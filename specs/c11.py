"""C11 Integer, byte and framing conversions."""
from pyvc.spec import *
SPECS = Registry()


@SPECS.spec(['util.Xor'])
def xor_is_bytewise_right_aligned(ctx):
  I = interp(ctx)
  a, b = symstr(ctx, 'a'), symstr(ctx, 'b')
  r = I.call(I.get('util.Xor'), [a, b])
  la, lb = tz(slen(a)), tz(slen(b))
  n = z3.If(la >= lb, la, lb)
  ctx.prove(tz(slen(r)) == n, 'length')
  i = ctx.fresh('i')
  ctx.assume(z3.And(i >= 0, i < n))
  x = 0 if not ctx.decide(i >= n - la) else ctx.at(a, i - (n - la))
  y = 0 if not ctx.decide(i >= n - lb) else ctx.at(b, i - (n - lb))
  from pyvc.core import bxor_f
  ctx.prove(tz(ctx.at(r, i)) == bxor_f(tz(x), tz(y)), 'byte i is the xor of the aligned bytes')


@SPECS.spec(['util.Xor'])
def xor_involution(ctx):
  I = interp(ctx)
  a = symstr(ctx, 'a')
  b = symstr(ctx, 'b', slen(a))
  f = I.get('util.Xor')
  ctx.prove_streq(I.call(f, [I.call(f, [a, b]), b]), a, 'Xor(Xor(a,b),b)==a')


@SPECS.spec(['util.IntToBytes'])
def int_to_4_bytes(ctx):
  I = interp(ctx)
  n = symint(ctx, 'n')
  r = I.call(I.get('util.IntToBytes'), [n])
  ctx.prove(tz(slen(r)) == 4, 'four bytes')
  for i in range(4):
    ctx.prove(tz(ctx.at(r, i)) == (n.t / 256 ** (3 - i)) % 256, 'byte %d of the big-endian form' % i)


@SPECS.spec(['util.TrimBytes'])
def trim(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  r = I.call(I.get('util.TrimBytes'), [x])
  lx, lr = tz(slen(x)), tz(slen(r))
  if ctx.decide(lx == 0):
    ctx.prove_streq(r, '\0', 'empty gives one zero byte')
    return
  ctx.prove(z3.And(lr >= 1, lr <= lx), 'length')
  k = lx - lr
  i = ctx.fresh('i')
  ctx.push()
  ctx.add(z3.And(i >= 0, i < k))
  ctx.prove(tz(ctx.at(x, i)) == 0, 'only zero bytes are removed')
  ctx.pop()
  ctx.push()
  ctx.add(z3.And(i >= 0, i < lr))
  ctx.prove(tz(ctx.at(r, i)) == tz(ctx.at(x, k + i)), 'the rest is unchanged')
  ctx.pop()
  ctx.prove(z3.Or(lr == 1, tz(ctx.at(r, 0)) != 0), 'no leading zero is left')


@SPECS.spec(['util.PadBytes'])
def pad(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  n = symint(ctx, 'n', 0)
  r = I.call(I.get('util.PadBytes'), [x, n])
  ctx.prove_streq(r, cat(ctx, mkstr('str', [Rep(0, n.t)]), x), 'n zero bytes prepended')


@SPECS.spec(['util.PackByteArray'])
def pack(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  ctx.assume(tz(slen(x)) < 2**31)
  r = I.call(I.get('util.PackByteArray'), [x])
  ctx.prove_streq(r, cat(ctx, be32(ctx, slen(x)), x), 'length then bytes')


@SPECS.spec(['util.UnpackByteArray', 'util.PackByteArray'])
def unpack_inverts_pack(ctx):
  I = interp(ctx)
  pre, x, post = symstr(ctx, 'pre'), symstr(ctx, 'x'), symstr(ctx, 'post')
  ctx.assume(tz(slen(x)) < 2**31)
  p = I.call(I.get('util.PackByteArray'), [x])
  r = I.call(I.get('util.UnpackByteArray'), [cat(ctx, pre, p, post), mkint(slen(pre))])
  ctx.prove_streq(r[0], x, 'the array')
  ctx.prove(tz(iterm(r[1])) == tz(slen(pre)) + 4 + tz(slen(x)), 'end offset')


@SPECS.spec(['util.UnpackByteArray'])
def unpack_any(ctx):
  """Whatever is unpacked from arbitrary data is the length-prefixed array at the
  offset, and the end offset tells truncation."""
  I = interp(ctx)
  d = symstr(ctx, 'd')
  off = symint(ctx, 'off', 0)
  try:
    r = I.call(I.get('util.UnpackByteArray'), [d, off])
  except PyRaise as e:
    ctx.ok('refused')
    return
  x, end = r
  n = tz(slen(x))
  o = off.t
  ctx.prove(o + 4 <= tz(slen(d)), 'length word lies inside the data')
  v = 0
  for i in range(4):
    v = tadd(tmul(v, 256), ctx.at(d, o + i))
  v = tz(v)
  v = z3.If(v >= 2**31, v - 2**32, v)
  ctx.prove(tz(iterm(end)) == o + 4 + v, 'end offset is what the length word says')
  ctx.add(z3.And(v >= 0, o + 4 + v <= tz(slen(d))))
  if not ctx.feasible():
    return
  ctx.prove(n == v, 'length')
  i = ctx.fresh('i')
  ctx.add(z3.And(i >= 0, i < n))
  if not ctx.feasible():
    return
  ctx.prove(tz(ctx.at(x, i)) == tz(ctx.at(d, o + 4 + i)), 'content')


# ------------------------------------------------------------ several arrays
from specs.contracts import Frames, v_unpackm
from specs.kit import outcome, expect
from specs.absset import need


@SPECS.spec(['util.UnpackMultipleByteArrays', 'util.UnpackByteArray'])
def unpack_multiple(ctx):
  """Data in which n arrays lie one after the other (any n, any lengths) is accepted and
  gives exactly these n arrays.  The whole format: P(0)=4, P(i+1)=P(i)+4+length, P(n)=len."""
  I = interp(ctx)
  d = symstr(ctx, 'd')
  F = Frames(ctx, d)
  n = ctx.fresh('n')
  ctx.assume(z3.And(n >= 0, F.P(n) == F.L))

  def wf(t):
    # the format, and (by induction from the end) room for the arrays that follow
    F.define(t)
    ctx.add(z3.Implies(z3.And(t >= 0, t < n), z3.And(
        F.length(t) >= 0, F.P(t) >= 4, F.P(simp(t + 1)) + 4 * (n - t - 1) <= F.L)))
  g = ctx.fresh('g')

  def bound(env):
    wf(simp(tz(env.k)))
    wf(simp(tz(env.k) - 1))
    return z3.And(tz(env.k) <= n, F.P(simp(tz(env.k))) >= 4 + 4 * tz(env.k), F.P(simp(tz(env.k))) <= F.L)
  I.loopspec = F.loops([('arrays so far', bound)])
  for i in range(ctx.ex.unroll + 1 if ctx.ex.unroll else 0):
    wf(z3.IntVal(i))
  o = outcome(I, lambda: I.call(I.get('util.UnpackMultipleByteArrays'), [d]))
  if o[0] == 'raise':
    return ctx.fail('well-formed data is accepted', clsname(o[1].exc.cls))
  r = o[1]
  K = tz(tadd(r.sym.n if r.sym is not None else 0, len(r.items)))
  ctx.prove(K == n, 'as many arrays as there are')
  ctx.assume(z3.And(n > 0, g >= 0, g < n))
  wf(g)
  ctx.prove_streq(I.getitem(r, SInt(g)), F.array(g), 'array g')


@SPECS.spec(['util.UnpackMultipleByteArrays', 'util.UnpackByteArray'])
def inconsistent_data_is_refused(ctx):
  """Arbitrary data: what is accepted is filled exactly by the arrays returned."""
  v_unpackm(ctx)


@SPECS.spec(['util.UnpackMultipleByteArrays'])
def unpack_ends(ctx):
  """Arbitrary data: the n-th array is looked for at n or more bytes from the first and inside
  the data, so there are never more steps than bytes."""
  I = interp(ctx)
  d = symstr(ctx, 'd')
  g = Native(I)
  g.fields['count'] = 0
  real = I.get('util.UnpackByteArray')

  def unpack(I, f, a, k):
    need(len(a) == 2, 'UnpackByteArray')
    c, off = tz(iterm(g.fields['count'])), tz(iterm(a[1]))
    ctx.prove(z3.And(off >= 4 + c, off < tz(slen(d))), 'every step gets further')
    I.setfield(g, 'count', mkint(simp(c + 1)))
    del I.contracts['util.UnpackByteArray']
    try:
      return I.call(real, list(a))
    finally:
      I.contracts['util.UnpackByteArray'] = unpack
  I.contracts['util.UnpackByteArray'] = unpack
  I.loopspec = loopinv(gpreds=[('progress', lambda env: z3.And(*[
      tz(iterm(v)) >= 4 + tz(iterm(g.fields['count']))
      for v in [env.read(l) for l in env.loop.locs() if l[0] == 'l'] if isinstance(v, (int, SInt))]))])
  outcome(I, lambda: I.call(I.get('util.UnpackMultipleByteArrays'), [d]))


@SPECS.spec(['util.PackMultipleByteArrays', 'util.PackByteArray', 'util.UnpackMultipleByteArrays'],
            bounded='at most 4 arrays of any length and content')
def pack_multiple(ctx):
  I = interp(ctx)
  n = ctx.choose(5)
  xs = [symstr(ctx, 'x%d' % i) for i in range(n)]
  for x in xs:
    ctx.assume(tz(slen(x)) < 2**31)
  r = I.call(I.get('util.PackMultipleByteArrays'), list(xs))
  want = be32(ctx, n)
  for x in xs:
    want = cat(ctx, want, be32(ctx, slen(x)), x)
  ctx.prove_streq(r, want, 'count, then each array with its length')
  o = outcome(I, lambda: I.call(I.get('util.UnpackMultipleByteArrays'), [want]))
  if o[0] == 'raise':
    return ctx.fail('unpacked', clsname(o[1].exc.cls))
  ctx.prove(len(o[1].items) == n, 'as many arrays')
  for x, y in zip(xs, o[1].items):
    ctx.prove_streq(y, x, 'the same arrays')


@SPECS.spec(['util.BinToBytes', 'util._PadByte'])
def bits_to_bytes(ctx):
  """Whole bytes, any number: byte i has the bits 8i..8i+7."""
  I = interp(ctx)
  n = symint(ctx, 'n', 0)
  b = ctx.freshstr('b', mkint(8 * n.t).t, maxcode=49, excl=frozenset(range(48)))
  ctx.inputs['b'] = b
  r = I.call(I.get('util.BinToBytes'), [b])
  ctx.prove(tz(slen(r)) == n.t, 'length')
  i = ctx.fresh('i')
  ctx.assume(z3.And(i >= 0, i < n.t))
  v = 0
  for j in range(8):
    v = v + (tz(ctx.at(b, simp(8 * i + j))) - 48) * 2 ** (7 - j)
  ctx.prove(tz(ctx.at(r, i)) == v, 'byte i')


@SPECS.spec(['util.BytesToLong', 'util.BigIntToBytes'])
def number_round_trip(ctx):
  """Over the contracts of both: the value of the minimal bytes of n is n, with any zeros before."""
  I = interp(ctx, 'util.BytesToLong', 'util.BigIntToBytes')
  n = symint(ctx, 'n', 0)
  z = symint(ctx, 'z', 0)
  b = I.call(I.get('util.BigIntToBytes'), [n])
  ctx.prove_eq(I.call(I.get('util.BytesToLong'), [b]), n, 'back to the number')
  ctx.prove_eq(I.call(I.get('util.BytesToLong'), [cat(ctx, mkstr('str', [Rep(0, z.t)]), b)]), n,
               'leading zeros do not matter')


@SPECS.spec(['util.BinToBytes', 'util._PadByte'])
def padded_bits(ctx):
  """Any number of bits: padded with zeros on the left."""
  I = interp(ctx)
  n = symint(ctx, 'n', 0)
  p = ctx.choose(8)
  if p:
    ctx.assume(n.t >= 1)
  b = ctx.freshstr('b', mkint(8 * n.t - p).t, maxcode=49, excl=frozenset(range(48)))
  ctx.inputs['b'] = b
  r = I.call(I.get('util.BinToBytes'), [b])
  ctx.prove(tz(slen(r)) == n.t, 'length')
  i = ctx.fresh('i')
  ctx.assume(z3.And(i >= 0, i < n.t))
  first = ctx.decide(i == 0)
  v = 0
  for j in range(8):
    if not (first and j < p):
      v = v + (tz(ctx.at(b, simp(8 * i + j - p))) - 48) * 2 ** (7 - j)
  ctx.prove(tz(ctx.at(r, i)) == v, 'byte i')
