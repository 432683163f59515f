"""Sources that deliver their contents in arbitrary pieces."""
from specs.kit import *

class Src(Native):
  """A source that delivers its contents in arbitrary pieces; None: nothing yet."""
  tname = 'source'

  def __init__(self, I, X, pos=0):
    Native.__init__(self, I)
    self.X = X
    self.fields['pos'] = mkint(pos)

  def m_read(self, I, size=-1):
    ctx = I.ctx
    pos, n = tz(iterm(self.fields['pos'])), tz(slen(self.X))
    size = tz(iterm(size))
    c = ctx.choose(3)
    if c == 0:
      return None
    if c == 1:
      ctx.assume(z3.Or(pos == n, size == 0))
      return ''
    q = ctx.fresh('delivered')
    ctx.assume(z3.And(q >= 1, pos + q <= n, z3.Or(size < 0, q <= size)))
    I.setfield(self, 'pos', mkint(simp(pos + q)))
    return ctx.slice(self.X, mkint(pos), mkint(simp(pos + q)))


def src_inv(ctx, src):
  X, loc = src.X, ('h', src.serial, 'pos')

  def piece(env, l):
    if strkind(env.v0) != 'str':
      return None
    p0 = iterm(env.entry.get(loc, src.fields['pos']))
    lo, hi = tsub(p0, slen(env.v0)), iterm(src.fields['pos'])
    # the invariant of Src: only its own methods move pos, forwards and within X
    ctx.assume(z3.And(tz(p0) <= tz(hi), tz(hi) <= tz(slen(X))))
    if not ctx.entails(tz(lo) >= 0):
      return None
    return ctx.slice(X, mkint(lo), mkint(hi))
  return loopinv(
      defs=[('what was delivered', 'str', piece)],
      preds=[('within the source', 'int', lambda env, v: tz(iterm(v)) <= tz(slen(X))
              if env.loc == loc else None),
             ('short of', 'int', lambda env, v: [
                 (x, tz(iterm(v)) - tz(iterm(env.v0)) < tz(iterm(y)))
                 for x, y in sorted(env.loop.fr.locals.items())
                 if isinstance(y, (int, SInt)) and not isinstance(y, bool)
                 and x not in env.loop.names] if env.loc == loc else None)],
      rotate=True)


# ------------------------------------------------------------ __ReadBytes
RB = 'keys.DecryptingStreamReader._DecryptingStreamReader__ReadBytes'


def args(I, f, a, k):
  """(stream, size, block) of a call, or None"""
  try:
    src = a[0].fields['_DecryptingStreamReader__input_stream']
    size = a[1] if len(a) > 1 else k['size']
    block = a[2] if len(a) > 2 else k.get('block', True)
  except (KeyError, IndexError, AttributeError):
    return None
  if not isinstance(src, Src) or not isinstance(block, bool) or not isinstance(size, (int, SInt)):
    return None
  return src, size, block


def a_rb(I, f, a, k):
  ctx = I.ctx
  x = args(I, f, a, k)
  if x is None or set(k) - {'size', 'block'} or not ctx.entails(tz(iterm(x[1])) >= 1):
    return NotImplemented
  src, size, block = x
  size = tz(iterm(size))
  pos, n = tz(iterm(src.fields['pos'])), tz(slen(src.X))
  q = ctx.fresh('delivered')
  more = bool(ctx.choose(2))
  ctx.assume(z3.And(q >= 0, pos + q <= n, q < 2 * size))
  if not more:
    ctx.assume(z3.And(pos + q == n, q < size))
  elif block:
    ctx.assume(q >= size)
  I.setfield(src, 'pos', mkint(simp(pos + q)))
  return (ctx.slice(src.X, mkint(pos), mkint(simp(pos + q))), more)


def v_rb(ctx):
  I = interp(ctx)
  X = symstr(ctx, 'X')
  pos = ctx.fresh('pos')
  ctx.assume(z3.And(pos >= 0, pos <= tz(slen(X))))
  src = Src(I, X, pos)
  r = I.call(I.get('keys.DecryptingStreamReader'), [None, src])
  size = symint(ctx, 'size', 1)
  I.loopspec = src_inv(ctx, src)
  f = I.getattr(r, '_DecryptingStreamReader__ReadBytes')
  block = bool(ctx.choose(2))
  how = ctx.choose(2)
  if block:
    got = I.call(f, [size] + ([True] if how else []))
  else:
    got = I.call(f, [size] + ([False] if how else []), {} if how else {'block': False})
  res, more = got
  if isinstance(more, SBool):
    more = ctx.decide(more.t)
  p2 = tz(iterm(src.fields['pos']))
  ctx.prove_streq(res, ctx.slice(X, mkint(pos), mkint(p2)), 'everything delivered, nothing else')
  ctx.prove(z3.And(p2 >= pos, p2 <= tz(slen(X)), p2 - pos < 2 * size.t), 'within the source')
  if not more:
    ctx.prove(z3.And(p2 == tz(slen(X)), p2 - pos < size.t), 'end of data only at the end')
  elif block:
    ctx.prove(p2 - pos >= size.t, 'a blocking read gives what was asked for')
  else:
    ctx.ok('may be short')


Contract(RB, a_rb, v_rb)
