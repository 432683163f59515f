"""Operators, builtins and methods of builtin types."""
import ast
import z3
from .core import *
from .core import NeedFork, bxor_f, bor_f, band_f, pow256_f, bitlen_f
from . import core
from .interp import *
from .interp import toreal, Undefined

NUM = (bool, int, SInt, SBool)


def isnum(v):
  return isinstance(v, NUM)


class SRat(SReal):
  """num/den with integer num and positive integer constant den."""
  __slots__ = ('num', 'den')

  def __init__(self, num, den):
    self.num, self.den = num, den
    SReal.__init__(self, z3.ToReal(tz(num)) / z3.RealVal(den))


def binop(I, op, a, b):
  ctx = I.ctx
  t = type(op).__name__
  if isinstance(a, float) or isinstance(b, float) or isinstance(a, SReal) or isinstance(b, SReal) or (
      t == 'Div' and isnum(a) and isnum(b)):
    if isnum(a) and isnum(b) and not isinstance(a, (SInt, SBool)) and not isinstance(b, (SInt, SBool)):
      if b == 0:
        I.throw(ZeroDivisionError, 'division by zero')
      return a / b
    return realop(I, t, a, b)
  if isnum(a) and isnum(b):
    return intop(I, t, a, b)
  ka, kb = strkind(a), strkind(b)
  if t == 'Add' and ka and kb:
    if ka != kb:
      I.throw(TypeError, 'can only concatenate %s' % ka)
    return ctx.concat(a, b)
  if t == 'Mult' and (ka and isnum(b) or kb and isnum(a)):
    s, n = (a, b) if ka else (b, a)
    return repeat(I, s, n)
  if t == 'Mod' and ka == 'str':
    return fmt(I, a, b)
  if isinstance(a, PList) and isinstance(b, PList) and t == 'Add':
    if a.sym is not None and b.sym is None:
      p = PList(a.items + b.items, ctx.newserial())
      p.sym = a.sym
      return p
    if b.sym is not None and a.sym is None:
      g, items = b.sym, list(a.items)

      def at(i):
        for j, x in enumerate(items):
          if ctx.decide(tz(i) == j):
            return x
        return g.at(tsub(i, len(items)))
      p = PList(list(b.items), ctx.newserial())
      p.sym = g
      if items:
        p.sym = GList(tadd(g.n, len(items)), at)
        p.sym.parts = (items, g)
      return p
    if a.sym is not None or b.sym is not None:
      raise Unsupported('concatenation of symbolic lists')
    return PList(a.items + b.items, ctx.newserial())
  if isinstance(a, tuple) and isinstance(b, tuple) and t == 'Add':
    return a + b
  if t == 'Mult' and isinstance(a, (PList, tuple)) and isinstance(b, int):
    return PList(a.items * b, ctx.newserial()) if isinstance(a, PList) else a * b
  if t == 'Mult' and isinstance(b, (PList, tuple)) and isinstance(a, int):
    return PList(b.items * a, ctx.newserial()) if isinstance(b, PList) else b * a
  if isinstance(a, PSet) and isinstance(b, PSet):
    inb = lambda x, s: any(I.truth(I.eq(x, y)) for y in s.items)
    if t == 'Sub':
      r = [x for x in a.items if not inb(x, b)]
    elif t == 'BitAnd':
      r = [x for x in a.items if inb(x, b)]
    elif t == 'BitOr':
      r = a.items + [x for x in b.items if not inb(x, a)]
    else:
      raise Unsupported('set op')
    return PSet(r, ctx.newserial())
  if isinstance(a, PDict) and isinstance(b, PDict) and t == 'BitOr':
    d = PDict(a.entries, ctx.newserial())
    for k, v in b.entries:
      I.dict_set(d, k, v)
    return d
  if isinstance(a, Coll) and hasattr(a, 'binop'):
    return a.binop(I, t, b)
  if isinstance(b, Coll) and hasattr(b, 'rbinop'):
    return b.rbinop(I, t, a)
  if (a is None or b is None or ((ka or isnum(a)) and (kb or isnum(b)))
      or (isinstance(a, (PList, tuple)) and (kb or isnum(b)))
      or (isinstance(b, (PList, tuple)) and (ka or isnum(a)))):
    I.throw(TypeError, 'unsupported operand type(s) for %s' % t)
  raise Unsupported('binary %s on %r, %r' % (t, type(a).__name__, type(b).__name__))


def realop(I, t, a, b):
  if t == 'Div' and isinstance(a, NUM) and isinstance(b, (int, float)) and b == int(b) and b > 0:
    return SRat(iterm(a), int(b))
  if isinstance(b, float) and b == 0 and t == 'Div':
    I.throw(ZeroDivisionError, 'float division by zero')
  x, y = toreal(a), toreal(b)
  r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y,
       'Div': lambda: x / y}.get(t)
  if r is None:
    raise Unsupported('float %s' % t)
  return SReal(r())


def intop(I, t, a, b):
  ctx = I.ctx
  x, y = iterm(a), iterm(b)
  if not isz(x) and not isz(y):
    if t in ('FloorDiv', 'Mod') and y == 0:
      I.throw(ZeroDivisionError, 'division by zero')
    if t in ('LShift', 'RShift') and y < 0:
      I.throw(ValueError, 'negative shift count')
    if t == 'Pow' and y < 0:
      return float(x) ** y
    return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y,
            'FloorDiv': lambda: x // y, 'Mod': lambda: x % y, 'Pow': lambda: x ** y,
            'LShift': lambda: x << y, 'RShift': lambda: x >> y,
            'BitXor': lambda: x ^ y, 'BitOr': lambda: x | y,
            'BitAnd': lambda: x & y}[t]()
  if t == 'Add':
    return mkint(tadd(x, y))
  if t == 'Sub':
    return mkint(tsub(x, y))
  if t == 'Mult':
    return mkint(tmul(x, y))
  if t in ('FloorDiv', 'Mod'):
    if isz(y):
      if ctx.decide(y == 0):
        I.throw(ZeroDivisionError, 'division by zero')
      if not ctx.decide(y > 0):
        raise Unsupported('division by a negative')
    else:
      if y == 0:
        I.throw(ZeroDivisionError, 'division by zero')
      if y < 0:
        raise Unsupported('division by a negative')
    return mkint(tz(x) / tz(y) if t == 'FloorDiv' else tz(x) % tz(y))
  if t == 'RShift' and not isz(y):
    if y < 0:
      I.throw(ValueError, 'negative shift count')
    return mkint(tz(x) / (2 ** y))
  if t == 'LShift' and not isz(y):
    if y < 0:
      I.throw(ValueError, 'negative shift count')
    return mkint(tz(x) * (2 ** y))
  if t == 'LShift' and not isz(x) and x == 1:
    if ctx.entails(tz(y) % 8 == 0):
      return mkint(pow256_f(simp(tz(y) / 8)))
  if t == 'LShift':
    k = shift8(ctx, y)
    if k is not None:
      return mkint(tz(x) * pow256_f(tz(k)))
  if t == 'Pow':
    if not isz(y):
      r = 1
      for _ in range(y if y <= 8 else 0):
        r = tmul(r, x)
      if y <= 8:
        return mkint(r)
    elif x == 256:
      if not ctx.decide(tz(y) >= 0):
        raise Unsupported('negative exponent')
      return mkint(pow256_f(tz(y)))
    elif x == 2:
      k = shift8(ctx, y)
      if k is not None:
        return mkint(pow256_f(tz(k)))
  if t == 'BitXor':
    if x is y or tsame(x, y):
      return 0
    return mkint(bxor_f(tz(x), tz(y)))
  if t == 'BitOr':
    if x == 0 and not isz(x):
      return mkint(y)
    if not isz(y) and y == 0:
      return mkint(x)
    return mkint(bor_f(tz(x), tz(y)))
  if t == 'BitAnd':
    for p, q in ((x, y), (y, x)):
      if not isz(q):
        if q == 0:
          return 0
        if q > 0 and (q & (q + 1)) == 0:
          return mkint(tz(p) % (q + 1))
        if q > 0 and (q & (q - 1)) == 0:
          return mkint(((tz(p) / q) % 2) * q)
    return mkint(band_f(tz(x), tz(y)))
  raise Unsupported('integer %s' % t)


def shift8(ctx, y):
  """y == 8*k for a term k?"""
  if isz(y) and ctx.entails(z3.And(tz(y) % 8 == 0, tz(y) >= 0)):
    return simp(tz(y) / 8)
  return None


def repeat(I, s, n):
  ctx = I.ctx
  k = strkind(s)
  t = iterm(n)
  if not isz(t):
    if not isinstance(s, S):
      return s * t
    r = '' if k == 'str' else b''
    if t > 64:
      if len(s.segs) == 1 and isinstance(s.segs[0], Rep):
        return mkstr(k, [Rep(s.segs[0].code, tmul(s.segs[0].n, t))])
      raise Unsupported('large repeat')
    for _ in range(t):
      r = ctx.concat(r, s)
    return r
  if isinstance(s, S):
    if len(s.segs) == 1 and isinstance(s.segs[0], Rep):
      seg = s.segs[0]
      if not isz(seg.n) and seg.n == 1:
        if not ctx.decide(t > 0):
          return '' if k == 'str' else b''
        return mkstr(k, [Rep(seg.code, t)])
    raise Unsupported('symbolic repeat of a symbolic string')
  if not s:
    return s
  if len(set(s)) != 1:
    raise Unsupported('symbolic repeat of a long string')
  if not ctx.decide(t > 0):
    return '' if k == 'str' else b''
  c = ord(s[0]) if k == 'str' else s[0]
  return mkstr(k, [Rep(c, tmul(t, len(s)))])


def fmt(I, f, args):
  ctx = I.ctx
  if isinstance(f, S):
    raise Unsupported('symbolic format string')
  single = not isinstance(args, tuple)
  vals = [args] if single else list(args)
  out = ''
  i = 0
  while i < len(f):
    c = f[i]
    if c != '%':
      j = f.find('%', i)
      j = len(f) if j < 0 else j
      out = ctx.concat(out, f[i:j])
      i = j
      continue
    j = i + 1
    while j < len(f) and f[j] in '0123456789.-+ #lhL':
      j += 1
    spec, conv = f[i + 1:j], f[j]
    i = j + 1
    if conv == '%':
      out = ctx.concat(out, '%')
      continue
    if conv == '(':
      raise Unsupported('mapping format')
    if not vals:
      I.throw(TypeError, 'not enough arguments for format string')
    v = vals.pop(0)
    if conv in 'sr':
      s = to_str(I, v) if conv == 's' else to_repr(I, v)
      if spec:
        if isinstance(s, S):
          raise Unsupported('format width')
        s = ('%' + spec + 's') % s
    elif conv in 'di':
      if not isnum(v) and not isinstance(v, (float, SReal)):
        I.throw(TypeError, '%d format: a number is required')
      if isinstance(v, (int, float)):
        s = ('%' + spec + 'd') % v
      else:
        if spec:
          raise Unsupported('format width')
        s = to_str(I, v)
    elif isinstance(v, (int, float, str)):
      s = ('%' + spec + conv) % v
    else:
      raise Unsupported('format %%%s' % conv)
    out = ctx.concat(out, s)
  if vals and not single:
    I.throw(TypeError, 'not all arguments converted')
  if vals and single and not isinstance(args, (PDict, Obj, Native)):
    I.throw(TypeError, 'not all arguments converted')
  return out


def itoa(I, v):
  t = iterm(v)
  if not isz(t):
    return str(t)
  def mk():
    n = I.ctx.fresh('itoalen')
    I.ctx.add(n >= 1)
    return I.ctx.newbase('itoa', n, 57, frozenset([46, 47]), origin=('itoa', (v,)))
  b = I.ctx.app('itoa', (mkint(t),), mk)
  return mkstr('str', [BS(b, 0, b.length)])


def to_str(I, v):
  if strkind(v) == 'str':
    return v
  if isinstance(v, SBool):
    return 'True' if I.ctx.decide(v.t) else 'False'
  if isinstance(v, (bool, int, float)) or v is None or isinstance(v, bytes):
    return str(v)
  if isinstance(v, SInt):
    return itoa(I, v)
  if isinstance(v, Obj):
    if isinstance(v.cls, ClassV):
      m = I.find(v.cls, '__str__')
      if m is not None:
        return I.call(m, [v])
      m = I.find(v.cls, '__repr__')
      if m is not None:
        return I.call(m, [v])
    a = v.fields.get('args')
    if a is not None:
      if len(a) == 1:
        return to_str(I, a[0])
      return '<exception args>'
    return '<%s object>' % clsname(v.cls)
  if isinstance(v, Native):
    m = getattr(v, 'm___str__', None)
    if m:
      return m(I)
    return '<%s>' % v.tname
  return to_repr(I, v)


def to_repr(I, v):
  if isinstance(v, (int, float, str, bytes, bool)) or v is None:
    return repr(v)
  if isinstance(v, SInt):
    return itoa(I, v)
  if isinstance(v, S):
    return I.ctx.sapp('repr', (v,), lambda: I.ctx.fresh('reprlen'), maxcode=0x10ffff)
  if isinstance(v, (tuple, PList)):
    items = v if isinstance(v, tuple) else v.items
    if isinstance(v, PList) and v.sym is not None:
      return '<list>'
    out = '(' if isinstance(v, tuple) else '['
    for i, x in enumerate(items):
      if i:
        out = I.ctx.concat(out, ', ')
      out = I.ctx.concat(out, to_repr(I, x))
    return I.ctx.concat(out, (',)' if len(items) == 1 else ')') if isinstance(v, tuple) else ']')
  if isinstance(v, Obj) and isinstance(v.cls, ClassV):
    m = I.find(v.cls, '__repr__')
    if m is not None:
      return I.call(m, [v])
  if isinstance(v, (Obj, Native)):
    return '<object>'
  return '<%s>' % type(v).__name__


# --------------------------------------------------------------------------

def compare(I, op, a, b):
  t = type(op).__name__
  ctx = I.ctx
  if t == 'Eq':
    return I.eq(a, b)
  if t == 'NotEq':
    if isinstance(a, Obj) and isinstance(a.cls, ClassV):
      m = I.find(a.cls, '__ne__')
      if isinstance(m, FuncV):
        return I.call(m, [a, b])
    r = I.eq(a, b)
    return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else (not I.truth(r))
  if t == 'Is':
    return I.identical(a, b)
  if t == 'IsNot':
    r = I.identical(a, b)
    return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
  if t == 'In':
    return contains(I, b, a)
  if t == 'NotIn':
    r = contains(I, b, a)
    return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else (not I.truth(r))
  if isinstance(a, float) or isinstance(b, float) or isinstance(a, SReal) or isinstance(b, SReal):
    if all(isinstance(x, (int, float)) for x in (a, b)):
      x, y = a, b
    else:
      x, y = toreal(a), toreal(b)
  elif isnum(a) and isnum(b):
    x, y = iterm(a), iterm(b)
    if isz(x) or isz(y):
      x, y = tz(x), tz(y)
  elif strkind(a) and strkind(a) == strkind(b) and not isinstance(a, S) and not isinstance(b, S):
    x, y = a, b
  elif isinstance(a, tuple) and isinstance(b, tuple):
    for p, q in zip(a, b):
      if I.truth(I.eq(p, q)):
        continue
      return compare(I, op, p, q)
    x, y = len(a), len(b)
  elif a is None or b is None or (bool(strkind(a)) != bool(strkind(b))):
    I.throw(TypeError, "'<' not supported")
  else:
    raise Unsupported('comparison %s' % t)
  r = {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y,
       'GtE': lambda: x >= y}[t]()
  return mkbool(r) if isz(r) else r


def contains(I, c, x):
  ctx = I.ctx
  if isinstance(c, PDict):
    return I.dict_find(c, x) >= 0
  if isinstance(c, (PList, tuple, PSet)):
    if isinstance(c, PList) and c.sym is not None:
      raise Unsupported('membership in a symbolic list')
    items = c if isinstance(c, tuple) else c.items
    if isinstance(x, SInt) and all(isinstance(i, int) for i in items):
      return mkbool(z3.Or([tz(x.t) == i for i in items])) if items else False
    for i in items:
      if i is x or I.truth(I.eq(i, x)):
        return True
    return False
  if isinstance(c, SRange) and isnum(x) and c.step == 1:
    t = tz(iterm(x))
    return mkbool(z3.And(t >= tz(c.lo), t < tz(c.hi)))
  k = strkind(c)
  if k:
    if strkind(x) == k and not isinstance(c, S) and not isinstance(x, S):
      return x in c
    if isinstance(c, S) and not isinstance(x, S) and len(x) == 1:
      code = ord(x) if k == 'str' else x[0]
      if all(seg_excludes(s, code) for s in c.segs):
        return False
    if not isinstance(c, S) and isinstance(x, S):
      n = slen(x)
      if not isz(n) and n == 1:
        t = tz(ctx.at(x, 0))
        return mkbool(z3.Or([t == ord(ch) for ch in c])) if c else False
    raise Unsupported('substring test')
  if isinstance(c, Native):
    m = getattr(c, 'm___contains__', None)
    if m:
      return m(I, x)
  if isinstance(c, Obj) and isinstance(c.cls, ClassV):
    m = I.find(c.cls, '__contains__')
    if m:
      return I.call(m, [c, x])
  if isinstance(c, Coll):
    return c.contains(I, x)
  if c is None or isnum(c):
    I.throw(TypeError, 'argument is not iterable')
  return contains(I, PList(I.listof(c)), x)


def seg_excludes(s, code):
  if isinstance(s, Lit):
    return code not in s.codes
  if isinstance(s, BS):
    return code in s.base.excl or code > s.base.maxcode
  if isinstance(s, Rep):
    return not isz(s.code) and s.code != code
  return False


# --------------------------------------------------------------------------

def normindex(I, k, n):
  """index -> T within [0,n) or IndexError."""
  ctx = I.ctx
  t = iterm(k)
  if not isz(t) and not isz(n):
    if t < 0:
      t += n
    if not 0 <= t < n:
      I.throw(IndexError, 'index out of range')
    return t
  if not isz(t):
    neg = t < 0
  else:
    neg = not ctx.decide(t >= 0)
  if neg:
    t = tadd(t, n)
    if not ctx.decide(tz(t) >= 0):
      I.throw(IndexError, 'index out of range')
    return t
  if not ctx.decide(tz(t) < tz(n)):
    I.throw(IndexError, 'index out of range')
  return t


def charat(I, o, t):
  c = I.ctx.at(o, t)
  if strkind(o) == 'bytes':
    return mkint(c)
  return mkstr('str', [Rep(c, 1)])


def getitem(I, o, k):
  ctx = I.ctx
  if isinstance(k, slice):
    if strkind(o):
      return ctx.slice(o, k.start, k.stop, k.step)
    if isinstance(o, (PList, tuple)):
      if isinstance(o, PList) and o.sym is not None:
        if k.start is None and k.stop is None and k.step == -1:
          p = PList([], ctx.newserial())
          g = o.sym
          p.sym = GList(g.n, lambda i: g.at(tsub(tsub(g.n, 1), i)))
          return p
        raise Unsupported('slice of a symbolic list')
      for x in (k.start, k.stop, k.step):
        if not (x is None or isinstance(x, int)):
          raise Unsupported('symbolic list slice')
      items = o if isinstance(o, tuple) else o.items
      r = items[k]
      return r if isinstance(o, tuple) else PList(r, ctx.newserial())
    if isinstance(o, Native) and hasattr(o, 'm___getitem__'):
      return o.m___getitem__(I, k)
    raise Unsupported('slice')
  if strkind(o):
    if not isnum(k):
      I.throw(TypeError, 'string indices must be integers')
    n = slen(o)
    t = normindex(I, k, n)
    if not isinstance(o, S) and not isz(t):
      return o[t]
    return charat(I, o, t)
  if isinstance(o, PDict):
    v = I.dict_get(o, k)
    if v is Undefined:
      I.throw(KeyError, k)
    return v
  if isinstance(o, (PList, tuple)):
    if not isnum(k):
      I.throw(TypeError, 'list indices must be integers')
    if isinstance(o, PList) and o.sym is not None:
      if o.items:
        raise Unsupported('index into a mixed list')
      t = normindex(I, k, o.sym.n)
      return o.sym.at(t)
    items = o if isinstance(o, tuple) else o.items
    t = normindex(I, k, len(items))
    if isz(t):
      for j in range(len(items)):
        if ctx.decide(t == j):
          return items[j]
      raise PathEnd()
    return items[t]
  if isinstance(o, Native):
    m = getattr(o, 'm___getitem__', None)
    if m:
      return m(I, k)
  if isinstance(o, Obj):
    m = I.getattr(o, '__getitem__', None)
    if m is not None:
      return I.call(m, [k])
  if o is None or isnum(o):
    I.throw(TypeError, 'object is not subscriptable')
  raise Unsupported('subscript of %r' % (o,))


def setitem(I, o, k, v):
  if isinstance(o, PDict):
    return I.dict_set(o, k, v)
  if isinstance(o, PList):
    I.track(o, '*')
    if o.sym is not None or isinstance(k, slice):
      raise Unsupported('item assignment')
    t = normindex(I, k, len(o.items))
    if isz(t):
      raise Unsupported('symbolic item assignment')
    o.items[t] = v
    return
  if isinstance(o, Native):
    m = getattr(o, 'm___setitem__', None)
    if m:
      return m(I, k, v)
  if isinstance(o, (tuple, S, str, bytes)) or o is None:
    I.throw(TypeError, 'object does not support item assignment')
  if isinstance(o, Obj):
    return I.call(I.getattr(o, '__setitem__'), [k, v])
  raise Unsupported('item assignment on %r' % (o,))


def delitem(I, o, k):
  if isinstance(o, PDict):
    i = I.dict_find(o, k)
    if i < 0:
      I.throw(KeyError, k)
    I.track(o, '*')
    del o.entries[i]
    return
  if isinstance(o, PList) and o.sym is None and isinstance(k, int):
    I.track(o, '*')
    if not -len(o.items) <= k < len(o.items):
      I.throw(IndexError, 'index out of range')
    del o.items[k]
    return
  if isinstance(o, Native):
    m = getattr(o, 'm___delitem__', None)
    if m:
      return m(I, k)
  raise Unsupported('del item of %r' % (o,))


# --------------------------------------------------------------------------
# builtins

def b_len(I, a, k):
  v = a[0]
  if strkind(v):
    return mkint(slen(v))
  if isinstance(v, PList):
    if v.sym is not None:
      return mkint(tadd(v.sym.n, len(v.items)))
    return len(v.items)
  if isinstance(v, GList):
    return mkint(v.n)
  if isinstance(v, tuple):
    return len(v)
  if isinstance(v, PDict):
    return len(v.entries)
  if isinstance(v, PSet):
    return len(v.items)
  if isinstance(v, SRange):
    return mkint(tsub(v.hi, v.lo))
  if isinstance(v, Native):
    m = getattr(v, 'm___len__', None)
    if m:
      return m(I)
  if isinstance(v, Obj) and isinstance(v.cls, ClassV):
    m = I.find(v.cls, '__len__')
    if m:
      return I.call(m, [v])
  if isinstance(v, Coll):
    return v.length(I)
  I.throw(TypeError, 'object has no len()')


def b_range(I, a, k):
  a = [iterm(x) for x in a]
  if len(a) == 1:
    return SRange(0, a[0])
  if len(a) == 2:
    return SRange(a[0], a[1])
  return SRange(*a)


def b_ord(I, a, k):
  v = a[0]
  n = slen(v) if strkind(v) else None
  if n is None:
    I.throw(TypeError, 'ord() expected a character')
  if isz(n):
    if not I.ctx.decide(n == 1):
      I.throw(TypeError, 'ord() expected a character')
  elif n != 1:
    I.throw(TypeError, 'ord() expected a character')
  if not isinstance(v, S):
    return ord(v)
  return mkint(I.ctx.at(v, 0))


def b_chr(I, a, k):
  if not isnum(a[0]):
    I.throw(TypeError, 'an integer is required')
  t = iterm(a[0])
  if not isz(t):
    if not 0 <= t < 0x110000:
      I.throw(ValueError, 'chr() arg not in range')
    return chr(t)
  if not I.ctx.decide(z3.And(t >= 0, t < 0x110000)):
    I.throw(ValueError, 'chr() arg not in range')
  return mkstr('str', [Rep(t, 1)])


def b_int(I, a, k):
  if not a:
    return 0
  v = a[0]
  base = a[1] if len(a) > 1 else k.get('base')
  if base is not None:
    if isinstance(v, str) and isinstance(base, int):
      try:
        return int(v, base)
      except ValueError:
        I.throw(ValueError, 'invalid literal for int()')
    if isinstance(v, S) and base == 2:
      n = slen(v)
      if not isz(n) and 0 < n <= 64:
        t = 0
        for i in range(n):
          c = I.ctx.at(v, i)
          if not I.ctx.decide(z3.Or(tz(c) == 48, tz(c) == 49)):
            raise Unsupported('int(x, 2) of a non-binary string')
          t = tadd(tmul(t, 2), tsub(c, 48))
        return mkint(t)
    raise Unsupported('int() with base')
  if isinstance(v, SRat):
    return mkint(z3.If(tz(v.num) >= 0, tz(v.num) / v.den, -((-tz(v.num)) / v.den)))
  if isinstance(v, SReal):
    raise Unsupported('int of real')
  if isinstance(v, (bool, int, float)):
    return int(v)
  if isinstance(v, SInt):
    return v
  if isinstance(v, SBool):
    return mkint(iterm(v))
  if isinstance(v, (str, bytes)):
    try:
      return int(v)
    except ValueError:
      I.throw(ValueError, 'invalid literal for int()')
  if isinstance(v, S):
    if len(v.segs) == 1 and isinstance(v.segs[0], BS) and v.segs[0].base.origin and (
        v.segs[0].base.origin[0] == 'itoa') and tsame(v.segs[0].lo, 0) and tsame(
            v.segs[0].hi, v.segs[0].base.length):
      return v.segs[0].base.origin[1][0]
    raise Unsupported('int of a symbolic string')
  if isinstance(v, Native):
    m = getattr(v, 'm___int__', None)
    if m:
      return m(I)
  if isinstance(v, Obj):
    m = I.getattr(v, '__int__', None)
    if m is not None:
      return I.call(m)
  I.throw(TypeError, 'int() argument')


class SumRec(object):
  """sum of a symbolic-length sequence: partial sums P(0)=start,
  P(j+1)=P(j)+elem(j)."""

  def __init__(self, n, elem, P):
    self.n, self.elem, self.P = n, elem, P


def b_sum(I, a, k):
  seq = I.iterate(a[0])
  start = a[1] if len(a) > 1 else k.get('start', 0)
  if isinstance(seq, tuple):
    if seq[0] != 'sym':
      raise Unsupported('sum over a collection')
    ctx = I.ctx
    n, at = seq[1], seq[2]
    ctx.n += 1
    P = z3.Function('psum!%d' % ctx.n, z3.IntSort(), z3.IntSort())
    ctx.add(P(z3.IntVal(0)) == tz(iterm(start)))
    I.state.setdefault('sums', []).append(SumRec(n, lambda j: iterm(at(j)), P))
    return mkint(P(tz(n)))
  r = start
  for x in seq:
    r = binop(I, ast.Add(), r, x)
  return r


def symbolic_extreme(I, which, n, at, k):
  """The least or greatest of f(0), .., f(n-1), f a function of the logic: one of them, and a
  bound of each (the bound is instantiated where f is applied)."""
  ctx = I.ctx
  if k.get('key') is not None or ctx.generic:
    raise Unsupported('%s of a symbolic sequence' % which)
  if not ctx.decide(tz(n) > 0):
    if 'default' in k:
      return k['default']
    I.throw(ValueError, '%s() arg is an empty sequence' % which)
  w = ctx.fresh('w' + which)
  ctx.add(z3.And(w >= 0, w < tz(n)))
  ctx.push()
  ctx.generic.append(GenericCtx(ctx.serial))
  try:
    x = at(w)
  except NeedFork:
    x = None
  finally:
    ctx.generic.pop()
    ctx.pop()
  t = simp(iterm(x)) if isinstance(x, SInt) else None
  if t is None or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED \
      or t.num_args() != 1 or not t.arg(0).eq(w):
    raise Unsupported('%s of a symbolic sequence' % which)
  f, r = t.decl(), t
  old = ctx.lemma_hooks.get(f.name())
  N = tz(n)

  def hook(c, a, walked):
    i = a.arg(0)
    out = [z3.Implies(z3.And(i >= 0, i < N), a <= r if which == 'max' else a >= r)]
    return out + list(old(c, a, walked) if old else [])
  ctx.lemma_hooks[f.name()] = hook
  ctx.npcwalk, ctx.walked = 0, set()          # also for the applications known so far
  return SInt(t)


def b_minmax(which):
  def f(I, a, k):
    if len(a) == 1:
      v = a[0]
      g = v.sym if isinstance(v, PList) else v
      extra = list(v.items) if isinstance(v, PList) and v.sym is not None else []
      while isinstance(g, GList) and hasattr(g, 'parts'):
        extra, g = extra + g.parts[0], g.parts[1]
      if isinstance(g, GList) and extra and not k:
        if not I.truth(g):
          return f(I, [PList(extra)], {})
        return f(I, [symbolic_extreme(I, which, g.n, g.at, k)] + extra, {})
      vals = I.iterate(a[0])
      if isinstance(vals, tuple):
        if vals[0] == 'coll':
          return vals[1].minmax(I, which, k)
        return symbolic_extreme(I, which, vals[1], vals[2], k)
      if not vals:
        if 'default' in k:
          return k['default']
        I.throw(ValueError, '%s() arg is an empty sequence' % which)
    else:
      vals = list(a)
    key = k.get('key')
    kv = lambda x: I.call(key, [x]) if key is not None else x
    r = vals[0]
    for x in vals[1:]:
      p, q = kv(x), kv(r)
      if isnum(p) and isnum(q) and key is None and (isz(iterm(p)) or isz(iterm(q))):
        tp, tq = tz(iterm(p)), tz(iterm(q))
        r = mkint(z3.If(tp > tq, tp, tq) if which == 'max' else z3.If(tp < tq, tp, tq))
        continue
      op = ast.Gt() if which == 'max' else ast.Lt()
      if I.truth(compare(I, op, p, q)):
        r = x
    return r
  return f


def b_any(I, a, k):
  seq = I.iterate(a[0])
  if isinstance(seq, tuple):
    if seq[0] == 'coll':
      return seq[1].any(I)
    raise Unsupported('any over symbolic sequence')
  for x in seq:
    if I.truth(x):
      return True
  return False


def b_all(I, a, k):
  seq = I.iterate(a[0])
  if isinstance(seq, tuple):
    if seq[0] == 'coll':
      return seq[1].all(I)
    raise Unsupported('all over symbolic sequence')
  for x in seq:
    if not I.truth(x):
      return False
  return True


def seqview(I, v):
  r = I.iterate(v)
  if isinstance(r, tuple):
    if r[0] != 'sym':
      raise Unsupported('zip over a collection')
    return r[1], r[2]
  return len(r), (lambda i, r=r: pick(I, r, i))


def pick(I, r, i):
  if not isz(i):
    return r[i]
  for j in range(len(r)):
    if I.ctx.decide(i == j):
      return r[j]
  raise PathEnd()


def b_zip(I, a, k):
  views = [seqview(I, x) for x in a]
  if not views:
    return PList([], I.ctx.newserial())
  n = views[0][0]
  for m, _ in views[1:]:
    if tsame(m, n):
      continue
    if not isz(m) and not isz(n):
      n = min(m, n)
    elif I.ctx.entails(tz(m) == tz(n)):
      n = m if not isz(m) else n
    elif I.ctx.decide(tz(m) < tz(n)):
      n = m
  if not isz(n):
    return PList([tuple(at(i) for _, at in views) for i in range(n)], I.ctx.newserial())
  return SEnum(n, lambda i: tuple(at(i) for _, at in views))


def b_enumerate(I, a, k):
  start = a[1] if len(a) > 1 else k.get('start', 0)
  n, at = seqview(I, a[0])
  if not isz(n):
    return PList([(mkint(tadd(iterm(start), i)), at(i)) for i in range(n)], I.ctx.newserial())
  return SEnum(n, lambda i: (mkint(tadd(iterm(start), i)), at(i)))


def b_reversed(I, a, k):
  n, at = seqview(I, a[0])
  if not isz(n):
    return PList([at(i) for i in range(n - 1, -1, -1)], I.ctx.newserial())
  p = PList([], I.ctx.newserial())
  p.sym = GList(n, lambda i: at(tsub(tsub(n, 1), i)))
  return p


def b_sorted(I, a, k):
  items = I.iterate(a[0])
  if isinstance(items, tuple):
    if items[0] == 'coll':
      return items[1]      # order of an abstract collection is irrelevant to clients
    raise Unsupported('sorted symbolic')
  key = k.get('key')
  out = []
  rev = I.truth(k.get('reverse', False))
  for x in items:
    kx = I.call(key, [x]) if key else x
    j = len(out)
    while j > 0 and I.truth(compare(I, ast.Lt(), kx, out[j - 1][0])):
      j -= 1
    out.insert(j, (kx, x))
  r = [x for _, x in out]
  if rev:
    r.reverse()
  return PList(r, I.ctx.newserial())


def b_list(I, a, k):
  if not a:
    return PList([], I.ctx.newserial())
  r = I.iterate(a[0])
  if isinstance(r, tuple):
    if r[0] == 'coll':
      return r[1]
    p = PList([], I.ctx.newserial())
    p.sym = GList(r[1], r[2])
    return p
  return PList(r, I.ctx.newserial())


def b_tuple(I, a, k):
  return tuple(I.listof(a[0])) if a else ()


def b_dict(I, a, k):
  if not a and not k and 'newdict' in I.state:
    return I.state['newdict'](I)
  d = PDict([], I.ctx.newserial())
  if a:
    if isinstance(a[0], PDict):
      d.entries = list(a[0].entries)
    elif hasattr(a[0], 'as_dict'):
      d = a[0].as_dict(I)
    else:
      for kv in I.listof(a[0]):
        p = I.listof(kv)
        I.dict_set(d, p[0], p[1])
  for kk, v in k.items():
    I.dict_set(d, kk, v)
  return d


def b_set(I, a, k):
  s = PSet([], I.ctx.newserial())
  if a:
    for v in I.listof(a[0]):
      if not any(I.truth(I.eq(v, x)) for x in s.items):
        s.items.append(v)
  return s


def b_str(I, a, k):
  if not a:
    return ''
  if len(a) > 1 or k:
    return str_method(I, a[0], 'decode')(I, a[1:], k)
  return to_str(I, a[0])


def b_bytes(I, a, k):
  if not a:
    return b''
  v = a[0]
  if strkind(v) == 'bytes':
    return v
  if strkind(v) == 'str':
    if len(a) < 2 and not k:
      I.throw(TypeError, 'string argument without an encoding')
    return str_method(I, v, 'encode')(I, a[1:], k)
  if isnum(v):
    return repeat(I, b'\0', v)
  if isinstance(v, Native) and hasattr(v, 'm___bytes__'):
    return v.m___bytes__(I)
  r = I.iterate(v)
  if isinstance(r, tuple):
    n, at = r[1], r[2]
    return mkstr('bytes', [Gen(n, lambda i, facts: iterm(at(i)))])
  out = []
  for x in r:
    t = iterm(x)
    if not I.ctx.decide(z3.And(tz(t) >= 0, tz(t) <= 255)):
      I.throw(ValueError, 'bytes must be in range(0, 256)')
    out.append(Rep(t, 1))
  return mkstr('bytes', out)


def b_bool(I, a, k):
  if not a:
    return False
  v = a[0]
  if isinstance(v, SBool):
    return v
  if isinstance(v, SInt):
    return mkbool(v.t != 0)
  return I.truth(v)


def b_isinstance(I, a, k):
  return I.isinstance(a[0], a[1])


def b_issubclass(I, a, k):
  c, d = a
  if isinstance(c, ClassV):
    return d in c.mro()
  return issubclass(c, d)


def b_hasattr(I, a, k):
  try:
    I.getattr(a[0], a[1])
    return True
  except PyRaise as e:
    if I.isinstance(e.exc, AttributeError):
      return False
    raise


def b_getattr(I, a, k):
  return I.getattr(a[0], a[1], a[2] if len(a) > 2 else Undefined)


def b_setattr(I, a, k):
  if isinstance(a[1], S):
    I.state.setdefault('symattrs', []).append((a[0], a[1], a[2]))
    return None
  I.setattr(a[0], a[1], a[2])


def b_print(I, a, k):
  I.ctx.events.append(('print', tuple(a)))


def b_abs(I, a, k):
  t = iterm(a[0])
  if not isz(t):
    return abs(t)
  return mkint(z3.If(t >= 0, t, -t))


def b_divmod(I, a, k):
  return (binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1]))


def b_pow(I, a, k):
  if len(a) == 3:
    return I.ctx.iapp('powmod', tuple(a))
  return binop(I, ast.Pow(), a[0], a[1])


def b_float(I, a, k):
  if not a:
    return 0.0
  if isinstance(a[0], (int, float)):
    return float(a[0])
  if isinstance(a[0], SInt):
    return SRat(a[0].t, 1)
  if isinstance(a[0], SReal):
    return a[0]
  raise Unsupported('float()')


def b_type(I, a, k):
  v = a[0]
  if isinstance(v, Obj):
    return v.cls
  for c in (bool, int, str, bytes, list, tuple, dict, set, float):
    if I.isinstance(v, c):
      return c
  if v is None:
    return type(None)
  raise Unsupported('type()')


def b_map(I, a, k):
  f = a[0]
  if len(a) == 2:
    r = I.iterate(a[1])
    if isinstance(r, tuple):
      if r[0] == 'coll':
        return r[1].map(I, lambda v: I.call(f, [v]))
      g = I.symmap(r[1], r[2], lambda v: I.call(f, [v]))
      if isinstance(g, GList):
        p = PList([], I.ctx.newserial())
        p.sym = g
        return p
      return PList(g, I.ctx.newserial())
    return PList([I.call(f, [x]) for x in r], I.ctx.newserial())
  z = b_zip(I, a[1:], {})
  if isinstance(z, SEnum):
    g = I.symmap(z.n, z.at, lambda v: I.call(f, list(v)))
    p = PList([], I.ctx.newserial())
    p.sym = g
    return p
  return PList([I.call(f, list(t)) for t in z.items], I.ctx.newserial())


def b_filter(I, a, k):
  return PList([x for x in I.listof(a[1])
                if I.truth(I.call(a[0], [x]) if a[0] is not None else x)], I.ctx.newserial())


def b_iter(I, a, k):
  r = I.iterate(a[0])
  if isinstance(r, tuple):
    raise Unsupported('iter() of a symbolic sequence')
  it = IterN(I)
  it.items = r
  return it


class IterN(Native):
  tname = 'iterator'

  def m___iter__(self, I):
    r = PList(self.items, I.ctx.newserial())
    self.items = []
    return r

  def m___next__(self, I):
    if not self.items:
      I.throw(StopIteration)
    return self.items.pop(0)


def b_next(I, a, k):
  v = a[0]
  if isinstance(v, IterN):
    if v.items:
      I.track(v, 'items')
      return v.items.pop(0)
  elif isinstance(v, PList) and v.sym is None:
    # a generator object (evaluated eagerly)
    if v.items:
      I.track(v, '*')
      return v.items.pop(0)
  elif isinstance(v, Coll):
    return v.next(I, a[1] if len(a) > 1 else Undefined)
  else:
    raise Unsupported('next()')
  if len(a) > 1:
    return a[1]
  I.throw(StopIteration)


def b_property(I, a, k):
  return PropV(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))


def b_callable(I, a, k):
  v = a[0]
  return isinstance(v, (FuncV, BoundV, NativeFn, ClassV, type)) or (
      isinstance(v, Obj) and isinstance(v.cls, ClassV) and I.find(v.cls, '__call__') is not None)


def b_round(I, a, k):
  if isinstance(a[0], (int, SInt)):
    return a[0]
  if isinstance(a[0], float):
    return round(*a)
  raise Unsupported('round')


def b_bin(I, a, k):
  if isinstance(a[0], int):
    return bin(a[0])
  raise Unsupported('bin()')


def b_hex(I, a, k):
  if isinstance(a[0], int):
    return hex(a[0])
  raise Unsupported('hex()')


def b_format(I, a, k):
  if len(a) == 1 or a[1] == '':
    return to_str(I, a[0])
  if isinstance(a[0], (int, str, float)) and isinstance(a[1], str):
    return format(a[0], a[1])
  raise Unsupported('format()')


def b_open(I, a, k):
  return I.world.open_(I, a, k)


def b_bytearray(I, a, k):
  return b_bytes(I, a, k)


BUILTINS = dict(len=b_len, range=b_range, xrange=b_range, ord=b_ord, chr=b_chr, int=b_int,
                sum=b_sum, min=b_minmax('min'), max=b_minmax('max'), any=b_any, all=b_all,
                zip=b_zip, enumerate=b_enumerate, reversed=b_reversed, sorted=b_sorted,
                list=b_list, tuple=b_tuple, dict=b_dict, set=b_set, frozenset=b_set, str=b_str,
                bytes=b_bytes, bytearray=b_bytearray, bool=b_bool, isinstance=b_isinstance,
                issubclass=b_issubclass, hasattr=b_hasattr, getattr=b_getattr,
                setattr=b_setattr, print=b_print, abs=b_abs, divmod=b_divmod, pow=b_pow,
                float=b_float, type=b_type, map=b_map, filter=b_filter, iter=b_iter,
                next=b_next, property=b_property, callable=b_callable, round=b_round,
                bin=b_bin, hex=b_hex, format=b_format, open=b_open, repr=lambda I, a, k: to_repr(I, a[0]),
                staticmethod=lambda I, a, k: StaticV(a[0]),
                classmethod=lambda I, a, k: ClsMethV(a[0]))

import builtins as _bi
EXCS = {n: v for n, v in vars(_bi).items()
        if isinstance(v, type) and issubclass(v, BaseException)}


# --------------------------------------------------------------------------
# methods of builtin types

def mapchars(I, v, f, what):
  """Apply code->code map f; Lit only, or segments it leaves alone."""
  raise Unsupported(what)


LINEBREAKS = frozenset([10, 11, 12, 13, 28, 29, 30, 133])


class LinesV(Native):
  """splitlines() of an arbitrary string."""
  tname = 'lines'


def maxcode(seg):
  if isinstance(seg, Lit):
    return max(seg.codes)
  if isinstance(seg, BS):
    return seg.base.maxcode
  if isinstance(seg, Rep) and not isz(seg.code):
    return seg.code
  return None


def all_le(I, v, m):
  """Every code <= m?  True / False / formula-decided."""
  ctx = I.ctx
  for s in rope(v).segs:
    mc = maxcode(s)
    if mc is not None and mc <= m:
      continue
    if isinstance(s, Rep):
      if ctx.entails(z3.And(tz(s.code) >= 0, tz(s.code) <= m)):
        continue
      return False
    if isinstance(s, Gen):
      i = ctx.fresh('ch')
      facts = []
      x = tz(s.at(i, facts))
      if ctx._check(z3.Or(x > m, x < 0), i >= 0, i < tz(s.n), *facts)[0] == 'unsat':
        continue
      return False
    return False
  return True


def m_encode(I, v, a, k):
  enc = a[0] if a else k.get('encoding', 'utf-8')
  e = enc.lower().replace('_', '-')
  if not isinstance(v, S):
    try:
      return v.encode(enc)
    except UnicodeEncodeError:
      I.throw(UnicodeEncodeError, 'ordinal not in range')
  lim = 255 if e in ('latin-1', 'latin1', 'iso-8859-1', 'l1', 'iso8859-1') else 127
  if all_le(I, v, lim):
    return mkstr('bytes', v.segs)
  if lim == 255 or e in ('ascii', 'us-ascii'):
    ok = I.ctx.bapp('enc%d' % lim, (v,))
    if I.truth(ok):
      segs = []
      for s in v.segs:
        mc = maxcode(s)
        if mc is not None and mc <= lim:
          segs.append(s)
        elif isinstance(s, Rep):
          I.ctx.assume(z3.And(tz(s.code) >= 0, tz(s.code) <= lim))
          segs.append(s)
        elif isinstance(s, BS):
          b = I.ctx.app('narrow%d' % lim, (s.base.name,), lambda: narrow(I, s.base, lim))
          segs.append(BS(b, s.lo, s.hi))
        else:
          segs.append(s)
      return mkstr('bytes', segs)
    I.throw(UnicodeEncodeError, 'ordinal not in range')
  raise Unsupported('encode %s' % enc)


def narrow(I, base, lim):
  b = I.ctx.newbase('n_' + base.name, base.length, lim, base.excl, base.origin)
  b.fn = base.fn
  I.ctx.bases[b.fn.name()] = b
  return b


def m_decode(I, v, a, k):
  enc = a[0] if a else k.get('encoding', 'utf-8')
  e = enc.lower().replace('_', '-')
  if not isinstance(v, S):
    try:
      return v.decode(enc)
    except UnicodeDecodeError:
      I.throw(UnicodeDecodeError, 'decode')
  if e in ('latin-1', 'latin1', 'iso-8859-1', 'l1', 'iso8859-1') or all_le(I, v, 127):
    return mkstr('str', v.segs)
  raise Unsupported('decode %s' % enc)


def m_replace(I, v, a, k):
  x, y = a[0], a[1]
  if not any(isinstance(q, S) for q in (v, x, y)):
    return v.replace(x, y)
  if isinstance(x, S) or isinstance(y, S) or len(x) != 1:
    raise Unsupported('replace')
  kind = strkind(v)
  c = ord(x) if kind == 'str' else x[0]
  ycodes = codes_of(y)
  out = []
  for s in v.segs:
    if seg_excludes(s, c):
      out.append(s)
    elif isinstance(s, Lit):
      cs = []
      for q in s.codes:
        cs.extend(ycodes if q == c else [q])
      if cs:
        out.append(Lit(cs))
    elif isinstance(s, Rep) and not isz(s.code):
      if len(ycodes) == 0:
        continue
      if len(ycodes) == 1:
        out.append(Rep(ycodes[0], s.n))
      else:
        raise Unsupported('replace')
    elif len(ycodes) == 1:
      d = ycodes[0]
      out.append(Gen(s.length, lambda i, facts, s=s: (
          lambda t: z3.If(tz(t) == c, z3.IntVal(d), tz(t)))(s.at(i, facts))))
    elif not ycodes:
      # deletion from arbitrary text: an uninterpreted, shorter string without c
      mc = maxcode(s) or 0x10ffff
      n = I.ctx.fresh('dellen')
      I.ctx.add(z3.And(n >= 0, n <= tz(s.length)))
      whole = mkstr(kind, [s])
      ex = s.base.excl if isinstance(s, BS) else frozenset()
      r = I.ctx.sapp('del%d' % c, (whole,), n, kind, mc, ex | frozenset([c]))
      out.extend(rope(r).segs)
    else:
      raise Unsupported('replace')
  return mkstr(kind, out)


def m_splitlines(I, v, a, k):
  if not isinstance(v, S):
    return PList(v.splitlines(*a), I.ctx.newserial())
  if all(all(seg_excludes(s, c) for c in LINEBREAKS) and
         (maxcode(s) or 0x10ffff) <= 255 for s in v.segs):
    if I.truth(v):
      return PList([v], I.ctx.newserial())
    return PList([], I.ctx.newserial())
  if a and I.truth(a[0]):
    raise Unsupported('splitlines(True)')
  l = LinesV(I)
  l.src = v
  return l


def m_join(I, v, a, k):
  ctx = I.ctx
  x = a[0]
  if isinstance(x, LinesV):
    if v != '':
      raise Unsupported('join lines')
    src = x.src
    # ''.join(s.splitlines()) deletes exactly the line boundaries: segment-wise
    out = []
    for s in rope(src).segs:
      if all(seg_excludes(s, c) for c in LINEBREAKS) and (maxcode(s) or 0x10ffff) <= 0x2027:
        out.append(s)
      elif isinstance(s, Lit):
        cs = [c for c in s.codes if c not in LINEBREAKS and c not in (0x2028, 0x2029)]
        if cs:
          out.append(Lit(cs))
      elif isinstance(s, Rep) and not isz(s.code):
        if s.code not in LINEBREAKS and s.code not in (0x2028, 0x2029):
          out.append(s)
      else:
        n = ctx.fresh('joinlen')
        ex = s.base.excl if isinstance(s, BS) else frozenset()
        r = ctx.sapp('nolines', (mkstr('str', [s]),), lambda: n, 'str',
                     maxcode(s) or 0x10ffff, ex | LINEBREAKS)
        ctx.add(z3.And(tz(slen(r)) >= 0, tz(slen(r)) <= tz(s.length)))
        out.extend(rope(r).segs)
    return mkstr('str', out)
  kind = strkind(v)
  r = I.iterate(x)
  if isinstance(r, tuple):
    if r[0] == 'coll':
      return r[1].join(I, v)
    if v not in ('', b''):
      raise Unsupported('join with a separator')
    n, at = r[1], r[2]
    g = x.sym if isinstance(x, PList) else x
    if isinstance(g, GList) and getattr(g, 'constlen', None):
      L, fs, code = g.constlen, g.fs, g.code
      def ch(i, facts):
        q = simp(tz(i) / L)
        m = simp(tz(i) % L)
        c = code(q)
        t = fs[-1](c)
        for j in range(L - 2, -1, -1):
          t = z3.If(tz(m) == j, fs[j](c), t)
        return t
      return mkstr(kind, [Gen(tmul(n, L), ch)])
    # single characters?
    i = ctx.fresh('ji')
    ctx.push()
    try:
      ctx.generic.append(GenericCtx(ctx.serial))
      try:
        ctx.add(z3.And(i >= 0, i < tz(n)))
        e = at(i)
        one = strkind(e) == kind and ctx.entails(tz(slen(e)) == 1)
      finally:
        ctx.generic.pop()
    finally:
      ctx.pop()
    if strkind(e) != kind:
      I.throw(TypeError, 'sequence item: expected str instance')
    if not one:
      raise Unsupported('join of symbolic-length pieces')
    def ch1(j, facts):
      return ctx.at_t(at(j), 0, facts)
    return mkstr(kind, [Gen(n, ch1)])
  out = '' if kind == 'str' else b''
  for i, s in enumerate(r):
    if strkind(s) != kind:
      I.throw(TypeError, 'sequence item %d: expected str instance' % i)
    if i:
      out = ctx.concat(out, v)
    out = ctx.concat(out, s)
  return out


def m_lstrip(I, v, a, k):
  ctx = I.ctx
  if not isinstance(v, S):
    if a and isinstance(a[0], S):
      raise Unsupported('lstrip')
    return v.lstrip(*a)
  if not a or isinstance(a[0], S) or len(a[0]) != 1:
    raise Unsupported('lstrip of whitespace')
  kind = v.kind
  c = ord(a[0]) if kind == 'str' else a[0][0]
  segs = list(v.segs)
  while segs:
    s = segs[0]
    if isinstance(s, Lit):
      j = 0
      while j < len(s.codes) and s.codes[j] == c:
        j += 1
      if j < len(s.codes):
        return mkstr(kind, [Lit(s.codes[j:])] + segs[1:])
      segs.pop(0)
      continue
    if isinstance(s, Rep):
      if not ctx.decide(tz(s.n) > 0):
        segs.pop(0)
        continue
      if ctx.decide(tz(s.code) == c):
        segs.pop(0)
        continue
      return mkstr(kind, segs)
    # z = length of the maximal prefix of c's in s
    one = mkstr(kind, [s])
    L = s.length
    def mkz():
      z = ctx.fresh('lz')
      ctx.add(z3.And(z >= 0, z <= tz(L)))
      facts = []
      x = tz(s.at(z, facts))
      ctx.add(z3.Implies(z < tz(L), x != c))
      j = z3.Int('qz!%d' % ctx.n)
      if isinstance(s, BS):
        lo = tz(s.lo)
        ctx.add(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < lo + z), s.base.fn(j) == c),
                          patterns=[s.base.fn(j)]))
      else:
        ff = []
        y = tz(s.at(j, ff))
        ctx.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z), y == c)))
      return z
    z = ctx.app('lstrip%d' % c, (one,), mkz)
    if ctx.decide(z == tz(L)):
      segs.pop(0)
      continue
    _, rest = ctx._splitseg(s, z)
    return mkstr(kind, [rest] + segs[1:])
  return '' if kind == 'str' else b''


def m_rstrip(I, v, a, k):
  if not isinstance(v, S):
    return v.rstrip(*a)
  if not a or isinstance(a[0], S) or len(a[0]) != 1:
    raise Unsupported('rstrip of whitespace')
  c = ord(a[0]) if v.kind == 'str' else a[0][0]
  segs = list(v.segs)
  while segs:
    s = segs[-1]
    if seg_excludes(s, c):
      if I.ctx.decide(tz(s.length) > 0):
        return mkstr(v.kind, segs)
      segs.pop()
    elif isinstance(s, Rep) and not isz(s.code) and s.code == c:
      segs.pop()
    elif isinstance(s, Lit):
      j = len(s.codes)
      while j and s.codes[j - 1] == c:
        j -= 1
      if j:
        return mkstr(v.kind, segs[:-1] + [Lit(s.codes[:j])])
      segs.pop()
    else:
      # z = length of the maximal suffix of c's in s
      ctx = I.ctx
      L = s.length

      def mkz():
        z = ctx.fresh('rz')
        ctx.add(z3.And(z >= 0, z <= tz(L)))
        facts = []
        x = tz(s.at(tz(L) - z - 1, facts))
        ctx.add(z3.Implies(z < tz(L), x != c))
        j = z3.Int('qz!%d' % ctx.n)
        if isinstance(s, BS):
          hi = tz(s.lo) + tz(L)
          ctx.add(z3.ForAll([j], z3.Implies(z3.And(j >= hi - z, j < hi), s.base.fn(j) == c),
                            patterns=[s.base.fn(j)]))
        else:
          ff = []
          y = tz(s.at(j, ff))
          ctx.add(z3.ForAll([j], z3.Implies(z3.And(j >= tz(L) - z, j < tz(L)), y == c)))
        return z
      z = ctx.app('rstrip%d' % c, (mkstr(v.kind, [s]),), mkz)
      if ctx.decide(z == tz(L)):
        segs.pop()
        continue
      head, _ = ctx._splitseg(s, tsub(L, z))
      return mkstr(v.kind, segs[:-1] + [head])
  return '' if v.kind == 'str' else b''


def m_startswith(I, v, a, k):
  p = a[0]
  if isinstance(p, tuple):
    return any(m_startswith(I, v, [x], k) for x in p)
  if not isinstance(v, S) and not isinstance(p, S):
    return v.startswith(p)
  n = slen(p)
  if not I.ctx.decide(tz(slen(v)) >= tz(n)):
    return False
  return I.ctx.decide_streq(I.ctx.slice(v, 0, mkint(n)), p)


def m_endswith(I, v, a, k):
  p = a[0]
  if isinstance(p, tuple):
    return any(m_endswith(I, v, [x], k) for x in p)
  if not isinstance(v, S) and not isinstance(p, S):
    return v.endswith(p)
  n, L = slen(p), slen(v)
  if not I.ctx.decide(tz(L) >= tz(n)):
    return False
  return I.ctx.decide_streq(I.ctx.slice(v, mkint(tsub(L, n)), None), p)


def m_just(left):
  def f(I, v, a, k):
    ctx = I.ctx
    w = iterm(a[0])
    fill = a[1] if len(a) > 1 else ' '
    n = slen(v)
    if not isz(w) and not isz(n) and not isinstance(v, S):
      return v.ljust(w, fill) if left else v.rjust(w, fill)
    d = tsub(w, n)
    pad = repeat(I, fill, mkint(d))
    return ctx.concat(v, pad) if left else ctx.concat(pad, v)
  return f


def concrete_method(name):
  def f(I, v, a, k):
    if isinstance(v, S) or any(isinstance(x, (S, SInt)) for x in a):
      if name in ('lower', 'upper'):
        if len(v.segs) == 1 and isinstance(v.segs[0], BS):
          return I.ctx.sapp('str' + name, (v,), slen(v), v.kind, 0x10ffff)
      raise Unsupported('str.%s' % name)
    r = getattr(v, name)(*a)
    if isinstance(r, list):
      return PList(r, I.ctx.newserial())
    return r
  return f


def m_translate(I, v, a, k):
  if not isinstance(v, S) and isinstance(a[0], (bytes, str)):
    return v.translate(a[0])
  raise Unsupported('translate')


def m_strformat(I, v, a, k):
  import string as _s
  if isinstance(v, S):
    raise Unsupported('format')
  out = ''
  auto = 0
  for lit, field, spec, conv in _s.Formatter().parse(v):
    out = I.ctx.concat(out, lit)
    if field is None:
      continue
    if field == '':
      x = a[auto]
      auto += 1
    elif field.isdigit():
      x = a[int(field)]
    else:
      if field not in k:
        raise Unsupported('format field')
      x = k[field]
    out = I.ctx.concat(out, b_format(I, [x, spec or ''], {}) if conv != 'r' else to_repr(I, x))
  return out


def m_strip(I, v, a, k):
  if not isinstance(v, S):
    return v.strip(*a)
  return m_rstrip(I, m_lstrip(I, v, a, k), a, k)


def m_zfill(I, v, a, k):
  if not isinstance(v, S):
    return v.zfill(a[0])
  # digits only (no sign) is what the repository uses
  return m_just(False)(I, v, [a[0], '0'], k)


STRM = dict(encode=m_encode, decode=m_decode, replace=m_replace, splitlines=m_splitlines,
            join=m_join, lstrip=m_lstrip, rstrip=m_rstrip, startswith=m_startswith,
            endswith=m_endswith, rjust=m_just(False), ljust=m_just(True),
            translate=m_translate, format=m_strformat, strip=m_strip, zfill=m_zfill)
for _n in ('lower', 'upper', 'split', 'rsplit', 'find', 'rfind', 'index', 'count', 'isdigit',
           'isalpha', 'partition', 'rpartition', 'title', 'capitalize', 'hex', 'isalnum', 'isspace'):
  STRM[_n] = concrete_method(_n)


def sep_pieces(I, v, sep, what):
  """The pieces of v between occurrences of the one-character separator."""
  if not isinstance(v, S) or isinstance(sep, S) or strkind(sep) != v.kind or len(sep) != 1:
    raise Unsupported('str.' + what)
  c = codes_of(sep)[0]
  out = [[]]
  for g in v.segs:
    if seg_excludes(g, c):
      out[-1].append(g)
    elif isinstance(g, Lit):
      cur = []
      for q in g.codes:
        if q == c:
          if cur:
            out[-1].append(Lit(cur))
          cur = []
          out.append([])
        else:
          cur.append(q)
      if cur:
        out[-1].append(Lit(cur))
    else:
      raise Unsupported('str.%s of arbitrary text' % what)
  return [mkstr(v.kind, x) for x in out]


def m_split(I, v, a, k):
  mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
  sep = a[0] if a else k.get('sep')
  if not isinstance(v, S) and not isinstance(sep, S) and isinstance(mx, int):
    return PList(v.split(sep, mx), I.ctx.newserial())
  if sep is None or not isinstance(mx, int):
    raise Unsupported('str.split')
  ps = sep_pieces(I, v, sep, 'split')
  if mx >= 0 and len(ps) > mx + 1:
    t = ps[mx]
    for x in ps[mx + 1:]:
      t = I.ctx.concat(I.ctx.concat(t, sep), x)
    ps = ps[:mx] + [t]
  return PList(ps, I.ctx.newserial())


def m_partition(I, v, a, k):
  if not isinstance(v, S) and not isinstance(a[0], S):
    return v.partition(a[0])
  ps = sep_pieces(I, v, a[0], 'partition')
  e = '' if v.kind == 'str' else b''
  if len(ps) == 1:
    return (v, e, e)
  t = ps[1]
  for x in ps[2:]:
    t = I.ctx.concat(I.ctx.concat(t, a[0]), x)
  return (ps[0], a[0], t)


def m_find(name):
  def f(I, v, a, k):
    if not isinstance(v, S) and not any(isinstance(x, (S, SInt)) for x in a):
      try:
        return getattr(v, name)(*a)
      except ValueError:
        I.throw(ValueError, 'substring not found')
    if len(a) != 1:
      raise Unsupported('str.' + name)
    ps = sep_pieces(I, v, a[0], name)
    if len(ps) == 1:
      if name == 'index':
        I.throw(ValueError, 'substring not found')
      return -1
    return mkint(slen(ps[0]))
  return f


def m_count(I, v, a, k):
  if not isinstance(v, S) and not any(isinstance(x, (S, SInt)) for x in a):
    return v.count(*a)
  if len(a) != 1:
    raise Unsupported('str.count')
  return len(sep_pieces(I, v, a[0], 'count')) - 1


STRM.update(split=m_split, partition=m_partition, find=m_find('find'), index=m_find('index'), count=m_count)


def str_method(I, v, name):
  f = STRM.get(name)
  if f is None:
    return None
  if name == 'encode' and strkind(v) == 'bytes' or name == 'decode' and strkind(v) == 'str':
    return None
  return lambda I, a, k: f(I, v, a, k)


def l_append(I, v, a, k):
  I.track(v, '*')
  v.items.append(a[0])


def l_extend(I, v, a, k):
  r = I.iterate(a[0])
  if isinstance(r, tuple):
    raise Unsupported('extend by symbolic')
  I.track(v, '*')
  v.items.extend(r)


def l_insert(I, v, a, k):
  if v.sym is not None or not isinstance(a[0], int):
    raise Unsupported('insert')
  I.track(v, '*')
  v.items.insert(a[0], a[1])


def l_pop(I, v, a, k):
  I.track(v, '*')
  if v.sym is not None and not v.items:
    raise Unsupported('pop from symbolic list')
  if a and v.sym is not None:
    raise Unsupported('pop')
  if not v.items:
    I.throw(IndexError, 'pop from empty list')
  return v.items.pop(*a)


def l_reverse(I, v, a, k):
  I.track(v, '*')
  if v.sym is not None:
    if v.items:
      raise Unsupported('reverse mixed')
    g = v.sym
    v.sym = GList(g.n, lambda i: g.at(tsub(tsub(g.n, 1), i)))
  else:
    v.items.reverse()


def l_remove(I, v, a, k):
  if v.sym is not None:
    raise Unsupported('remove')
  for i, x in enumerate(v.items):
    if x is a[0] or I.truth(I.eq(x, a[0])):
      I.track(v, '*')
      del v.items[i]
      return
  I.throw(ValueError, 'list.remove(x): x not in list')


def l_index(I, v, a, k):
  if v.sym is not None:
    raise Unsupported('index')
  for i, x in enumerate(v.items):
    if x is a[0] or I.truth(I.eq(x, a[0])):
      return i
  I.throw(ValueError, 'not in list')


def l_sort(I, v, a, k):
  r = b_sorted(I, [v], k)
  I.track(v, '*')
  v.items = r.items


def l_copy(I, v, a, k):
  p = PList(v.items, I.ctx.newserial())
  p.sym = v.sym
  return p


def l_count(I, v, a, k):
  return sum(1 for x in v.items if x is a[0] or I.truth(I.eq(x, a[0])))


def l_clear(I, v, a, k):
  I.track(v, '*')
  v.items = []
  v.sym = None


LISTM = dict(append=l_append, extend=l_extend, insert=l_insert, pop=l_pop, reverse=l_reverse,
             remove=l_remove, index=l_index, sort=l_sort, copy=l_copy, count=l_count,
             clear=l_clear)


def d_pop(I, v, a, k):
  i = I.dict_find(v, a[0])
  if i < 0:
    if len(a) > 1:
      return a[1]
    I.throw(KeyError, a[0])
  I.track(v, '*')
  r = v.entries[i][1]
  del v.entries[i]
  return r


def d_setdefault(I, v, a, k):
  i = I.dict_find(v, a[0])
  if i >= 0:
    return v.entries[i][1]
  I.dict_set(v, a[0], a[1] if len(a) > 1 else None)
  return a[1] if len(a) > 1 else None


def d_get(I, v, a, k):
  r = I.dict_get(v, a[0])
  return (a[1] if len(a) > 1 else None) if r is Undefined else r


def d_update(I, v, a, k):
  for kk, x in b_dict(I, a, k).entries:
    I.dict_set(v, kk, x)


def d_clear(I, v, a, k):
  I.track(v, '*')
  v.entries = []


DICTM = dict(keys=lambda I, v, a, k: PList([x for x, _ in v.entries], I.ctx.newserial()),
             values=lambda I, v, a, k: PList([x for _, x in v.entries], I.ctx.newserial()),
             items=lambda I, v, a, k: PList([(p, q) for p, q in v.entries], I.ctx.newserial()),
             get=d_get, pop=d_pop, setdefault=d_setdefault, update=d_update, clear=d_clear,
             copy=lambda I, v, a, k: PDict(v.entries, I.ctx.newserial()))


def s_add(I, v, a, k):
  if not any(I.truth(I.eq(x, a[0])) for x in v.items):
    I.track(v, '*')
    v.items.append(a[0])


SETM = dict(add=s_add)


def i_bit_length(I, v, a, k):
  t = iterm(v)
  if not isz(t):
    return t.bit_length()
  return mkint(bitlen_f(t))


def i_to_bytes(I, v, a, k):
  n = a[0] if a else k['length']
  order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
  t, L = iterm(v), iterm(n)
  if not isz(t) and not isz(L):
    try:
      return t.to_bytes(L, order)
    except OverflowError:
      I.throw(OverflowError, 'int too big to convert')
  if not isz(L) and L <= 8 and order == 'big':
    if not I.ctx.decide(z3.And(tz(t) >= 0, tz(t) < 256 ** L)):
      I.throw(OverflowError, 'int too big to convert')
    return mkstr('bytes', [Rep(simp((tz(t) / 256 ** (L - 1 - i)) % 256), 1) for i in range(L)])
  ctx = I.ctx
  if order == 'big' and not k.get('signed') and isz(t) and ctx.entails(t >= 0):
    if not ctx.decide(tz(L) >= 0):
      I.throw(ValueError, 'length argument must be non-negative')
    R = DIGITS_OF(ctx, v)
    # bit_length: 2^(b-1) <= n < 2^b for n > 0
    b = simp((bitlen_f(t) + 7) / 8)
    ctx.add(R(tz(b)) == 0)
    ctx.add(z3.Or(t == 0, R(simp(tz(b) - 1)) >= 1))
    if not ctx.decide(R(tz(L)) == 0):
      I.throw(OverflowError, 'int too big to convert')
    return mkstr('bytes', [Gen(tz(L), lambda i, facts: simp(R(simp(tz(L) - 1 - tz(i))) % 256))])
  raise Unsupported('int.to_bytes')


def int_from_bytes(I, a, k):
  b = a[0] if a else k.get('bytes')
  order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
  if strkind(b) != 'bytes' or order not in ('big', 'little') or k.get('signed'):
    raise Unsupported('int.from_bytes')
  if not isinstance(b, S):
    return int.from_bytes(b, order)
  if order != 'big':
    raise Unsupported('int.from_bytes')
  return SInt(VALUE_OF(I.ctx, b)(tz(slen(b))))


VALUE_OF = DIGITS_OF = None       # specs/contracts.py
INTM = dict(bit_length=i_bit_length, to_bytes=i_to_bytes)


def f_is_integer(I, v, a, k):
  return float(v).is_integer()


def method(I, o, name):
  if isinstance(o, NativeFn) and o.name == 'int' and name == 'from_bytes':
    return NativeFn('from_bytes', int_from_bytes)
  if strkind(o):
    f = str_method(I, o, name)
    return NativeFn(name, f) if f else Undefined
  for cls, tab in ((PList, LISTM), (PDict, DICTM), (PSet, SETM)):
    if isinstance(o, cls):
      f = tab.get(name)
      return NativeFn(name, lambda I, a, k: f(I, o, a, k)) if f else Undefined
  if isinstance(o, (int, SInt)):
    f = INTM.get(name)
    return NativeFn(name, lambda I, a, k: f(I, o, a, k)) if f else Undefined
  if isinstance(o, tuple):
    if name in ('index', 'count'):
      f = LISTM[name]
      return NativeFn(name, lambda I, a, k: f(I, PList(o), a, k))
  if isinstance(o, Coll):
    return o.attr(I, name)
  return Undefined
