"""Core of pyvc: symbolic values, path contexts, path explorer, obligations.

A *spec* is a host-Python function spec(ctx).  It builds a symbolic pre-state,
runs functions of /repo (interpreted from their AST by pyvc.interp) and states
obligations with ctx.prove*.  The explorer enumerates every feasible path by
re-execution with a decision prefix.  Strings are ropes over uninterpreted
contents; every question about them is a QF_UFLIA (+ a few lemma instances)
query to z3.
"""
import itertools
import subprocess
import tempfile
import os
import time
import z3

z3.set_param('smt.random_seed', 0)


class Unsupported(Exception):
  """A construct outside the engine's reach (=> undecided, never a violation)."""


class PathEnd(Exception):
  """This path is finished (infeasible, or the inductive step of a loop)."""


class Restart(Exception):
  """Loop database changed: explore again."""


class Budget(Exception):
  """Time or path budget exhausted (=> undecided)."""


class SInt(object):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return 'SInt(%s)' % self.t


class SBool(object):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return 'SBool(%s)' % self.t


class SReal(object):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t


def isz(x):
  return isinstance(x, z3.ExprRef)


_SIMP = {}       # id of a term -> (the term, kept alive, and its simplification)
_INTS = {}
_FRONT = {}      # id of a term -> (the term, its topmost uninterpreted applications)


def simp(t):
  if not isz(t):
    return t
  i = t.get_id()
  r = _SIMP.get(i)
  if r is not None:
    return r[1]
  s = z3.simplify(t)
  if z3.is_int_value(s):
    s = s.as_long()
  elif z3.is_true(s):
    s = True
  elif z3.is_false(s):
    s = False
  elif z3.is_mod(s) or z3.is_idiv(s):
    s = quotients(s)
  if len(_SIMP) > 300000:
    _SIMP.clear()
  _SIMP[i] = (t, s)
  return s


def quotients(t):
  """(p mod a) mod c = p mod c and ((p mod a) div b) mod c = (p div b) mod c where c, bc divide a;
  (p div a) div b = p div ab (positive constants)."""
  def const(x):
    return x.as_long() if z3.is_int_value(x) and x.as_long() > 0 else None
  x, c = t.arg(0), const(t.arg(1))
  if c is None:
    return t
  if z3.is_mod(t):
    if z3.is_mod(x) and const(x.arg(1)) and const(x.arg(1)) % c == 0:
      return x.arg(0) % c
    if z3.is_idiv(x) and const(x.arg(1)) and z3.is_mod(x.arg(0)):
      a, b = const(x.arg(0).arg(1)), const(x.arg(1))
      if a and a % (b * c) == 0:
        return (x.arg(0).arg(0) / b) % c
  elif z3.is_idiv(x) and const(x.arg(1)):
    return x.arg(0) / (const(x.arg(1)) * c)
  return t


def frontier(t):
  """The topmost applications of uninterpreted functions (not constants) in t."""
  i = t.get_id()
  r = _FRONT.get(i)
  if r is not None:
    return r[1]
  if not z3.is_app(t) or not t.num_args():
    out = ()
  elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
    out = (t,)
  else:
    out = below(t)
  if len(_FRONT) > 300000:
    _FRONT.clear()
  _FRONT[i] = (t, out)
  return out


def decimal(v):
  """The number of which v is the decimal form, or None."""
  g = rope(v).segs
  if (len(g) == 1 and isinstance(g[0], BS) and g[0].base.origin and g[0].base.origin[0] == 'itoa'
      and tsame(g[0].lo, 0) and tsame(g[0].hi, g[0].base.length)):
    return iterm(g[0].base.origin[1][0])
  try:
    return int(v) if isinstance(v, str) and str(int(v)) == v else None
  except ValueError:
    return None


def below(t):
  out = {}
  for c in t.children():
    for a in frontier(c):
      out[a.get_id()] = a
  return tuple(out.values())


def tz(t):
  """T -> z3 term"""
  if isz(t):
    return t
  t = int(t)
  r = _INTS.get(t)
  if r is None:
    r = z3.IntVal(t)
    if len(_INTS) < 10000:
      _INTS[t] = r
  return r


def tadd(a, b):
  if not isz(a) and not isz(b):
    return a + b
  return simp(tz(a) + tz(b))


def tsub(a, b):
  if not isz(a) and not isz(b):
    return a - b
  return simp(tz(a) - tz(b))


def tmul(a, b):
  if not isz(a) and not isz(b):
    return a * b
  return simp(tz(a) * tz(b))


def tsame(a, b):
  if not isz(a) and not isz(b):
    return a == b
  if isz(a) and isz(b):
    if a.eq(b):
      return True
    d = simp(a - b)
    return not isz(d) and d == 0
  return False


def mkint(t):
  if isinstance(t, (SInt, int)):
    return t
  t = simp(t)
  return SInt(t) if isz(t) else t


def mkbool(t):
  if isinstance(t, (SBool, bool)):
    return t
  t = simp(t)
  return SBool(t) if isz(t) else bool(t)


def iterm(v):
  """int value (int | bool | SInt | SBool) -> T"""
  if isinstance(v, SInt):
    return v.t
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, int):
    return v
  if isinstance(v, SBool):
    return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
  raise Unsupported('integer expected, got %r' % (type(v).__name__,))


bxor_f = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())
bor_f = z3.Function('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())
band_f = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
pow256_f = z3.Function('pow256', z3.IntSort(), z3.IntSort())
e64_f = z3.Function('e64', z3.IntSort(), z3.IntSort())
d64_f = z3.Function('d64', z3.IntSort(), z3.IntSort())
bitlen_f = z3.Function('bitlen', z3.IntSort(), z3.IntSort())


def _l_xor(ctx, r, walked):
  x, y = r.arg(0), r.arg(1)
  a, b, c = bxor_f(y, x), bxor_f(r, y), bxor_f(r, x)
  ctx.mark(walked, a, b, c)
  return [z3.Implies(z3.And(x >= 0, x <= 255, y >= 0, y <= 255), z3.And(r >= 0, r <= 255)),
          (r == 0) == (x == y), a == r, b == x, c == y,
          z3.Implies(x == 0, r == y), z3.Implies(y == 0, r == x)]


def _l_or(ctx, r, walked):
  x, y = r.arg(0), r.arg(1)
  pos = z3.And(x >= 0, y >= 0)
  return [z3.Implies(pos, z3.And(r >= x, r >= y, r <= x + y)),
          (r == 0) == z3.And(x == 0, y == 0),
          z3.Implies(z3.And(x % 256 == 0, y >= 0, y <= 255), r == x + y),
          z3.Implies(z3.And(y % 256 == 0, x >= 0, x <= 255), r == x + y),
          z3.Implies(z3.And(pos, x <= 255, y <= 255), r <= 255)]


def _l_and(ctx, r, walked):
  x, y = r.arg(0), r.arg(1)
  return [z3.Implies(x >= 0, z3.And(r >= 0, r <= x)),
          z3.Implies(y >= 0, z3.And(r >= 0, r <= y)),
          z3.Implies(x == y, r == x)]


def _l_pow(ctx, r, walked):
  k = r.arg(0)
  p = pow256_f(k - 1)
  ctx.mark(walked, p, z3.simplify(p))
  return [z3.Implies(k >= 0, r >= 1), z3.Implies(k == 0, r == 1),
          z3.Implies(k >= 1, r == 256 * pow256_f(z3.simplify(k - 1)))]


def _l_e64(ctx, r, walked):
  v = r.arg(0)
  d = d64_f(r)
  ctx.mark(walked, d)
  return [z3.Implies(z3.And(v >= 0, v <= 63),
                     z3.And(d == v, r >= 45, r <= 122, r != 61))]


def _l_d64(ctx, r, walked):
  return [r >= 0, r <= 63]


def _l_bitlen(ctx, r, walked):
  x = r.arg(0)
  return [z3.Implies(x >= 0, r >= 0), z3.Implies(x >= 1, r >= 1),
          (r == 0) == (x == 0)]


ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
# the functions the lemmas are about, on the arguments where they are defined
MEANING = {
    'bxor': lambda x, y: x ^ y, 'bor': lambda x, y: x | y, 'band': lambda x, y: x & y,
    'pow256': lambda k: 256 ** k if 0 <= k <= 4096 else None,
    'bitlen': lambda x: x.bit_length(),
    'e64': lambda v: ord(ALPHABET[v]) if 0 <= v <= 63 else None,
    'd64': lambda c: ALPHABET.find(chr(c)) if 0 < c < 256 and chr(c) in ALPHABET else None}

LEMMAS = {'bxor': _l_xor, 'bor': _l_or, 'band': _l_and, 'pow256': _l_pow,
          'e64': _l_e64, 'd64': _l_d64, 'bitlen': _l_bitlen}


# --------------------------------------------------------------------------
# ropes

class Base(object):
  """An uninterpreted finite sequence of character codes."""
  __slots__ = ('name', 'length', 'fn', 'maxcode', 'excl', 'origin', 'defn', 'parts')

  def __init__(self, name, length, maxcode=255, excl=frozenset(), origin=None):
    self.defn = None        # i -> T, definition of the i-th code
    self.parts = None
    self.name = name
    self.length = length
    self.fn = z3.Function('c_' + name, z3.IntSort(), z3.IntSort())
    self.maxcode = maxcode
    self.excl = excl        # codes that never occur
    self.origin = origin

  def __repr__(self):
    return '<%s>' % self.name


class Lit(object):
  __slots__ = ('codes',)

  def __init__(self, codes):
    self.codes = tuple(codes)

  @property
  def length(self):
    return len(self.codes)

  def at(self, i, facts):
    if not isz(i):
      return self.codes[i] if 0 <= i < len(self.codes) else 0
    r = z3.IntVal(self.codes[-1] if self.codes else 0)
    for j in range(len(self.codes) - 2, -1, -1):
      r = z3.If(i == j, z3.IntVal(self.codes[j]), r)
    return r

  def __repr__(self):
    return 'Lit%r' % (''.join(map(chr, self.codes)),)


class BS(object):
  """base[lo:hi]"""
  __slots__ = ('base', 'lo', 'hi')

  def __init__(self, base, lo, hi):
    self.base, self.lo, self.hi = base, lo, hi

  @property
  def length(self):
    return tsub(self.hi, self.lo)

  def at(self, i, facts):
    x = self.base.fn(tz(tadd(self.lo, i)))
    facts.append(z3.And(x >= 0, x <= self.base.maxcode))
    if len(self.base.excl) <= 4:
      for e in self.base.excl:
        facts.append(x != e)
    elif 0 in self.base.excl and max(self.base.excl) == len(self.base.excl) - 1:
      facts.append(x >= len(self.base.excl))
    return x

  def __repr__(self):
    return '%s[%s:%s]' % (self.base.name, self.lo, self.hi)


class Rep(object):
  __slots__ = ('code', 'n')

  def __init__(self, code, n):
    self.code, self.n = code, n

  @property
  def length(self):
    return self.n

  def at(self, i, facts):
    return self.code

  def __repr__(self):
    return 'Rep(%s x %s)' % (self.code, self.n)


class Gen(object):
  __slots__ = ('n', 'fn')

  def __init__(self, n, fn):
    self.n, self.fn = n, fn   # fn(i, facts) -> T

  @property
  def length(self):
    return self.n

  def at(self, i, facts):
    return self.fn(i, facts)

  def __repr__(self):
    return 'Gen(%s)' % (self.n,)


class S(object):
  """Symbolic str/bytes."""
  __slots__ = ('kind', 'segs')

  def __init__(self, kind, segs):
    self.kind = kind
    self.segs = tuple(segs)

  def __repr__(self):
    return 'S%s<%s>' % (self.kind[0], ' '.join(map(repr, self.segs)))


def strkind(v):
  if isinstance(v, S):
    return v.kind
  if isinstance(v, str):
    return 'str'
  if isinstance(v, (bytes, bytearray)):
    return 'bytes'
  return None


def codes_of(v):
  return [ord(c) for c in v] if isinstance(v, str) else list(v)


def rope(v):
  if isinstance(v, S):
    return v
  if isinstance(v, str):
    return S('str', [Lit(codes_of(v))] if v else [])
  if isinstance(v, (bytes, bytearray)):
    return S('bytes', [Lit(codes_of(v))] if v else [])
  raise Unsupported('string expected, got %s' % type(v).__name__)


def concrete_of(kind, codes):
  return ''.join(map(chr, codes)) if kind == 'str' else bytes(codes)


def seglen(s):
  return s.length


def normsegs(segs):
  out = []
  for s in segs:
    L = s.length
    if not isz(L) and L <= 0:
      continue
    if isinstance(s, Rep) and not isz(s.n) and not isz(s.code) and s.n <= 4096:
      s = Lit((s.code,) * s.n)
    if out:
      p = out[-1]
      if isinstance(p, Lit) and isinstance(s, Lit):
        out[-1] = Lit(p.codes + s.codes)
        continue
      if (isinstance(p, BS) and isinstance(s, BS) and p.base is s.base and
          tsame(p.hi, s.lo)):
        out[-1] = BS(p.base, p.lo, s.hi)
        continue
      if isinstance(p, Rep) and isinstance(s, Rep) and tsame(p.code, s.code):
        out[-1] = Rep(p.code, tadd(p.n, s.n))
        continue
    out.append(s)
  return out


def mkstr(kind, segs):
  segs = normsegs(segs)
  if not segs:
    return '' if kind == 'str' else b''
  if len(segs) == 1 and isinstance(segs[0], Lit):
    return concrete_of(kind, segs[0].codes)
  return S(kind, segs)


def slen(v):
  """Length as T."""
  if isinstance(v, S):
    n = 0
    for s in v.segs:
      n = tadd(n, s.length)
    return n
  return len(v)


# --------------------------------------------------------------------------

REG = {}


class GList(object):
  """A list of symbolic length; elements by index (value template)."""

  def __init__(self, n, at):
    self.n = n
    self.at = at      # at(T index) -> value


class PList(object):
  """Mutable list with known spine."""
  _serial = 0

  def __init__(self, items=None, serial=0):
    self.items = list(items or [])
    self.serial = serial
    self.sym = None   # GList when the spine is symbolic
    if serial:
      REG[serial] = self

  def __repr__(self):
    return 'PList(%r)' % (self.items,)


class Ref(object):
  """Base class for things with identity, mutable fields and a birth serial."""
  serial = 0


class Failure(object):
  def __init__(self, label, status, detail, model=None, inputs=None, path=None,
               reason=''):
    self.label = label
    self.status = status      # 'refuted' | 'unknown'
    self.detail = detail
    self.inputs = inputs or {}
    self.path = path
    self.reason = reason


class Stats(object):
  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.backend = {}


STATS = Stats()


FORK = ('fork',)


class Ctx(object):
  def __init__(self, ex, prefix):
    self.ex = ex
    REG.clear()
    self.prefix = prefix
    self.pos = 0
    self.taken = []
    self.solver = z3.Solver()
    self.limits(ex.decide_ms)
    self.abstracted = False   # a loop was replaced by its invariant on this path
    self.pc = []
    self.n = 0
    self.serial = 0
    self.apps = {}
    self.eqfacts = []
    self.inputs = {}
    self.frozen = []       # for-each loops: serials below which nothing may change
    self.generic = []      # stack of generic-index contexts (no forking)
    self.loops = []        # active loop contexts
    self.used = set()
    self.notes = []
    self.axioms = set()
    self.events = []
    self.merged = set()
    self.bases = {}
    self.walked = set()
    self.keep = []
    self.npcwalk = 0
    self.pcdone = []
    self.scopes = []
    self.lemma_hooks = {}

  def limits(self, ms):
    # a resource limit (the same on every machine and load), wall time as a backstop
    self.solver.set('rlimit', ms * 4000)
    self.solver.set('timeout', ms * 15)

  # -- basics
  def fresh(self, hint='x'):
    self.n += 1
    return z3.Int('%s!%d' % (hint, self.n))

  def freshb(self, hint='b'):
    self.n += 1
    return z3.Bool('%s!%d' % (hint, self.n))

  def newserial(self):
    self.serial += 1
    return self.serial

  def add(self, f):
    f = simp(f)
    if f is True:
      return
    if f is False:
      raise PathEnd()
    self.pc.append(f)
    self.solver.add(f)

  def push(self):
    self.scopes.append((len(self.pc), len(self.pcdone), set(self.walked)))
    self.solver.push()

  def pop(self):
    npc, nd, w = self.scopes.pop()
    self.solver.pop()
    del self.pc[npc:]
    self.npcwalk = min(self.npcwalk, npc)
    self.walked = w

  def lemmas(self, fs, walked, unfold=False, fuel=4):
    """Ground instances of the lemmas about the engine's own function symbols
    for every application occurring in fs."""
    out = []
    todo = [f for f in fs if isz(f)]
    while todo and fuel > 0:
      fuel -= 1
      new = []
      stack = [a for f in todo for a in frontier(f)]
      while stack:
        t = stack.pop()
        i = t.get_id()
        if i in walked:
          continue
        walked.add(i)
        self.keep.append(t)
        stack.extend(below(t))
        new.extend(self.instance(t, walked, unfold))
      out.extend(new)
      todo = new
    return out

  def mark(self, walked, *ts):
    for t in ts:
      walked.add(t.get_id())
      self.keep.append(t)

  def instance(self, t, walked, unfold):
    name = t.decl().name()
    b = self.bases.get(name)
    if b is not None:
      fs = [t >= 0, t <= b.maxcode]
      if len(b.excl) <= 12:
        fs += [t != e for e in b.excl]
      elif 0 in b.excl and max(b.excl) == len(b.excl) - 1:
        fs.append(t >= len(b.excl))
      if unfold and b.defn is not None:
        i = t.arg(0)
        fs.append(z3.Implies(z3.And(i >= 0, i < tz(b.length)), t == tz(b.defn(i))))
      return fs
    h = LEMMAS.get(name)
    if h is not None:
      return h(self, t, walked)
    h = self.lemma_hooks.get(name)
    if h is not None:
      return h(self, t, walked)
    return []

  def sync(self):
    """Lemma instances for the path condition added so far."""
    if self.npcwalk < len(self.pc):
      fs = self.lemmas(self.pc[self.npcwalk:], self.walked)
      self.npcwalk = len(self.pc)
      for f in fs:
        self.solver.add(f)

  def _check(self, *fs, unfold=False, model=False):
    if time.time() > self.ex.deadline:
      raise Budget('time budget')
    t0 = time.time()
    self.sync()
    self.solver.push()
    fs = [f if isz(f) else z3.BoolVal(bool(f)) for f in fs]
    for f in fs:
      self.solver.add(f)
    if unfold:
      extra = self.lemmas(fs + self.pc, set(), True)
    else:
      extra = self.lemmas(fs, set(self.walked))
    for f in extra:
      self.solver.add(f)
    r = self.solver.check()
    m = None
    if model and r == z3.sat:
      m = self.solver.model()
    self.solver.pop()
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    return str(r), m

  def entails(self, f):
    f = simp(f)
    if f is True:
      return True
    if f is False:
      return False
    return self._check(z3.Not(f))[0] == 'unsat'

  def feasible(self, f=True):
    f = simp(f)
    if f is False:
      return False
    return self._check(f)[0] != 'unsat'

  def assume(self, f):
    if isinstance(f, (SBool,)):
      f = f.t
    self.add(f)
    if not self.generic and self._check(True)[0] == 'unsat':
      raise PathEnd()

  # -- decisions
  def decide(self, f):
    """Concrete truth of f on this path; forks when both are possible."""
    if isinstance(f, SBool):
      f = f.t
    f = simp(f)
    if not isz(f):
      return bool(f)
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      self.taken.append(d)
      if d == FORK:
        raise NeedFork(None)
      self.add(f if d[0] else z3.Not(f))
      return d[0]
    can_t = self._check(f)[0] != 'unsat'
    can_f = True if not can_t else self._check(z3.Not(f))[0] != 'unsat'
    if can_t and can_f:
      if self.generic:
        self.needfork(f)
      self.ex.push(self.taken + [(False,)])
      d = (True,)
    elif can_t:
      d = (True,)
    elif can_f:
      d = (False,)
    else:
      raise PathEnd()
    self.pos += 1
    self.taken.append(d)
    self.add(f if d[0] else z3.Not(f))
    return d[0]

  def needfork(self, f=None):
    """A branch inside a generic context: refused, and refused again when the path is replayed."""
    self.pos += 1
    self.taken.append(FORK)
    raise NeedFork(f)

  def choose(self, n, hint=''):
    """Non-deterministic choice among range(n)."""
    if n == 1:
      return 0
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      self.taken.append(d)
      if d == FORK:
        raise NeedFork(None)
      return d[0]
    if self.generic:
      self.needfork()
    for j in range(n - 1, 0, -1):
      self.ex.push(self.taken + [(j,)])
    self.pos += 1
    self.taken.append((0,))
    return 0

  # -- strings
  def newbase(self, hint, length, maxcode=255, excl=frozenset(), origin=None):
    self.n += 1
    if isz(length):
      self.add(length >= 0)
    b = Base('%s!%d' % (hint, self.n), length, maxcode, excl, origin)
    self.bases[b.fn.name()] = b
    return b

  def freshstr(self, hint='s', length=None, kind='str', maxcode=255,
               excl=frozenset()):
    if length is None:
      length = self.fresh('len_' + hint)
      self.add(length >= 0)
    b = self.newbase(hint, length, maxcode, excl)
    return mkstr(kind, [BS(b, 0, length)])

  def at(self, v, i):
    """Character code at index i (0<=i<len assumed)."""
    facts = []
    t = self.at_t(v, i, facts)
    for f in facts:
      self.add(f)
    return t

  def at_t(self, v, i, facts):
    v = rope(v)
    i = simp(i)
    off = 0
    parts = []
    for s in v.segs:
      L = s.length
      end = tadd(off, L)
      if not isz(i) and not isz(off) and not isz(end):
        if off <= i < end:
          return s.at(i - off, facts)
        off = end
        continue
      parts.append((end, s, off))
      off = end
    if not parts:
      raise Unsupported('index out of rope')
    r = None
    for end, s, o in reversed(parts):
      x = s.at(tsub(i, o), facts)
      if r is None:
        r = x
      else:
        r = z3.If(tz(i) < tz(end), tz(x), tz(r))
    return simp(r)

  def concat(self, a, b):
    ka, kb = strkind(a), strkind(b)
    if not isinstance(a, S) and not isinstance(b, S):
      return a + b
    if ka != kb:
      raise Unsupported('concat of %s and %s' % (ka, kb))
    return mkstr(ka, list(rope(a).segs) + list(rope(b).segs))

  def _cut(self, segs, p):
    """Split the segment list at position p (0<=p<=total)."""
    if not isz(p) and p == 0:
      return [], list(segs)
    left = []
    off = 0
    segs = list(segs)
    for idx, s in enumerate(segs):
      L = s.length
      end = tadd(off, L)
      if tsame(p, off):
        return left, segs[idx:]
      if tsame(p, end):
        return left + [s], segs[idx + 1:]
      # where is p relative to end?
      loose = self.generic and not isinstance(s, Lit)      # empty pieces do no harm
      if not (loose and idx == len(segs) - 1) and self.decide(tz(p) >= tz(end)):
        left.append(s)
        off = end
        continue
      if not loose and self.decide(tz(p) <= tz(off)):
        return left, segs[idx:]
      q = tsub(p, off)
      a, b = self._splitseg(s, q)
      return left + [a], [b] + segs[idx + 1:]
    return left, []

  def _splitseg(self, s, q):
    if isinstance(s, Lit):
      if isz(q):
        # case split over the literal's positions
        for j in range(len(s.codes) + 1):
          if self.decide(tz(q) == j):
            q = j
            break
        else:
          raise PathEnd()
      return Lit(s.codes[:q]), Lit(s.codes[q:])
    if isinstance(s, BS):
      m = tadd(s.lo, q)
      return BS(s.base, s.lo, m), BS(s.base, m, s.hi)
    if isinstance(s, Rep):
      return Rep(s.code, q), Rep(s.code, tsub(s.n, q))
    if isinstance(s, Gen):
      f = s.fn
      return (Gen(q, f),
              Gen(tsub(s.n, q), lambda i, facts, f=f, q=q: f(tadd(i, q), facts)))
    raise Unsupported('split')

  def clampidx(self, i, n, default):
    """Python slice index normalisation -> T in [0,n]."""
    if i is None:
      return default
    i = iterm(i)
    if not isz(i) and not isz(n):
      if i < 0:
        i += n
      return max(0, min(i, n))
    if isz(i):
      neg = not self.decide(i >= 0)
    else:
      neg = i < 0
    if neg:
      i = tadd(n, i)
      if not self.decide(tz(i) >= 0):
        return 0
      return i
    if tsame(i, n):
      return n
    if self.decide(tz(i) <= tz(n)):
      return i
    return n

  def slice(self, v, lo, hi, step=None):
    if step is not None and step != 1:
      if step == -1 and lo is None and hi is None:
        return self.reverse(v)
      raise Unsupported('slice step')
    if not isinstance(v, S) and not isinstance(lo, SInt) and not isinstance(hi, SInt):
      return v[lo:hi]
    v = rope(v)
    n = slen(v)
    a = self.clampidx(lo, n, 0)
    b = self.clampidx(hi, n, n)
    if tsame(a, b):
      return '' if v.kind == 'str' else b''
    if not self.decide(tz(a) < tz(b)):
      return '' if v.kind == 'str' else b''
    try:
      _, right = self._cut(v.segs, a)
      # cut right at b-a
      left, _ = self._cut(right, tsub(b, a))
    except NeedFork:      # at an arbitrary index: character by character
      return mkstr(v.kind, [Gen(tsub(b, a), lambda i, facts: self.at_t(v, tadd(a, i), facts))])
    return mkstr(v.kind, left)

  def reverse(self, v):
    v = rope(v)
    n = slen(v)
    if not isinstance(v, S):
      return v[::-1]
    ctx = self
    return mkstr(v.kind, [Gen(n, lambda i, facts: ctx.at_t(v, tsub(tsub(n, 1), i), facts))])

  # -- equality of strings
  def quick_same(self, a, b):
    if not isinstance(a, S) and not isinstance(b, S):
      return a == b and strkind(a) == strkind(b)
    a, b = rope(a), rope(b)
    sa, sb = a.segs, b.segs
    if len(sa) != len(sb):
      return False
    for x, y in zip(sa, sb):
      if x is y:
        continue
      if type(x) is not type(y):
        return False
      if isinstance(x, Lit):
        if x.codes != y.codes:
          return False
      elif isinstance(x, BS):
        if x.base is not y.base or not tsame(x.lo, y.lo) or not tsame(x.hi, y.hi):
          return False
      elif isinstance(x, Rep):
        if not tsame(x.code, y.code) or not tsame(x.n, y.n):
          return False
      else:
        return False
    return True

  def ext_formula(self, a, b):
    """(facts, goal): validity of goal under facts is a == b."""
    la, lb = tz(slen(a)), tz(slen(b))
    i = self.fresh('sk')
    facts = []
    if not rope(a).segs or not rope(b).segs:
      return [], simp(la == lb)
    x = tz(self.at_t(a, i, facts))
    y = tz(self.at_t(b, i, facts))
    # facts hold for every index
    return facts, z3.And(la == lb, z3.Implies(z3.And(i >= 0, i < la), x == y))

  def str_eq_valid(self, a, b, merge=True):
    if self.quick_same(a, b):
      return True
    if not isinstance(a, S) and not isinstance(b, S):
      return False
    la, lb = slen(a), slen(b)
    if not isz(la) and not isz(lb) and la != lb:
      return False
    # known equalities
    if self._struct_eq(a, b):
      return True
    facts, goal = self.ext_formula(a, b)
    goal = simp(goal)
    if goal is True:
      return True
    if goal is False:
      return False
    fs = [f for f in facts]
    if self._check(z3.Not(goal), *fs)[0] == 'unsat':
      return True
    if self.has_defs(a, b) and self._check(z3.Not(goal), *fs, unfold=True)[0] == 'unsat':
      return True
    for (p, q) in list(self.eqfacts):
      if (self.quick_same(a, p) and self.quick_same(b, q)) or (
          self.quick_same(a, q) and self.quick_same(b, p)):
        return True
    if merge and self.merge_apps():
      return self.str_eq_valid(a, b, merge=True)
    return False

  def has_defs(self, *vs):
    return any(isinstance(x, BS) and x.base.defn is not None
               for v in vs for x in rope(v).segs)

  def _struct_eq(self, a, b):
    sa, sb = list(rope(a).segs), list(rope(b).segs)
    if len(sa) != len(sb):
      return False
    for x, y in zip(sa, sb):
      if type(x) is not type(y):
        return False
      if isinstance(x, Lit) and x.codes != y.codes:
        return False
      if isinstance(x, Gen) and x is not y:
        return False
      if isinstance(x, BS) and x.base is not y.base:
        return False
    for x, y in zip(sa, sb):
      if isinstance(x, BS):
        if not self.teq(x.lo, y.lo) or not self.teq(x.hi, y.hi):
          return False
      elif isinstance(x, Rep):
        if not self.teq(x.code, y.code) or not self.teq(x.n, y.n):
          return False
    return True

  def teq(self, a, b):
    if tsame(a, b):
      return True
    if not isz(a) and not isz(b):
      return a == b
    return self.entails(tz(a) == tz(b))

  def assume_streq(self, a, b):
    la, lb = slen(a), slen(b)
    self.add(simp(tz(la) == tz(lb)))
    self.eqfacts.append((a, b))
    n = None
    if not isz(la):
      n = la
    elif not isz(lb):
      n = lb
    if n is not None and n <= 300:
      for i in range(n):
        x, y = self.at(a, i), self.at(b, i)
        self.add(simp(tz(x) == tz(y)))
      return
    j = z3.Int('qj!%d' % self.n)
    self.n += 1
    for p, q in ((a, b), (b, a)):
      p = rope(p)
      if len(p.segs) == 1 and isinstance(p.segs[0], BS):
        s = p.segs[0]
        facts = []
        y = self.at_t(q, simp(j - tz(s.lo)), facts)
        body = z3.Implies(z3.And(j >= tz(s.lo), j < tz(s.hi)),
                          s.base.fn(j) == tz(y))
        self.add(z3.ForAll([j], body, patterns=[s.base.fn(j)]))
        break

  def assume_strne(self, a, b):
    la, lb = tz(slen(a)), tz(slen(b))
    if not rope(a).segs or not rope(b).segs:
      self.add(simp(la != lb))
      return
    w = self.fresh('w')
    facts = []
    x, y = self.at_t(a, w, facts), self.at_t(b, w, facts)
    for f in facts:
      self.add(f)
    self.add(z3.Or(la != lb, z3.And(w >= 0, w < la, tz(x) != tz(y))))

  def decide_streq(self, a, b):
    if not isinstance(a, S) and not isinstance(b, S):
      return a == b
    if strkind(a) != strkind(b):
      return False
    la, lb = slen(a), slen(b)
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      self.taken.append(d)
      if d == FORK:
        raise NeedFork(None)
      r = d[0]
    else:
      if self.quick_same(a, b):
        r, forked = True, False
      elif not isz(la) and not isz(lb) and la != lb:
        r, forked = False, False
      elif self.str_eq_valid(a, b):
        r, forked = True, False
      elif self._str_ne_valid(a, b):
        r, forked = False, False
      else:
        if self.generic:
          self.needfork()
        r, forked = True, True
        self.ex.push(self.taken + [(False,)])
      self.pos += 1
      self.taken.append((r,))
    if r:
      if not self.quick_same(a, b):
        self.assume_streq(a, b)
    else:
      self.assume_strne(a, b)
    return r

  def _strip_common(self, a, b):
    """Drops a common prefix; None if the strings differ right after it."""
    x, y = list(rope(a).segs), list(rope(b).segs)
    while x and y:
      p, q = x[0], y[0]
      if isinstance(p, Lit) and isinstance(q, Lit):
        n = min(len(p.codes), len(q.codes))
        k = 0
        while k < n and not isz(p.codes[k]) and not isz(q.codes[k]) and p.codes[k] == q.codes[k]:
          k += 1
        if k < n:
          if not isz(p.codes[k]) and not isz(q.codes[k]):
            return None
          if k == 0:
            break
        x[:1] = [Lit(p.codes[k:])] if p.codes[k:] else []
        y[:1] = [Lit(q.codes[k:])] if q.codes[k:] else []
        if k < n:
          break
      elif (isinstance(p, BS) and isinstance(q, BS) and p.base is q.base and
            tsame(p.lo, q.lo) and tsame(p.hi, q.hi)):
        del x[0], y[0]
      else:
        break
    return mkstr(rope(a).kind, x), mkstr(rope(b).kind, y)

  def _str_ne_valid(self, a, b):
    for f, x in self.notes_ne():
      if (self.quick_same(a, f) and self.quick_same(b, x)) or (
          self.quick_same(a, x) and self.quick_same(b, f)):
        return True
    r = self._strip_common(a, b)
    if r is None:
      return True
    a, b = r
    la, lb = slen(a), slen(b)
    x, y = decimal(a), decimal(b)
    if x is not None and y is not None:
      # the decimal form is injective
      return self.entails(tz(x) != tz(y))
    if self.entails(tz(la) != tz(lb)):
      return True
    n = la if not isz(la) else lb
    facts = []
    eqs = [tz(la) == tz(lb)]
    if isz(n) or n > 64 or n == 0:
      if not isz(n):
        return False
      # both of unknown length: compare the first characters
      if not self.entails(z3.And(tz(la) >= 1, tz(lb) >= 1)):
        return False
      n = 1
    for i in range(n):
      eqs.append(tz(self.at_t(a, i, facts)) == tz(self.at_t(b, i, facts)))
    return self._check(z3.And(*eqs), *facts)[0] == 'unsat'

  def notes_ne(self):
    return [n[1:] for n in self.notes if n[0] == 'ne']

  # -- uninterpreted applications
  def args_equal(self, xs, ys, deep=True):
    if len(xs) != len(ys):
      return False
    for x, y in zip(xs, ys):
      if x is y:
        continue
      kx, ky = strkind(x), strkind(y)
      if kx or ky:
        if kx != ky:
          return False
        if self.quick_same(x, y):
          continue
        if not deep or not self.str_eq_valid(x, y, merge=False):
          return False
        continue
      if isinstance(x, (SInt, int)) and isinstance(y, (SInt, int)):
        a, b = iterm(x), iterm(y)
        if tsame(a, b):
          continue
        if not deep or not self.teq(a, b):
          return False
        continue
      if isinstance(x, tuple) and isinstance(y, tuple):
        if not self.args_equal(x, y, deep):
          return False
        continue
      try:
        if type(x) is type(y) and x == y:
          continue
      except Exception:
        pass
      return False
    return True

  def app(self, fname, args, mk):
    lst = self.apps.setdefault(fname, [])
    for a, r in lst:
      if self.args_equal(a, args, deep=False):
        return r
    for a, r in lst:
      if self.args_equal(a, args, deep=True):
        return r
    r = mk()
    lst.append((tuple(args), r))
    return r

  def sapp(self, fname, args, length, kind='str', maxcode=255, excl=frozenset()):
    """String-valued uninterpreted function."""
    def mk():
      return self.newbase(fname, length() if callable(length) else length,
                          maxcode, excl, origin=(fname, tuple(args)))
    b = self.app(fname, args, mk)
    return mkstr(kind, [BS(b, 0, b.length)])

  def iapp(self, fname, args):
    return mkint(self.app(fname, args, lambda: self.fresh(fname)))

  def bapp(self, fname, args):
    return mkbool(self.app(fname, args, lambda: self.freshb(fname)))

  def merge_apps(self):
    """Congruence: equal arguments (under the current path) => equal results."""
    changed = False
    for fname, lst in list(self.apps.items()):
      for (i, (a, r)), (j, (b, q)) in itertools.combinations(list(enumerate(lst)), 2):
        k = (fname, i, j)
        if k in self.merged:
          continue
        if self.args_equal(a, b, deep=True):
          self.merged.add(k)
          if isinstance(r, Base):
            self.assume_streq(S('str', [BS(r, 0, r.length)]),
                              S('str', [BS(q, 0, q.length)]))
          elif isz(r):
            self.add(r == q)
          changed = True
    return changed

  def axiom(self, name, *fs):
    if name in self.axioms:
      return
    self.axioms.add(name)
    for f in fs:
      self.solver.add(f)
      self.pc.append(f)

  # -- obligations
  def prove(self, goal, label, detail=''):
    if isinstance(goal, SBool):
      goal = goal.t
    goal = simp(goal)
    self.ex.obl_total += 1
    self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
    if goal is True:
      self.ex.discharged(label, 'simplifier')
      return True
    if self.feas_concrete_false(goal):
      return self._failed(label, detail or str(goal), z3.BoolVal(False))
    self.limits(self.ex.prove_ms)
    r, m = self._check(z3.Not(goal), model=True)
    if r == 'sat' and any(b.defn is not None for b in self.bases.values()):
      r, m = self._check(z3.Not(goal), unfold=True, model=True)
    self.limits(self.ex.decide_ms)
    if r == 'unsat':
      self.ex.discharged(label, 'z3')
      return True
    if self.merge_apps():
      r, m = self._check(z3.Not(goal), model=True)
      if r == 'unsat':
        self.ex.discharged(label, 'z3')
        return True
    if r == 'unknown':
      if self._portfolio(z3.Not(goal)):
        self.ex.discharged(label, 'cvc5')
        return True
    return self._failed(label, detail or str(goal)[:400], goal, r, m)

  def feas_concrete_false(self, goal):
    return goal is False

  def _refine(self, neg, m, rounds=12):
    """A model has to give the bit and digit functions their meaning: where it does not, the
    true value is added as a fact and the solver asked again.  'unknown' when that does not end."""
    known = set()
    t0 = time.time()
    self.sync()
    self.solver.push()
    try:
      self.solver.set('timeout', 5000)
      self.solver.add(neg)
      for f in self.lemmas([neg], set(self.walked)):
        self.solver.add(f)
      apps = {}
      todo, seen = list(self.solver.assertions()), set()
      while todo:
        t = todo.pop()
        if t.get_id() in seen:
          continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
          continue
        if z3.is_app(t):
          if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() in MEANING:
            apps[t.get_id()] = t
          todo.extend(t.children())
      if not apps:
        return 'sat', m
      for _ in range(rounds):
        r = self.solver.check()
        if r != z3.sat:
          return str(r), None
        m = self.solver.model()
        new = 0
        for t in apps.values():
          args = [m.eval(x, model_completion=True) for x in t.children()]
          val = m.eval(t, model_completion=True)
          if not all(z3.is_int_value(x) for x in args + [val]):
            continue
          want = MEANING[t.decl().name()](*[x.as_long() for x in args])
          if want is not None and want != val.as_long():
            new += 1
            self.solver.add(z3.Implies(z3.And(*[x == y for x, y in zip(t.children(), args)]),
                                       t == want))
        if not new:
          return 'sat', m
      return 'unknown', None
    finally:
      self.solver.pop()
      self.limits(self.ex.decide_ms)
      STATS.queries += 1
      STATS.solver_s += time.time() - t0

  def _portfolio(self, neg):
    s = z3.Solver()
    for f in self.pc:
      s.add(f)
    s.add(neg)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
      with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
      t0 = time.time()
      p = subprocess.run(['cvc5', '--tlimit=%d' % self.ex.prove_ms, fn],
                         capture_output=True, text=True, timeout=self.ex.prove_ms / 1000 + 5)
      STATS.queries += 1
      STATS.solver_s += time.time() - t0
      return p.stdout.strip().startswith('unsat')
    except Exception:
      return False
    finally:
      try:
        os.unlink(fn)
      except OSError:
        pass

  def _failed(self, label, detail, goal, r=None, m=None):
    if r is None:
      # constant-false goal: is the path feasible at all?
      self.limits(self.ex.prove_ms)
      r, m = self._check(True, model=True)
      self.limits(self.ex.decide_ms)
      if r == 'unsat':
        self.ex.discharged(label, 'z3')
        return True
    if r == 'sat':
      r, m = self._refine(z3.Not(goal) if isz(goal) else z3.BoolVal(True), m)
      if r == 'unsat':
        self.ex.discharged(label, 'z3')
        return True
    quant = any(z3.is_quantifier(f) for f in self.pc)
    inputs = {}
    if m is None and quant:
      # candidate model ignoring quantified facts, for replay only
      s = z3.Solver()
      s.set('timeout', 3000)
      for f in self.pc:
        if not z3.is_quantifier(f):
          s.add(f)
      s.add(z3.Not(goal) if isz(goal) else z3.BoolVal(not goal))
      if s.check() == z3.sat:
        m = s.model()
    if m is not None:
      for k, v in self.inputs.items():
        try:
          inputs[k] = self.concretize(v, m)
        except Exception as e:   # pylint: disable=broad-except
          inputs[k] = '<%s>' % e
    status = 'unknown' if r != 'sat' else 'weak' if self.abstracted else 'refuted'
    self.ex.failures.append(Failure(label, status, detail, inputs=inputs,
                                    path=[d[0] for d in self.taken],
                                    reason='%s%s' % (r, ' (quantified facts)' if quant else '')))
    return False

  def fail(self, label, detail):
    """An obligation that is false on this (feasible) path."""
    self.ex.obl_total += 1
    self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
    self._failed(label, detail, z3.BoolVal(False))

  def ok(self, label, how='evaluation'):
    self.ex.obl_total += 1
    self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
    self.ex.discharged(label, how)

  def prove_streq(self, a, b, label):
    self.ex.obl_total += 1
    self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
    if strkind(a) is None or strkind(a) != strkind(b):
      return self._failed(label, 'type mismatch %r vs %r' % (a, b), z3.BoolVal(False))
    if self.str_eq_valid(a, b):
      self.ex.discharged(label, 'z3')
      return True
    facts, goal = self.ext_formula(a, b)
    r, m = self._check(z3.Not(goal) if isz(goal) else (not goal), *facts, unfold=True, model=True)
    if r == 'unsat':
      self.ex.discharged(label, 'z3')
      return True
    return self._failed(label, '%r == %r' % (a, b), goal, r, m)

  def prove_eq(self, a, b, label):
    """Deep equality of values."""
    if strkind(a) or strkind(b):
      return self.prove_streq(a, b, label)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
      x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
      y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
      return self.prove(x == y, label)
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
      return self.prove(tz(iterm(a)) == tz(iterm(b)), label)
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList, list)):
      x = a.items if isinstance(a, PList) else a
      y = b.items if isinstance(b, PList) else b
      if len(x) != len(y):
        return self.fail(label, 'lengths %d vs %d' % (len(x), len(y)))
      r = True
      for p, q in zip(x, y):
        r = self.prove_eq(p, q, label) and r
      return r
    if a is b or (type(a) is type(b) and a == b):
      self.ok(label)
      return True
    self.fail(label, '%r is not %r' % (a, b))
    return False

  def concretize(self, v, m):
    def ev(t):
      if not isz(t):
        return t
      r = m.eval(t, model_completion=True)
      if z3.is_int_value(r):
        return r.as_long()
      return z3.is_true(r)
    if isinstance(v, SInt):
      return ev(v.t)
    if isinstance(v, SBool):
      return bool(ev(v.t))
    if isinstance(v, S):
      n = ev(slen(v))
      n = min(n, 5000)
      out = []
      for i in range(n):
        c = ev(self.at_t(v, i, []))
        out.append(c if 0 <= c <= 255 else c % 256)
      return concrete_of(v.kind, out)
    if isinstance(v, tuple):
      return tuple(self.concretize(x, m) for x in v)
    if isinstance(v, PList):
      return [self.concretize(x, m) for x in v.items]
    if isinstance(v, (str, bytes, int, bool)) or v is None:
      return v
    return repr(v)


class NeedFork(Exception):
  """A fork would be needed inside a generic-index context."""

  def __init__(self, f):
    self.f = f


class Explorer(object):
  def __init__(self, name, deadline_s=120, max_paths=4000, decide_ms=2000,
               prove_ms=10000, unroll=0):
    self.unroll = unroll
    self.name = name
    self.deadline = time.time() + deadline_s
    self.max_paths = max_paths
    self.decide_ms = decide_ms
    self.prove_ms = prove_ms
    self.loopdb = {}
    self.reset()

  def reset(self):
    self.work = [[]]
    self.paths = 0
    self.records = []
    self.newpath()

  FIELDS = ('ended', 'obl_total', 'obl_ok', 'backend', 'labels', 'failures', 'used', 'inlined',
            'assumed', 'unsupported', 'invs')

  def newpath(self):
    """Fresh per-path record."""
    self.ended = self.obl_total = self.obl_ok = 0
    self.backend, self.labels, self.invs = {}, {}, {}
    self.failures, self.unsupported = [], []
    self.used, self.inlined, self.assumed = set(), set(), set()

  def endpath(self, taken):
    self.records.append((tuple(taken), {f: getattr(self, f) for f in self.FIELDS}))
    self.newpath()

  def collect(self):
    """Sums the records of all paths."""
    self.newpath()
    for _, r in self.records:
      for f in self.FIELDS:
        v, x = r[f], getattr(self, f)
        if isinstance(v, int):
          setattr(self, f, x + v)
        elif isinstance(v, dict):
          for k, q in v.items():
            x[k] = x.get(k, 0) + q
        elif isinstance(v, set):
          x |= v
        else:
          x.extend(v)

  def restart(self, prefix):
    """Loop database changed at the end of `prefix`: redo everything below it."""
    n = len(prefix)
    prefix = tuple(prefix)
    self.records = [(t, r) for t, r in self.records if t[:n] != prefix]
    self.work = [w for w in self.work if tuple(w)[:n] != prefix]
    self.work.append(list(prefix))
    self.newpath()

  def push(self, prefix):
    self.work.append(list(prefix))

  def inv_ok(self, label):
    self.invs[label] = self.invs.get(label, 0) + 1

  def discharged(self, label, how):
    self.obl_ok += 1
    self.backend[how] = self.backend.get(how, 0) + 1

  def run(self, spec):
    """Explore all paths.  Returns a result dict."""
    t0 = time.time()
    restarts = 0
    status, reason = 'ok', ''
    self.reset()
    nuns = 0
    try:
      while self.work:
        if time.time() > self.deadline:
          raise Budget('time budget')
        if self.paths >= self.max_paths:
          raise Budget('path budget')
        prefix = self.work.pop()
        ctx = Ctx(self, prefix)
        self.paths += 1
        try:
          spec(ctx)
          self.ended += 1
        except PathEnd:
          pass
        except NeedFork:
          self.unsupported.append('fork inside generic context')
          nuns += 1
        except Unsupported as e:
          self.unsupported.append(str(e))
          nuns += 1
        except Restart as e:
          restarts += 1
          if restarts > 3000:
            status, reason = 'undecided', 'loop inference does not converge'
            break
          self.restart(e.args[0])
          continue
        self.endpath(ctx.taken)
        if nuns > 20:
          break
        for f in self.records[-1][1]['failures']:
          # a failure decides the spec: look only a little further
          if f.status == 'refuted':
            self.deadline = min(self.deadline, time.time() + 15)
          elif f.status == 'weak':
            self.deadline = min(self.deadline, time.time() + 60)
    except Budget as e:
      self.endpath(())
      status, reason = 'undecided', str(e)
    except z3.Z3Exception as e:
      status, reason = 'undecided', 'solver: %s' % e
    except RecursionError:
      status, reason = 'undecided', 'recursion depth'
    self.paths = len(self.records)
    self.collect()
    if status == 'ok' and self.unsupported:
      status, reason = 'undecided', 'unsupported: %s' % self.unsupported[0]
    if status != 'ok' and any(f.status in ('refuted', 'weak') for f in self.failures):
      status = 'ok'
    if status == 'ok':
      if self.obl_total == 0:
        status, reason = 'undecided', 'no obligation generated (vacuous)'
      elif self.failures:
        ref = [f for f in self.failures if f.status == 'refuted']
        weak = [f for f in self.failures if f.status == 'weak']
        status = 'refuted' if ref else 'weak' if weak else 'unknown'
        f = (ref or weak or self.failures)[0]
        reason = '%s: %s [%s]' % (f.label, f.detail, f.reason)
    return dict(name=self.name, status=status, reason=reason,
                paths=self.paths, completed=self.ended, restarts=restarts,
                obligations=self.obl_total, discharged=self.obl_ok,
                backend=dict(self.backend), labels=dict(self.labels),
                failures=self.failures, invariants=dict(self.invs), used=sorted(self.used),
                inlined=sorted(self.inlined), assumed=sorted(self.assumed),
                wall=time.time() - t0)
