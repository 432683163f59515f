"""Arbitrary collections of unknown size, and the for-each rule.

A loop over an arbitrary collection is checked by running its body for one arbitrary element:

* names assigned in the body are unknown at the start of the iteration and after the loop (reading
  them there is refused), except a flag (a local holding True or False before the loop): either no
  element assigns it, and it keeps its value, or the body is run once more for the last element
  that assigns it (a witness, starting with the flag either way), which gives its value;
* objects older than the loop may not be changed in the body;
* what the body yields stands, under the arbitrary element, for what the loop yields for every
  element (Each);
* leaving the loop (return, break, an exception) is leaving it at some element, of which only
  membership is known (a witness); otherwise the body completed for every element, so in
  particular for the arbitrary one (universal).  The empty collection is a case of its own.

Sound for every number and order of elements; a failed restriction is Unsupported (undecided)."""
import ast
from .core import *
from .interp import (Coll, Native, Undefined, PDict, PyRaise, _Break, _Continue, _Return, Frame)


class Each(object):
  """items, for every element of coll (elem is the arbitrary one)"""
  def __init__(self, coll, elem, items):
    self.coll, self.elem, self.items = coll, elem, items

  def __repr__(self):
    return 'Each(%s, %r)' % (self.coll.name, self.items)


def has_each(items):
  return any(isinstance(x, Each) for x in items)


def key(v):
  """Identity of a value (same key => same value)."""
  if isinstance(v, S):
    return (v.kind,) + tuple(
        (id(s.base), str(s.lo), str(s.hi)) if isinstance(s, BS) else repr(s) for s in v.segs)
  if isinstance(v, SInt):
    return ('int', str(v.t))
  if isinstance(v, (str, int, bool)) or v is None:
    return (type(v).__name__, v)
  return ('ref', id(v))


def elements(items):
  out = []
  for it in items:
    if isinstance(it, Each):
      out.append((it.coll, it.elem))
      out += elements(it.items)
  return out


def role(us, which):
  """Marks elements: the loop went through all elements (universal), or stopped here or took a
  value from here (witness)."""
  for c, e in us:
    for x in ('universal', 'witnesses'):
      l = getattr(c, x)
      setattr(c, x, [y for y in l if y is not e])
    getattr(c, which).append(e)
    for x, keys, k in getattr(c, 'origin', ()):
      if x is e:
        role([(keys, k)], which)


class Bag(Coll):
  """A list some of whose items stand for arbitrarily many."""
  tag = None

  def __init__(self, items, parts=None):
    self.items_ = items
    self.parts = parts or [self]

  spent = False

  def items(self, I):
    if self.spent:      # its element is a witness for any() or all() now
      raise Unsupported('collection used again after any() or all()')
    return self.items_

  # ------------------------------------------------------------------ loops
  def walk(self, I, items, one, wrap):
    for it in items:
      if isinstance(it, Each):
        b = (it.coll, it.elem)
        I.state.setdefault('binders', []).append(b)
        try:
          mark = wrap(None, None)
          self.walk(I, it.items, one, wrap)
          wrap(it, mark)
        finally:
          I.state['binders'].pop()
      else:
        one(it)

  def foreach(self, I, node, fr):
    ctx = I.ctx
    names = assigned(node)
    if any(n in fr.globals_ or n in fr.nonlocals for n in names):
      raise Unsupported('outer name assigned in a for-each loop')
    flags = [n for n in names if isinstance(fr.locals.get(n), bool)]
    entry = {n: fr.locals[n] for n in flags}
    final = {}
    for n in flags:
      final[n] = bool(ctx.choose(2))          # assigned by some element
    yf = fr
    while yf is not None and yf.yields is None:
      yf = yf.parent
    items = self.items(I)
    if flags and len(items) > 1:
      raise Unsupported('flag over several parts')
    if any(final.values()) and (not items or not isinstance(self, Many)):
      if not items:
        raise PathEnd()
      raise Unsupported('flag over a derived collection')
    value = dict(entry)

    def start():
      for n in names:
        fr.locals[n] = Undefined
      for n in flags:
        fr.locals[n] = bool(ctx.choose(2)) if final[n] else entry[n]

    def one(v):
      start()
      log = set()
      old, fr.assigned = fr.assigned, log
      ctx.frozen.append(ctx.serial)
      try:
        I.assign(node.target, v, fr)
        try:
          I.exec_block(node.body, fr)
        except _Continue:
          pass
      except _Break:
        for n in names:
          if n not in flags:
            fr.locals[n] = Undefined
        raise
      finally:
        ctx.frozen.pop()
        fr.assigned = old
        if old is not None:
          old.update(log)
      for n in flags:
        if n in log and not final[n]:
          raise PathEnd()
      return log

    def wrap(it, mark):
      ys = yf.yields if yf is not None else []
      if it is None:
        return len(ys)
      tail = ys[mark:]
      if tail:
        ys[mark:] = [Each(it.coll, it.elem, tail)]
    us = elements(items)
    try:
      self.walk(I, items, one, wrap)
    except _Break:
      role(us, 'witnesses')
      return
    except (_Return, PyRaise):
      role(us, 'witnesses')
      raise
    role(us, 'universal')
    for n in flags:
      if final[n]:
        last = self.items(I)                  # the last element that assigns n
        role([(it.coll, it.elem) for it in last], 'witnesses')
        ys = list(yf.yields) if yf is not None else None
        logs = []
        try:
          self.walk(I, last, lambda v: logs.append(one(v)), wrap)
        except (_Break, _Return, PyRaise):
          raise PathEnd()                     # the body completed for every element
        if ys is not None:
          yf.yields[:] = ys
        if n not in logs[0]:
          raise PathEnd()
        value[n] = fr.locals[n]
    for n in names:
      fr.locals[n] = Undefined
    for n in flags:
      fr.locals[n] = value[n]
    I.exec_block(node.orelse, fr)

  def comp(self, I, gens, elt, nf):
    ctx = I.ctx

    def rec(i, items, out):
      g = gens[i]

      def one(v):
        ctx.frozen.append(ctx.serial)
        try:
          I.assign(g.target, v, nf)
          if not all(I.truth(I.eval(c, nf)) for c in g.ifs):
            return
          if i + 1 == len(gens):
            out.append(I.eval(elt, nf))
            return
          seq = I.iterate(I.eval(gens[i + 1].iter, nf))
          if isinstance(seq, tuple):
            if seq[0] != 'coll' or not isinstance(seq[1], Bag):
              raise Unsupported('nested symbolic comprehension')
            seq = seq[1].items(I)
          rec(i + 1, seq, out)
        finally:
          ctx.frozen.pop()

      def wrap(it, mark):
        if it is None:
          return len(out)
        tail = out[mark:]
        if tail:
          out[mark:] = [Each(it.coll, it.elem, tail)]
      role(elements(items), 'universal')
      self.walk(I, items, one, wrap)
    out = []
    rec(0, self.items(I), out)
    return Bag(out) if has_each(out) else out

  # ------------------------------------------------------------------ values
  def leaf(self, I, items):
    """The values; for any/all: true of some / of the arbitrary element."""
    out = []
    self.walk(I, items, out.append, lambda a, b: None)
    return out

  def quantified(self, I, exists):
    """any / all: decided at the arbitrary element, which is a witness where one exists."""
    items = self.items(I)
    us = elements(items)
    vs = [I.truth(v) for v in self.leaf(I, items)]
    found = any(vs) if exists else not all(vs)
    if found:
      if not isinstance(self, Many):
        self.spent = True
      role(us, 'witnesses')
    else:
      role(us, 'universal')
    return found == exists

  def any(self, I):
    return self.quantified(I, True)

  def all(self, I):
    return self.quantified(I, False)

  def contains(self, I, x):
    raise Unsupported('membership in a derived collection')

  def binop(self, I, t, b):
    if t == 'Add':
      if isinstance(b, Bag):
        return Bag(self.items(I) + b.items(I), self.parts + b.parts)
      if isinstance(b, PList) and b.sym is None:
        return Bag(self.items(I) + b.items, self.parts + ([Bag(b.items)] if b.items else []))
    raise Unsupported('operation on an arbitrary collection')

  def rbinop(self, I, t, a):
    if t == 'Add' and isinstance(a, PList) and a.sym is None:
      return Bag(a.items + self.items(I), ([Bag(a.items)] if a.items else []) + self.parts)
    raise Unsupported('operation on an arbitrary collection')

  def minmax(self, I, which, k):
    raise Unsupported('min/max of an arbitrary collection')

  def join(self, I, sep):
    if self.tag is None:
      raise Unsupported('join over an arbitrary collection')
    k = (key(sep), self.tag)
    d = I.state.setdefault('joins', {})
    if k not in d:
      d[k] = I.ctx.freshstr('joined')
    return d[k]

  def as_dict(self, I):
    """dict() of the items of arbitrary mappings"""
    if all(p.tag is not None and p.tag[0] == 'items' for p in self.parts):
      return self.parts[0].tag[1].merged(I, [p.tag[1] for p in self.parts])
    raise Unsupported('dict of an arbitrary collection')

  def no(self, I, *a):
    raise Unsupported('operation on an arbitrary collection')
  attr = next = length = no


class Many(Bag):
  """An arbitrary collection: elem(I) makes an arbitrary element."""
  def __init__(self, name, elem, tag=None, may_be_empty=True):
    Bag.__init__(self, [])
    self.name, self.elem_, self.tag = name, elem, tag
    self.known = {}
    self.empty = None if may_be_empty else False
    self.seen = []
    self.universal, self.witnesses = [], []
    self.texts = False                        # of texts only

  def items(self, I):
    if self.empty is None:
      self.empty = bool(I.ctx.choose(2))
    if self.empty:
      return []
    e = self.elem_(I)
    self.seen.append(e)
    return [Each(self, e, [e])]

  def contains(self, I, x):
    """Membership of a value: unknown, the same for the same value."""
    if self.texts and not strkind(x):
      return False
    if any(key(x) == key(e) for e in self.seen):
      return True
    if key(x) not in self.known:
      self.known[key(x)] = mkbool(z3.Bool('in_%s!%d' % (self.name, I.ctx.newserial())))
    return self.known[key(x)]


def assigned(node):
  out = []

  def visit(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      out.append(n.name)
      return
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.append(n.id)
    if isinstance(n, ast.ExceptHandler) and n.name:
      out.append(n.name)
    for c in ast.iter_child_nodes(n):
      visit(c)
  visit(node.target)
  for s in node.body:
    visit(s)
  return list(dict.fromkeys(out))


def product(I, seqs, k):
  """itertools.product of arbitrary collections."""
  if k:
    raise Unsupported('product repeat')
  bags = []
  for s in seqs:
    if isinstance(s, tuple):
      if s[0] != 'coll' or not isinstance(s[1], Bag):
        raise Unsupported('product of a symbolic sequence')
      s = s[1].items(I)
    bags.append(s)

  def rec(i, got):
    if i == len(bags):
      return [tuple(got)]

    def walk(items):
      out = []
      for it in items:
        if isinstance(it, Each):
          sub = walk(it.items)
          if sub:
            out.append(Each(it.coll, it.elem, sub))
        else:
          out.extend(rec(i + 1, got + [it]))
      return out
    return walk(bags[i])
  r = rec(0, [])
  return Bag(r) if has_each(r) else PList(r, I.ctx.newserial())


class Mapping(Native):
  """An arbitrary mapping with text keys: value(I, k) makes the value of a key."""
  tname = 'dict'

  def __init__(self, I, name, value=None, elem=None):
    Native.__init__(self, I)
    self.name = name
    self.value = value or (lambda I, k: I.ctx.freshstr(name + '_value'))
    self.keys = Many(name, elem or (lambda I: I.ctx.freshstr(name)))
    self.keys.tag = ('keys', self)
    self.got = {}
    self.ident = ('map', id(self))

  def at(self, I, k):
    if key(k) not in self.got:
      self.got[key(k)] = self.value(I, k)
    return self.got[key(k)]

  def isinst(self, I, c):
    return c in (dict, object) or getattr(c, '__name__', '') in ('dict', 'object')

  def m___iter__(self, I):
    return self.keys
  m_keys = m___iter__

  def tagged(self, what, f):
    def elem(I):
      k = self.pick(I)
      e = f(I, k)
      m.origin.append((e, self.keys, k))
      return e
    m = Many(self.name, elem)
    m.origin = []
    m.empty = self.keys.empty
    own = m.items

    def items(I):
      m.empty = self.keys.empty
      r = own(I)
      self.keys.empty = m.empty
      return r
    m.items = items
    m.tag = (what, self)
    return m

  def pick(self, I):
    k = self.keys.elem_(I)
    self.keys.seen.append(k)
    return k

  def m_values(self, I):
    return self.tagged('values', lambda I, k: self.at(I, k))

  def m_items(self, I):
    return self.tagged('items', lambda I, k: (k, self.at(I, k)))

  def m___getitem__(self, I, k):
    if not I.truth(self.keys.contains(I, k)):
      I.throw(KeyError, 'no such key')
    return self.at(I, k)

  def m___contains__(self, I, k):
    return self.keys.contains(I, k)

  def m_get(self, I, k, d=None):
    return self.at(I, k) if I.truth(self.keys.contains(I, k)) else d

  def as_dict(self, I):
    return self.merged(I, [self])

  def m_copy(self, I):
    return self.as_dict(I)

  def merged(self, I, parts):
    """A new mapping holding the parts, later ones first."""
    r = Mapping(I, '+'.join(p.name for p in parts))
    r.parts = [q for p in parts for q in getattr(p, 'parts', [p])]
    return r

  def m_update(self, I, other):
    I.track(self, 'parts')
    if not isinstance(other, Mapping) or not hasattr(self, 'parts'):
      raise Unsupported('update of an arbitrary mapping')
    self.parts = self.parts + getattr(other, 'parts', [other])


def flatten(x, under=()):
  """[(elements under which, value)]"""
  out = []
  if isinstance(x, Bag) and x.spent:
    raise Unsupported('collection used again after any() or all()')
  for it in (x.items_ if isinstance(x, Bag) else x):
    if isinstance(it, Each):
      out += flatten(it.items, under + ((it.coll, it.elem),))
    else:
      out.append((under, it))
  return out
