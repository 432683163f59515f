"""Key sets with an arbitrary number of versions.

An AbsSet stands for every key set satisfying the Keyczar invariant: _keys maps each
version of the metadata to its key and each key's identifier to that key, version
numbers are distinct, a version has status PRIMARY exactly when it is primary_version.
Elements are materialised lazily; every element is arbitrary."""
from specs.kit import *
from pyvc.interp import Coll, SEnum, Undefined, NOTHING


def need(c, what):
  if not c:
    raise Unsupported('representation changed: ' + what)


class Reader(Native):
  """A reader object supplied by the user."""
  tname = 'reader'

  def __init__(self, I, meta, key=None):
    Native.__init__(self, I)
    self.meta, self.key = meta, key

  def m_GetMetadata(self, I):
    return self.meta

  def m_GetKey(self, I, n):
    return self.key(I, n)

  def m_Close(self, I):
    pass

  def isinst(self, I, c):
    if clsname(c) == 'Reader':
      return True
    return False


class OpaqueKey(Native):
  """A key known only by the contract of class Key: an identifier, the header made of
  it, and its operations as functions of their arguments."""
  tname = 'key'
  count = 0

  def __init__(self, I, hid=None, kind=None):
    Native.__init__(self, I)
    ctx = I.ctx
    st = I.state.setdefault('opaque', [])
    self.tag = len(st)
    st.append(self)
    if hid is None:
      self.idb = ctx.freshstr('id%d' % self.tag, 4)
      hid = b64(I, self.idb)
    else:
      a = lib.find_app(I, 'b64', hid) if isinstance(hid, S) else None
      if a is not None and ctx.teq(slen(a[0]), 4):
        self.idb = b2s(I, a[0])
      elif a is not None:
        raise PathEnd()       # no key has an identifier of another length
      else:
        self.idb = ctx.freshstr('id%d' % self.tag, 4)
        ctx.assume_streq(b64(I, self.idb), hid)
    self.hid = hid
    self.fields['hash_id'] = hid
    self.fields['type'] = kind
    self.signed, self.encrypted, self.verified = [], [], []
    self.pub = None
    self.calls, self.refused, self.answered = [], [], []

  def get(self, I, name):
    r = Native.get(self, I, name)
    if name == 'public_key':
      if self.pub is None:
        self.pub = OpaqueKey(I, self.hid)
        self.pub.priv = self
      return self.pub
    if r is Undefined:
      raise Unsupported('opaque key: attribute %s' % name)
    return r

  def isinst(self, I, c):
    if clsname(c) in ('KeyVersion', 'str', 'int', 'dict', 'KeyMetadata'):
      return False
    raise Unsupported('opaque key: isinstance %s' % clsname(c))

  def header(self, I):
    return I.ctx.concat('\0', self.idb)

  def m_Header(self, I):
    return self.header(I)

  def m_Encrypt(self, I, data):
    ctx = I.ctx
    body = ctx.freshstr('enc%d_%d' % (self.tag, len(self.encrypted)))
    c = ctx.concat(self.header(I), body)
    self.encrypted.append((data, c))
    return c

  def m_Decrypt(self, I, c):
    ctx = I.ctx
    self.calls.append(('Decrypt', c))
    for k in I.state['opaque']:
      if k.tag == self.tag or getattr(self, 'priv', None) is k or getattr(k, 'priv', None) is self:
        for data, e in k.encrypted:
          if ctx.str_eq_valid(c, e):
            self.answered.append(data)
            return data
    if ctx.choose(2):
      e = I.exc(I.get('errors.KeyczarError'), 'refused by the key')
      e.fromkey = self
      self.refused.append(c)
      raise PyRaise(e)
    def mk():
      n = ctx.fresh('kdeclen')
      ctx.add(n >= 0)
      return n
    r = ctx.sapp('kdec', (self.tag, c), mk)
    self.answered.append(r)
    return r

  def m_Sign(self, I, msg):
    ctx = I.ctx
    s = ctx.freshstr('sig%d_%d' % (self.tag, len(self.signed)))
    ctx.assume(tz(slen(s)) > 0)
    self.signed.append((msg, s))
    return s

  def m_Verify(self, I, msg, sig):
    ctx = I.ctx
    if strkind(msg) != 'str' or strkind(sig) != 'str':
      I.throw(TypeError, 'strings required')
    self.calls.append(('Verify', msg, sig))
    if not isinstance(sig, S) and sig == '':
      return False            # assumed: no key accepts the empty signature
    for k in I.state['opaque']:
      if k.tag == self.tag or getattr(self, 'priv', None) is k or getattr(k, 'priv', None) is self:
        for m, s in k.signed:
          if ctx.str_eq_valid(m, msg) and ctx.str_eq_valid(s, sig):
            return True
    r = ctx.bapp('kver', (self.tag, msg, sig))
    if isinstance(r, SBool):
      ctx.add(z3.Implies(tz(slen(sig)) == 0, z3.Not(r.t)))
    return r


class Some(Native):
  """Any one of the versions, where only what holds of each may be used: its number."""
  def __init__(self, I, num):
    Native.__init__(self, I)
    self.fields['version_number'] = num

  def get(self, I, name):
    r = Native.get(self, I, name)
    if r is Undefined:
      raise Unsupported('version in a comprehension: attribute %s' % name)
    return r

  def isinst(self, I, c):
    return clsname(c) == 'KeyVersion'


class AbsSet(object):
  def __init__(self, ctx, I, mkkey=None):
    self.ctx, self.I = ctx, I
    self.n = ctx.fresh('nversions')
    ctx.add(self.n >= 0)
    ctx.n += 1
    self.num_f = z3.Function('num!%d' % ctx.n, z3.IntSort(), z3.IntSort())
    self.elems = []       # [index, KeyVersion, key, original status]
    self.pi = None        # primary index
    self.mkkey = mkkey or (lambda I, hid: OpaqueKey(I, hid))
    self.absent_ids, self.absent_nums = [], []
    self.maxn = None
    ctx.lemma_hooks[self.num_f.name()] = self.numhook

  def numhook(self, c, t, walked):
    if self.maxn is None:
      return []
    i = t.arg(0)
    return [z3.Implies(z3.And(i >= 0, i < self.n), z3.And(t >= 1, t <= self.maxn))]

  def status(self, name):
    return self.I.get('keyinfo.' + name)

  def make(self, i, status):
    I, ctx = self.I, self.ctx
    v = I.call(I.get('keydata.KeyVersion'), [SInt(self.num_f(tz(i))), status, SBool(ctx.freshb('exp'))])
    need(set(v.fields) == {'version_number', '_KeyVersion__status', 'exportable'}, 'KeyVersion')
    v.abstract = True
    e = [i, v, None, status]
    for o in self.elems:
      ctx.add(self.num_f(tz(o[0])) != self.num_f(tz(i)))
    for x in self.absent_nums:
      ctx.add(self.num_f(tz(i)) != tz(x))
    self.elems.append(e)
    return e

  def primary(self):
    """Gives the set a primary version (index of its own)."""
    ctx = self.ctx
    self.pi = ctx.fresh('pi')
    ctx.assume(z3.And(self.pi >= 0, self.pi < self.n))
    return self.make(self.pi, self.status('PRIMARY'))

  def entry(self, i):
    ctx = self.ctx
    if ctx.generic:
      return [i, Some(self.I, SInt(self.num_f(tz(i)))), None, None]
    for e in self.elems:
      if ctx.decide(tz(i) == tz(e[0])):
        return e
    st = ('ACTIVE', 'INACTIVE')[ctx.choose(2)]
    return self.make(i, self.status(st))

  def fresh(self):
    """Some version different from those materialised so far."""
    i = self.ctx.fresh('vi')
    self.ctx.assume(z3.And(i >= 0, i < self.n, *[i != tz(e[0]) for e in self.elems]))
    st = ('ACTIVE', 'INACTIVE')[self.ctx.choose(2)]
    return self.make(i, self.status(st))

  def key(self, e, hid=None):
    if e[2] is None:
      e[2] = self.mkkey(self.I, hid)
      for x in self.absent_ids:
        if hid is None:
          self.ctx.assume_strne(x, self.I.getattr(e[2], 'hash_id'))
    return e[2]

  def by_version(self, v):
    for e in self.elems:
      if e[1] is v:
        return e
    return None

  def by_id(self, hid):
    """The element whose key has that identifier, or None; forks."""
    ctx = self.ctx
    for e in self.elems:
      if e[2] is not None and ctx.decide_streq(hid, self.I.getattr(e[2], 'hash_id')):
        return e
    for x in self.absent_ids:
      if ctx.quick_same(x, hid) or ctx.str_eq_valid(x, hid):
        return None
    r = ctx.choose(2 + len([e for e in self.elems if e[2] is None]))
    if r == 0:
      self.absent_ids.append(hid)
      return None
    if r == 1:
      e = self.fresh()
    else:
      e = [e for e in self.elems if e[2] is None][r - 2]
    self.key(e, hid)
    return e

  def by_num(self, x):
    ctx = self.ctx
    t = tz(iterm(x))
    for e in self.elems:
      if ctx.decide(t == self.num_f(tz(e[0]))):
        return e
    for y in self.absent_nums:
      if ctx.teq(t, y):
        return None
    if ctx.choose(2):
      self.absent_nums.append(t)
      return None
    e = self.fresh()
    ctx.assume(self.num_f(tz(e[0])) == t)
    return e


class AbsDict(Native):
  """Overlay of recorded changes over an abstract base mapping."""
  def __init__(self, I, aset):
    Native.__init__(self, I)
    self.aset = aset
    self.added, self.removed = [], []
    self.log = []

  def isinst(self, I, c):
    return clsname(c) == 'dict'

  def same(self, a, b):
    raise NotImplementedError

  def base(self, I, k):
    raise NotImplementedError

  def find(self, I, k):
    for kk, v in reversed(self.added):
      if self.same(I, kk, k):
        return v
    for kk in self.removed:
      if self.same(I, kk, k):
        return Undefined
    return self.base(I, k)

  def m___getitem__(self, I, k):
    v = self.find(I, k)
    if v is Undefined:
      I.throw(KeyError, k)
    return v

  def m_get(self, I, k, d=None):
    v = self.find(I, k)
    return d if v is Undefined else v

  def m___contains__(self, I, k):
    return self.find(I, k) is not Undefined

  def m___setitem__(self, I, k, v):
    if I.ctx.loops:
      raise Unsupported('abstract dict mutated in a loop')
    self.log.append(('set', k, v))
    self.added = [(a, b) for a, b in self.added if not self.same(I, a, k)] + [(k, v)]

  def m_pop(self, I, k, *d):
    if I.ctx.loops:
      raise Unsupported('abstract dict mutated in a loop')
    v = self.find(I, k)
    if v is Undefined:
      if d:
        return d[0]
      I.throw(KeyError, k)
    self.log.append(('del', k, v))
    self.added = [(a, b) for a, b in self.added if not self.same(I, a, k)]
    self.removed.append(k)
    return v

  def m___delitem__(self, I, k):
    self.m_pop(I, k)

  def clean(self):
    if self.added or self.removed:
      raise Unsupported('iteration over a changed abstract set')


class KeyDict(AbsDict):
  tname = 'dict'

  def same(self, I, a, b):
    if strkind(a) and strkind(b):
      return I.ctx.decide_streq(a, b)
    return a is b

  def base(self, I, k):
    s = self.aset
    if strkind(k):
      e = s.by_id(k)
      return Undefined if e is None else s.key(e)
    e = s.by_version(k)
    return Undefined if e is None else s.key(e)

  def m_keys(self, I):
    self.clean()
    return KeysColl(self)

  def m___iter__(self, I):
    self.clean()
    return KeysColl(self)

  def m_values(self, I):
    raise Unsupported('values of an abstract set')

  def m_items(self, I):
    self.clean()
    return KeysColl(self, True)

  def m___len__(self, I):
    self.clean()
    return mkint(2 * self.aset.n)


class NumDict(AbsDict):
  tname = 'dict'

  def same(self, I, a, b):
    return I.ctx.decide(tz(iterm(a)) == tz(iterm(b)))

  def base(self, I, k):
    if not isinstance(k, (int, SInt)) or isinstance(k, bool):
      return Undefined
    e = self.aset.by_num(k)
    return Undefined if e is None else e[1]

  def m_values(self, I):
    s = self.aset
    if self.removed:
      raise Unsupported('iteration over a changed abstract set')
    p = PList([v for _, v in self.added], I.ctx.newserial())
    p.sym = GList(s.n, lambda i: s.entry(i)[1])
    return p

  def m_keys(self, I):
    s = self.aset
    if self.removed:
      raise Unsupported('iteration over a changed abstract set')
    p = PList([k for k, _ in self.added], I.ctx.newserial())
    p.sym = GList(s.n, lambda i: SInt(s.num_f(tz(i))))
    return p

  def m___iter__(self, I):
    return self.m_keys(I)

  def m___len__(self, I):
    return mkint(self.aset.n + len(self.added) - len(self.removed))


class KeysColl(Coll):
  """The keys (or items) of _keys: versions and identifiers, in some order."""
  def __init__(self, d, items=False):
    self.d, self.items = d, items

  def at(self, I, i):
    s = self.d.aset
    e = s.entry(i)
    return (e[1], s.key(e)) if self.items else e[1]

  def foreach(self, I, node, fr):
    raise Unsupported('for-each over versions and identifiers')

  def comp(self, I, gens, elt, nf):
    s = self.d.aset
    ctx = I.ctx
    if len(gens) != 1:
      raise Unsupported('nested comprehension over an abstract set')
    g = gens[0]
    # the filter must select exactly the versions
    idstr = ctx.freshstr('anyid', 6)
    probe = (idstr, OpaqueKey(I)) if self.items else idstr
    I.assign(g.target, probe, nf)
    for c in g.ifs:
      r = I.eval(c, nf)
      if r is False:
        break
      if r is not True:
        raise Unsupported('filter over an abstract set')
    else:
      raise Unsupported('filter selects identifiers')

    def at(i):
      I.assign(g.target, self.at(I, i), nf)
      for c in g.ifs:
        if not I.truth(I.eval(c, nf)):
          raise Unsupported('filter drops versions')
      return I.eval(elt, nf)
    return GList(s.n, at)

  def minmax(self, I, which, k):
    raise Unsupported('min/max over versions and identifiers')


def keyset(ctx, I, cls, aset, purpose, ktype, primary='maybe', encrypted=False):
  """A keyczar object of class cls holding the abstract set.  Built by the real
  constructor from an empty set, then given the abstract content."""
  import json
  P = lambda n: I.getattr(I.get('keyinfo.' + n), 'name')
  meta = json.dumps(dict(name='n', purpose=purpose, type=ktype, encrypted=encrypted, versions=[]))
  k = I.call(I.get('keyczar.' + cls), [Reader(I, meta)])
  need(set(k.fields) == {'metadata', '_keys', 'primary_version', 'default_size'}, 'Keyczar')
  m = k.fields['metadata']
  need(set(m.fields) == {'name', 'purpose', 'type', 'encrypted', '_KeyMetadata__versions'},
       'KeyMetadata')
  need(isinstance(k.fields['_keys'], PDict) and isinstance(m.fields['_KeyMetadata__versions'], PDict)
       and k.fields['primary_version'] is None, 'Keyczar')
  k.fields['_keys'] = KeyDict(I, aset)
  m.fields['_KeyMetadata__versions'] = NumDict(I, aset)
  has = {'maybe': None, 'yes': True, 'no': False}[primary]
  if has is None:
    has = bool(ctx.choose(2))
  if has:
    e = aset.primary()
    k.fields['primary_version'] = e[1]
  return k


# ------------------------------------------------------------ dicts filled version by version
class Filled(object):
  """What the first k of the versions put into a dict, then the pairs added since."""
  def __init__(self, d, k, added=()):
    self.d, self.k, self.added = d, k, tuple(added)

  def same_content(self, I, v):
    if not isinstance(v, Filled) or v.d is not self.d or self.added:
      return False
    ctx = I.ctx
    if not v.added:
      return ctx.teq(v.k, self.k)
    if not ctx.teq(tadd(v.k, 1), self.k):
      return False
    try:
      want = list(self.d.pairs(I, v.k))
    except Unsupported:
      return False
    have = list(v.added)
    return self.d.take(I, want, have) and not have


class FilledDict(Native):
  """A dict that starts empty; pairs(I, i) says what version number i puts there."""
  tname = 'dict'

  def __init__(self, I, aset, pairs, full, same_value=None):
    Native.__init__(self, I)
    self.aset, self.pairs, self.full = aset, pairs, full
    self.same_value = same_value or (lambda I, a, b: a is b)
    self.fields['content'] = Filled(self, 0)

  def isinst(self, I, c):
    return clsname(c) == 'dict'

  def take(self, I, want, have):
    """Takes the wanted pairs out of the list of those that are there."""
    ctx = I.ctx

    def eq(a, b):
      if strkind(a) and strkind(b):
        return ctx.str_eq_valid(a, b)
      if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        return ctx.teq(iterm(a), iterm(b))
      return a is b
    for k, x in want:
      hit = [p for p in have if eq(p[0], k)]
      if not hit or not self.same_value(I, hit[-1][1], x):
        return False
      have[:] = [p for p in have if not any(p is h for h in hit)]
    return True

  def complete(self, I):
    """Is there what all the versions put there, and nothing else?"""
    ctx, c = I.ctx, self.fields['content']
    need(isinstance(c, Filled), 'dict being filled')
    j, have = c.k, list(c.added)
    while have and ctx.decide(tz(j) < tz(self.aset.n)):
      if not self.take(I, list(self.pairs(I, j)), have):
        return False
      j = simp(tz(j) + 1)
    return not have and ctx.teq(j, self.aset.n)

  def m___setitem__(self, I, k, v):
    c = self.fields['content']
    need(isinstance(c, Filled), 'dict being filled')
    I.setfield(self, 'content', Filled(self, c.k, c.added + ((k, v),)))

  def m_update(self, I, other=None, **kw):
    need(other is None or isinstance(other, PDict), 'dict being updated')
    for k, v in (list(other.entries) if other is not None else []) + list(kw.items()):
      self.m___setitem__(I, k, v)

  def whole(self, I):
    """The dict, once filled."""
    c = self.fields['content']
    if not isinstance(c, Filled) or c.added or not I.ctx.teq(c.k, self.aset.n):
      raise Unsupported('dict being filled')
    return self.full

  def m___getitem__(self, I, k):
    return self.whole(I).m___getitem__(I, k)

  def m_get(self, I, k, d=None):
    return self.whole(I).m_get(I, k, d)

  def m___contains__(self, I, k):
    c = self.fields['content']
    if isinstance(c, Filled) and not isinstance(k, (str, S)):
      # numbers of distinct versions are distinct: not there yet
      for e in self.aset.elems:
        if isinstance(k, (int, SInt)) and I.ctx.teq(iterm(k), self.aset.num_f(tz(e[0]))) and (
            not c.added) and I.ctx.entails(tz(e[0]) >= tz(c.k)):
          return False
    return self.whole(I).m___contains__(I, k)

  def m_keys(self, I):
    return self.whole(I).m_keys(I)

  def m___iter__(self, I):
    return self.whole(I).m___iter__(I)

  def m_values(self, I):
    return self.whole(I).m_values(I)

  def m_items(self, I):
    return self.whole(I).m_items(I)

  def m___len__(self, I):
    return self.whole(I).m___len__(I)


def filling(d):
  """Loop definition: the dict holds what the versions so far put there."""
  return ('the versions so far', 'obj', lambda env, loc: Filled(d[0], tz(env.k)) if d and loc == (
      'h', d[0].serial, 'content') else None)


def fills(I, make):
  """The next empty dict the code makes is make(I)."""
  d = []

  def new(I):
    del I.state['newdict']
    d.append(make(I))
    return d[0]
  I.state['newdict'] = new
  return d
