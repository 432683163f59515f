"""World: module resolution and models (assumed contracts) of the libraries
that blag/keyczar calls.  Every model below is an assumption of the proofs; the
list MODEL_ASSUMPTIONS is copied into every evidence file."""
import ast
import json as _json
import os
import struct as _struct
import sys
import base64 as _b64
import z3
from .core import *
from .core import e64_f, d64_f
from . import core, models
from .interp import *
from .interp import load_ast, Undefined

REPO = os.environ.get('PYVC_REPO', '/repo')
PKG = os.path.join(REPO, 'python/src/keyczar')
MODS = ('errors', 'keyczar', 'keyczart', 'keydata', 'keyinfo', 'keys', 'readers',
        'util', 'writers')
CODECS = '/usr/lib/python3.12/codecs.py'

MODEL_ASSUMPTIONS = [
    'hashlib.sha1 / hmac are functions of their input bytes with 20-byte results; update() concatenates',
    'base64.urlsafe_b64encode/decode follow RFC 4648 (pointwise definition in pyvc/lib.py)',
    'struct.pack/unpack ">i" is 32-bit big-endian two\'s complement',
    'json.loads(json.dumps(x)) == x for dict/list/str/int/bool/None trees with str keys; output is ASCII without line breaks',
    'pyasn1 DER decode(encode(x)) == (x, b""); foreign input yields PyAsn1Error or an arbitrary object',
    'AES-CBC (M2Crypto EVP, PyCrypto) without padding: block-wise, prefix-consistent, decryption inverts encryption under equal key and IV',
    'PyCrypto RSA/DSA: decrypt(encrypt(m)) is m without leading zero bytes when m < n; verify(m, sign(m)) is true; result depends only on the numbers in the key',
    'os.urandom(n) / SystemRandom return arbitrary values of the requested size (freshness and unpredictability assumed)',
    'pickle.dumps of two values is equal exactly when they have equal structure and content',
    'the file system returns what was last written to a path unless an operation raises IOError/OSError',
    'abstract keys of key-set specs: a key accepts only non-empty signatures (true of the HMAC, RSA and DSA keys by their own specs)',
    'configured names of the interop driver are single path components; itertools.product, subprocess.check_output and unittest as documented',
    'CPython semantics of the subset interpreted by pyvc (ints are mathematical; dict preserves insertion order)',
]


class StructError(Exception):
  pass


class BinasciiError(ValueError):
  pass


class PyAsn1Error(Exception):
  pass


class EVPError(Exception):
  pass


class CalledProcessError(Exception):
  pass


class UnsupportedOperation(OSError, ValueError):
  pass


def nf(name, f):
  """f(I, *args, **kw) -> NativeFn"""
  return NativeFn(name, lambda I, a, k: f(I, *a, **k))


def bytes_arg(I, v):
  if strkind(v) != 'bytes':
    I.throw(TypeError, 'a bytes-like object is required')
  return v


def freeze(I, v):
  """tree of values -> hashable-ish nested tuples for app arguments"""
  if strkind(v) or isinstance(v, (int, SInt, bool, float)) or v is None:
    return v
  if isinstance(v, SBool):
    return I.ctx.decide(v.t)
  if isinstance(v, (PList, tuple)):
    if isinstance(v, PList) and v.sym is not None:
      raise Unsupported('serialising a symbolic list')
    return ('L',) + tuple(freeze(I, x) for x in (v.items if isinstance(v, PList) else v))
  if isinstance(v, PDict):
    return ('D',) + tuple((k, freeze(I, x)) for k, x in v.entries)
  if isinstance(v, AsnN):
    return v.freeze(I)
  I.throw(TypeError, 'Object of type %s is not JSON serializable' % type(v).__name__)


def thaw(I, v):
  if isinstance(v, tuple):
    if v[0] == 'L':
      return PList([thaw(I, x) for x in v[1:]], I.ctx.newserial())
    if v[0] == 'D':
      return PDict([(k, thaw(I, x)) for k, x in v[1:]], I.ctx.newserial())
  return v


def frozen_concrete(v):
  if isinstance(v, (S, SInt, SBool, SReal)):
    return False
  if isinstance(v, tuple):
    return all(frozen_concrete(x) for x in v[1:]) if v and v[0] in ('L', 'D') else all(
        frozen_concrete(x) for x in v)
  return True


def unfreeze_py(v):
  if isinstance(v, tuple):
    if v[0] == 'L':
      return [unfreeze_py(x) for x in v[1:]]
    if v[0] == 'D':
      return {k: unfreeze_py(x) for k, x in v[1:]}
  return v


def topv(I, v):
  """host value -> interpreter value"""
  if isinstance(v, list):
    return PList([topv(I, x) for x in v], I.ctx.newserial())
  if isinstance(v, dict):
    return PDict([(k, topv(I, x)) for k, x in v.items()], I.ctx.newserial())
  if isinstance(v, tuple):
    return tuple(topv(I, x) for x in v)
  return v


def find_app(I, fname, v):
  """arguments of an application fname(args) whose value equals v, or None"""
  ctx = I.ctx
  if isinstance(v, S) and len(v.segs) == 1 and isinstance(v.segs[0], BS):
    s = v.segs[0]
    if s.base.origin and s.base.origin[0] == fname and tsame(s.lo, 0) and tsame(
        s.hi, s.base.length):
      return s.base.origin[1]
  if not isinstance(v, S):
    return None
  for a, r in ctx.apps.get(fname, []):
    if ctx.str_eq_valid(S(v.kind, v.segs), S(v.kind, [BS(r, 0, r.length)])):
      return a
  return None


# -------------------------------------------------------------------- hashes

class HashN(Native):
  tname = 'hash'

  def __init__(self, I, key=None, data=b''):
    Native.__init__(self, I)
    self.key = key
    self.fields['data'] = data
    self.fields['digest_size'] = 20
    self.fields['block_size'] = 64
    self.fields['name'] = 'sha1'

  def snap(self):
    return (self.key,)

  def m_update(self, I, x):
    bytes_arg(I, x)
    I.setfield(self, 'data', I.ctx.concat(self.fields['data'], x))

  def m_digest(self, I):
    return digest(I, self.key, self.fields['data'])

  def m_hexdigest(self, I):
    d = self.m_digest(I)
    return I.ctx.sapp('hexlify', (d,), 40, 'str', 102)

  def m_copy(self, I):
    return HashN(I, self.key, self.fields['data'])


def digest(I, key, data):
  ctx = I.ctx
  if key is None:
    if not isinstance(data, S):
      import hashlib
      return hashlib.sha1(data).digest()
    r = ctx.sapp('sha1', (data,), 20, 'bytes')
    for hook in I.state.get('sha1hooks', []):
      hook(I, data, r.segs[0].base)
    return r
  return ctx.sapp('hmac', (key, data), 20, 'bytes')


def m_hashlib(I):
  def sha1(I, data=b''):
    return HashN(I, None, bytes_arg(I, data))
  def new(I, name, data=b''):
    if name != 'sha1':
      raise Unsupported('hash %s' % name)
    return HashN(I, None, bytes_arg(I, data))
  return dict(sha1=nf('sha1', sha1), new=nf('new', new))


def m_hmac(I):
  def new(I, key, msg=None, digestmod=''):
    dm = digestmod
    ok = (isinstance(dm, NativeFn) and dm.name == 'sha1') or dm == 'sha1'
    if not ok:
      raise Unsupported('hmac digestmod')
    return HashN(I, bytes_arg(I, key), bytes_arg(I, msg) if msg is not None else b'')

  def compare_digest(I, a, b):
    if strkind(a) is None or strkind(a) != strkind(b):
      I.throw(TypeError, 'unsupported operand types')
    return I.ctx.decide_streq(a, b)

  def dig(I, key, msg, digest):
    return new(I, key, msg, digest).m_digest(I)
  return dict(new=nf('new', new), compare_digest=nf('compare_digest', compare_digest),
              digest=nf('digest', dig))


# -------------------------------------------------------------------- base64

B64EXCL = frozenset([10, 11, 12, 13, 28, 29, 30, 32, 43, 47, 61, 9])


def b64core(I, x):
  """The unpadded web-safe encoding of bytes x, as a bytes rope."""
  ctx = I.ctx
  if not isinstance(x, S):
    return _b64.urlsafe_b64encode(x).rstrip(b'=')
  n = slen(x)
  L = simp((4 * tz(n) + 2) / 3) if isz(n) else (4 * n + 2) // 3
  r = ctx.sapp('b64', (x,), L, 'bytes', 122, B64EXCL)
  base = r.segs[0].base if isinstance(r, S) else None
  if base is not None and base.defn is None:
    def defn(i, x=x, n=n):
      q = simp(tz(i) / 4)
      facts = []
      def byte(j):
        p = simp(3 * tz(q) + j)
        if not isz(p) and not isz(n) and p >= n:
          return z3.IntVal(0)
        return z3.If(tz(p) < tz(n), tz(ctx.at_t(x, p, facts)), z3.IntVal(0))
      b0, b1, b2 = byte(0), byte(1), byte(2)
      m = tz(i) % 4
      return e64_f(z3.If(m == 0, b0 / 4,
                         z3.If(m == 1, (b0 % 4) * 16 + b1 / 16,
                               z3.If(m == 2, (b1 % 16) * 4 + b2 / 64, b2 % 64))))
    base.defn = defn
  return r


def b64encode(I, x):
  ctx = I.ctx
  bytes_arg(I, x)
  if not isinstance(x, S):
    return _b64.urlsafe_b64encode(x)
  n = slen(x)
  core_ = b64core(I, x)
  p = simp((3 - tz(n) % 3) % 3) if isz(n) else (3 - n % 3) % 3
  return mkstr('bytes', list(rope(core_).segs) + [Rep(61, p)])


def b64decode(I, t):
  """urlsafe_b64decode of bytes or ASCII str."""
  ctx = I.ctx
  if strkind(t) is None:
    I.throw(TypeError, 'argument should be bytes or ASCII string')
  if strkind(t) == 'str':
    t = models.m_encode(I, t, ['ascii'], {})
  if not isinstance(t, S):
    try:
      return _b64.urlsafe_b64decode(t)
    except ValueError:
      I.throw(BinasciiError, 'Incorrect padding')
  segs = list(t.segs)
  # trailing padding
  npad = 0
  if segs and isinstance(segs[-1], Lit) and all(c == 61 for c in segs[-1].codes):
    npad = len(segs[-1].codes)
    segs.pop()
  elif segs and isinstance(segs[-1], Rep) and segs[-1].code == 61:
    npad = segs[-1].n
    segs.pop()
  merged = []
  for s in segs:      # adjacent slices of one text, joined
    if merged and isinstance(s, BS) and isinstance(merged[-1], BS) and s.base is merged[-1].base and \
        ctx.teq(merged[-1].hi, s.lo):
      merged[-1] = BS(s.base, merged[-1].lo, s.hi)
    else:
      merged.append(s)
  segs = merged
  pieces = []
  ok = bool(segs)
  total = 0
  for idx, s in enumerate(segs):
    if not (isinstance(s, BS) and s.base.origin and s.base.origin[0] == 'b64'):
      ok = False
      break
    x = s.base.origin[1][0]
    n = slen(x)
    last = idx == len(segs) - 1
    if not ctx.entails(tz(s.lo) % 4 == 0):
      ok = False
      break
    lo = simp(3 * (tz(s.lo) / 4))
    if ctx.entails(tz(s.hi) % 4 == 0) and ctx.entails(tz(s.hi) * 3 <= 4 * tz(n)):
      hi = simp(3 * (tz(s.hi) / 4))
    elif last and ctx.teq(s.hi, s.base.length):
      hi = n
    else:
      ok = False
      break
    pieces.append((x, lo, hi))
    total = tadd(total, s.length)
  if ok:
    need = (4 - tz(total) % 4) % 4
    if not ctx.decide(tz(npad) >= need):
      I.throw(BinasciiError, 'Incorrect padding')
    out = b''
    for x, lo, hi in pieces:
      out = ctx.concat(out, ctx.slice(x, mkint(lo), mkint(hi)))
    return out
  # does the text equal the encoding of something already encoded?
  body = mkstr('bytes', segs)
  for a, r in ctx.apps.get('b64', []):
    if ctx.str_eq_valid(body, S('bytes', [BS(r, 0, r.length)])):
      need = (4 - tz(r.length) % 4) % 4
      if not ctx.decide(tz(npad) >= need):
        I.throw(BinasciiError, 'Incorrect padding')
      return a[0]
  # arbitrary text
  good = ctx.bapp('b64ok', (t,))
  if not I.truth(good):
    I.throw(BinasciiError, 'Incorrect padding')
  n = slen(t)
  r = ctx.sapp('b64dec', (t,), lambda: ctx.fresh('declen'), 'bytes')
  ctx.add(tz(slen(r)) * 4 <= tz(n) * 3)
  return r


def m_base64(I):
  def plain(I, *a, **k):
    raise Unsupported('standard base64 alphabet')
  return dict(urlsafe_b64encode=nf('urlsafe_b64encode', b64encode),
              urlsafe_b64decode=nf('urlsafe_b64decode', b64decode),
              b64encode=nf('b64encode', plain), b64decode=nf('b64decode', plain))


# -------------------------------------------------------------------- struct

def m_struct(I):
  sizes = {'>i': (4, True), '>I': (4, False), '!i': (4, True), '!I': (4, False), '>l': (4, True),
           '>L': (4, False), '>q': (8, True), '>Q': (8, False), '>h': (2, True), '>H': (2, False),
           '>B': (1, False), '>b': (1, True)}

  def spec(f):
    if isinstance(f, str) and f in sizes:
      return sizes[f]
    raise Unsupported('struct format %r' % (f,))

  def pack(I, f, *vals):
    if all(isinstance(v, (int, bytes)) for v in vals) and isinstance(f, str):
      try:
        return _struct.pack(f, *vals)
      except _struct.error:
        I.throw(StructError, 'argument out of range')
    n, signed = spec(f)
    (v,) = vals
    if not models.isnum(v):
      I.throw(StructError, 'required argument is not an integer')
    t = tz(iterm(v))
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not I.ctx.decide(z3.And(t >= lo, t <= hi)):
      I.throw(StructError, 'argument out of range')
    segs = [Rep(simp((t / 256 ** (n - 1 - i)) % 256), 1) for i in range(n)]
    I.state.setdefault('packed', []).append((segs, f, v))
    return mkstr('bytes', segs)

  def unpack(I, f, b):
    bytes_arg(I, b)
    if isinstance(f, str) and not isinstance(b, S):
      try:
        return tuple(_struct.unpack(f, b))
      except _struct.error:
        I.throw(StructError, 'unpack requires a buffer')
    n, signed = spec(f)
    L = slen(b)
    if not I.ctx.decide(tz(L) == n):
      I.throw(StructError, 'unpack requires a buffer of %d bytes' % n)
    for segs, g, v in I.state.get('packed', []):
      if g == f and len(b.segs) == len(segs) and all(
          isinstance(p, Rep) and tsame(p.code, q.code) for p, q in zip(b.segs, segs)):
        return (v,)
    t = 0
    for i in range(n):
      t = tadd(tmul(t, 256), I.ctx.at(b, i))
    if signed:
      if I.ctx.decide(tz(I.ctx.at(b, 0)) >= 128):
        t = tsub(t, 1 << (8 * n))
    # mention of earlier packed values helps the solver
    return (mkint(t),)

  def calcsize(I, f):
    return _struct.calcsize(f)
  return dict(pack=nf('pack', pack), unpack=nf('unpack', unpack), error=StructError,
              calcsize=nf('calcsize', calcsize))


# -------------------------------------------------------------------- json, pickle

def symtree(v):
  """Does the tree have a list of symbolic length?"""
  if isinstance(v, PList):
    return v.sym is not None or any(symtree(x) for x in v.items)
  return isinstance(v, PDict) and any(symtree(x) for _, x in v.entries)


def treecopy(I, v):
  if isinstance(v, PList):
    p = PList([treecopy(I, x) for x in v.items], I.ctx.newserial())
    p.sym = v.sym
    return p
  if isinstance(v, PDict):
    return PDict([(k, treecopy(I, x)) for k, x in v.entries], I.ctx.newserial())
  return v


def json_dumps(I, v, **kw):
  if I.state.get('lazymap') and symtree(v):
    s = I.ctx.freshstr('json')
    I.state.setdefault('symjson', []).append((s, treecopy(I, v)))
    return s
  fr = freeze(I, v)
  if frozen_concrete(fr):
    return _json.dumps(unfreeze_py(fr), **{k: x for k, x in kw.items() if not isinstance(x, (S, SInt))})
  def mk():
    n = I.ctx.fresh('jsonlen')
    I.ctx.add(n >= 2)
    return n
  return I.ctx.sapp('json', (fr,), mk, 'str', 126, frozenset([10, 11, 12, 13, 28, 29, 30]))


def json_loads(I, s, **kw):
  if strkind(s) is None:
    I.throw(TypeError, 'the JSON object must be str, bytes or bytearray')
  if not isinstance(s, S):
    try:
      return topv(I, _json.loads(s))
    except ValueError:
      I.throw(ValueError, 'Expecting value')
  s2 = S('str', s.segs)
  a = find_app(I, 'json', s2)
  if a is not None:
    return thaw(I, a[0])
  for t, v in I.state.get('symjson', ()):
    if I.ctx.str_eq_valid(t, s):
      return treecopy(I, v)
  h = I.state.get('json_any')
  if h is not None:
    return h(I, s)
  if not I.truth(I.ctx.bapp('jsonok', (s,))):
    I.throw(ValueError, 'Expecting value')
  raise Unsupported('json.loads of arbitrary text')


def m_json(I):
  def load(I, f):
    return json_loads(I, I.call(I.getattr(f, 'read')))

  def dump(I, v, f):
    I.call(I.getattr(f, 'write'), [json_dumps(I, v)])
  return dict(dumps=nf('dumps', json_dumps), loads=nf('loads', json_loads),
              load=nf('load', load), dump=nf('dump', dump),
              JSONDecodeError=ValueError)


class PickleN(Native):
  """The pickle of a value: equal exactly for values of equal structure and content."""
  tname = 'bytes'

  def __init__(self, I, tree):
    Native.__init__(self, I)
    self.tree = tree

  def isinst(self, I, c):
    return clsname(c) == 'bytes'

  def m___hash__(self, I):
    raise Unsupported('hash of a pickle')

  def m___eq__(self, I, o):
    if not isinstance(o, PickleN):
      return False

    def rec(x, y):
      if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(rec(p, q) for p, q in zip(x, y))
      if isinstance(x, tuple) or isinstance(y, tuple):
        return False
      if isinstance(x, (Ref, type)) or isinstance(y, (Ref, type)):
        return x is y
      return bool(I.truth(I.eq(x, y)))
    return rec(self.tree, o.tree)


def m_pickle(I):
  def dumps(I, v, *a, **k):
    seen = {}

    def fr(x):
      if isinstance(x, (Obj, PList, PDict)):
        if id(x) in seen:
          return ('ref', seen[id(x)])
        seen[id(x)] = len(seen)
      if isinstance(x, Obj):
        if isinstance(x.cls, ClassV):
          for n in ('__getstate__', '__reduce__', '__reduce_ex__', '__getnewargs__'):
            if isinstance(I.find(x.cls, n), FuncV):
              raise Unsupported('pickle: ' + n)
        return ('obj', clsname(x.cls)) + tuple((n, fr(x.fields[n])) for n in sorted(x.fields))
      if isinstance(x, tuple):
        return ('T',) + tuple(fr(y) for y in x)
      if isinstance(x, PList):
        if x.sym is not None:
          raise Unsupported('pickle of a symbolic list')
        return ('L',) + tuple(fr(y) for y in x.items)
      if isinstance(x, PDict):
        return ('D',) + tuple((fr(k), fr(y)) for k, y in x.entries)
      return x
    return PickleN(I, fr(v))
  return dict(dumps=nf('dumps', dumps))


# -------------------------------------------------------------------- ASN.1

class AsnN(Native):
  def __init__(self, I, kind, val=None):
    Native.__init__(self, I)
    self.kind = kind       # int oct null oid seq bits
    self.val = val
    self.tname = 'asn1 ' + kind

  def freeze(self, I):
    if self.kind == 'seq':
      return ('A', 'seq') + tuple(freeze(I, x) for x in self.val)
    return ('A', self.kind, self.val)

  def m_setComponentByPosition(self, I, i, v=None):
    if self.kind != 'seq':
      I.throw(AttributeError, 'setComponentByPosition')
    I.track(self, 'val')
    i = iterm(i)
    if isz(i):
      raise Unsupported('symbolic ASN.1 position')
    if models.isnum(v):
      v = AsnN(I, 'int', v)
    if i == len(self.val):
      self.val = self.val + (v,)
    elif i < len(self.val):
      self.val = self.val[:i] + (v,) + self.val[i + 1:]
    else:
      raise Unsupported('ASN.1 gap')
    return self

  def m_getComponentByPosition(self, I, i):
    if self.kind != 'seq':
      I.throw(AttributeError, 'getComponentByPosition')
    i = iterm(i)
    if isz(i):
      raise Unsupported('symbolic ASN.1 position')
    if not 0 <= i < len(self.val):
      I.throw(PyAsn1Error, 'index')
    return self.val[i]

  def m___len__(self, I):
    if self.kind == 'seq':
      return len(self.val)
    if self.kind == 'oct':
      return mkint(slen(self.val))
    if self.kind == 'bits':
      return mkint(slen(self.val))
    if self.kind == 'oid':
      return len(self.val.split('.'))
    I.throw(TypeError, 'object has no len()')

  def m___int__(self, I):
    if self.kind == 'int':
      return self.val
    if self.kind == 'bits':
      raise Unsupported('int of BitString')
    I.throw(TypeError if self.kind != 'oct' else ValueError, 'int()')

  def m___getitem__(self, I, k):
    if self.kind == 'seq':
      return models.getitem(I, self.val, k)
    raise Unsupported('ASN.1 subscript')

  def m___iter__(self, I):
    if self.kind == 'seq':
      return self.val
    raise Unsupported('ASN.1 iteration')

  def m___eq__(self, I, o):
    if isinstance(o, AsnN):
      if o.kind != self.kind:
        return False
      if self.kind in ('int', 'oct', 'oid'):
        return I.eq(self.val, o.val)
      if self.kind == 'null':
        return True
      raise Unsupported('ASN.1 comparison')
    if self.kind in ('int', 'oct', 'oid'):
      return I.eq(self.val, o)
    return False

  def m_asOctets(self, I):
    if self.kind == 'oct':
      return self.val
    if self.kind == 'bits':
      bits = self.val
      a = find_app(I, 'bin', bits)
      if a is not None:
        return models.m_encode(I, a[0], ['latin-1'], {})
      n = slen(bits)
      if not I.ctx.entails(tz(n) % 8 == 0):
        raise Unsupported('BitString of a length not a multiple of 8')
      ctx = I.ctx
      def at(i, facts):
        t = 0
        for j in range(8):
          t = tadd(t, tmul(tsub(ctx.at_t(bits, tadd(tmul(i, 8), j), facts), 48), 1 << (7 - j)))
        return t
      return mkstr('bytes', [Gen(simp(tz(n) / 8), at)])
    I.throw(AttributeError, 'asOctets')

  def m___bytes__(self, I):
    return self.m_asOctets(I)

  def m___str__(self, I):
    return I.ctx.sapp('asnstr', (self.freeze(I),), lambda: I.ctx.fresh('asnstrlen'))


class AsnAny(Native):
  """What decoding foreign DER may yield: anything."""
  tname = 'asn1 any'

  def trouble(self, I, *excs):
    c = I.ctx.choose(len(excs) + 1)
    if c:
      I.throw(excs[c - 1], 'asn1')

  def m___len__(self, I):
    self.trouble(I, TypeError, PyAsn1Error)
    n = I.ctx.fresh('asnlen')
    I.ctx.add(n >= 0)
    return SInt(n)

  def m_getComponentByPosition(self, I, i):
    self.trouble(I, AttributeError, PyAsn1Error)
    return AsnAny(I)

  def m___int__(self, I):
    self.trouble(I, TypeError, ValueError, PyAsn1Error)
    return SInt(I.ctx.fresh('asnint'))

  def m___eq__(self, I, o):
    return mkbool(I.ctx.freshb('asneq'))

  def m___iter__(self, I):
    raise Unsupported('iteration over arbitrary ASN.1')

  def m_asOctets(self, I):
    self.trouble(I, AttributeError, PyAsn1Error)
    return I.ctx.freshstr('asnoct', kind='bytes')


class AsnLong(AsnN):
  """A SEQUENCE of a symbolic number of components of any kind."""
  def __init__(self, I, n):
    AsnN.__init__(self, I, 'seq', ())
    self.n = n

  def freeze(self, I):
    return ('A', 'long', self.n)

  def m___len__(self, I):
    return self.n

  def m_getComponentByPosition(self, I, i):
    return AsnAny(I)

  def m_setComponentByPosition(self, I, i, v=None):
    raise Unsupported('change of a long SEQUENCE')

  def m___getitem__(self, I, k):
    raise Unsupported('ASN.1 subscript')

  def m___iter__(self, I):
    p = PList([], I.ctx.newserial())
    p.sym = GList(tz(iterm(self.n)), lambda i: AsnAny(I))
    return p


def thaw_asn(I, f):
  if f[1] == 'long':
    return AsnLong(I, f[2])
  if f[1] == 'seq':
    return AsnN(I, 'seq', tuple(thaw_asn(I, x) for x in f[2:]))
  return AsnN(I, f[1], f[2])


def m_univ(I):
  def bits(I, v=''):
    if not strkind(v) == 'str':
      raise Unsupported('BitString initialiser')
    ctx = I.ctx
    if isinstance(v, str):
      if len(v) >= 3 and v[0] == "'" and v.endswith("'B"):
        return AsnN(I, 'bits', v[1:-2])
      raise Unsupported('BitString initialiser')
    segs = list(v.segs)
    if not (isinstance(segs[0], Lit) and segs[0].codes[0] == 39 and
            isinstance(segs[-1], Lit) and segs[-1].codes[-2:] == (39, 66)):
      raise Unsupported('BitString initialiser')
    segs[0] = Lit(segs[0].codes[1:])
    segs[-1] = Lit(segs[-1].codes[:-2])
    return AsnN(I, 'bits', mkstr('str', segs))

  def seq(I):
    return AsnN(I, 'seq', ())

  def oct_(I, v=b''):
    if isinstance(v, AsnN):
      v = v.m_asOctets(I)
    bytes_arg(I, v)
    return AsnN(I, 'oct', v)

  def integer(I, v):
    if isinstance(v, AsnN):
      v = v.val
    if not models.isnum(v):
      raise Unsupported('univ.Integer initialiser')
    return AsnN(I, 'int', v)
  return dict(Integer=nf('Integer', integer), OctetString=nf('OctetString', oct_),
              Null=nf('Null', lambda I, *a: AsnN(I, 'null')),
              ObjectIdentifier=nf('ObjectIdentifier', lambda I, v: AsnN(I, 'oid', v)),
              Sequence=nf('Sequence', seq), BitString=nf('BitString', bits))


def m_encoder(I):
  def encode(I, v):
    if not isinstance(v, AsnN):
      I.throw(PyAsn1Error, 'not an ASN.1 object')
    def mk():
      n = I.ctx.fresh('derlen')
      I.ctx.add(n >= 2)
      return n
    return I.ctx.sapp('der', (v.freeze(I),), mk, 'bytes')
  return dict(encode=nf('encode', encode))


def m_decoder(I):
  def decode(I, v):
    if isinstance(v, AsnN):
      v = v.m_asOctets(I)
    bytes_arg(I, v)
    if isinstance(v, S):
      a = find_app(I, 'der', v)
      if a is not None:
        if a[0] == ('A', 'seq'):
          return (None, b'')      # pyasn1: an empty SEQUENCE decodes to None
        return (thaw_asn(I, a[0]), b'')
    elif not v:
      I.throw(PyAsn1Error, 'empty')
    if I.ctx.choose(2):
      I.throw(PyAsn1Error, 'bad DER')
    return (AsnAny(I), I.ctx.freshstr('derrest', kind='bytes'))
  return dict(decode=nf('decode', decode))


# -------------------------------------------------------------------- ciphers

class CipherN(Native):
  """AES-CBC without padding.  self.o is the (unbounded) output stream; inp
  the input consumed so far; done = number of output bytes already returned."""
  tname = 'cipher'

  def __init__(self, I, key, iv, op):
    Native.__init__(self, I)
    self.key, self.iv, self.op = key, iv, op
    self.fields['inp'] = b''
    self.fields['block_size'] = 16
    ctx = I.ctx
    I.state.setdefault('ciphers', [])
    n = ctx.fresh('ciphmax')
    self.o = ctx.newbase('cbc_' + ('enc' if op else 'dec'), n)
    self.peer = None
    I.state['ciphers'].append(self)

  def run(self, I, x):
    """-> output produced by feeding bytes x"""
    ctx = I.ctx
    bytes_arg(I, x)
    old = self.fields['inp']
    new = ctx.concat(old, x)
    I.setfield(self, 'inp', new)
    a = blocks(slen(old))
    b = blocks(slen(new))
    ctx.add(tz(b) <= tz(self.o.length))
    src = self.source(I, new, b)
    if src is not None:
      return ctx.slice(src, mkint(a), mkint(b))
    if tsame(a, b) or ctx.entails(tz(a) == tz(b)):
      return b''
    return mkstr('bytes', [BS(self.o, a, b)])

  def source(self, I, new, b):
    """Where the output is already known: same direction with equal input, or
    the inverse direction fed with that one's output."""
    ctx = I.ctx
    ok = lambda c: ctx.args_equal((c.key, c.iv), (self.key, self.iv))
    for c in I.state['ciphers']:
      if c is self or not ok(c):
        continue
      if c.op == self.op:
        L = slen(c.fields['inp'])
        if ctx.entails(tz(b) <= tz(L)) and ctx.str_eq_valid(
            ctx.slice(new, 0, mkint(b)), ctx.slice(c.fields['inp'], 0, mkint(b))):
          return mkstr('bytes', [BS(c.o, 0, c.o.length)])
      else:
        L = slen(c.fields['inp'])
        if ctx.entails(tz(b) <= tz(blocks(L))):
          want = mkstr('bytes', [BS(c.o, 0, b)])
          if ctx.str_eq_valid(ctx.slice(new, 0, mkint(b)), want):
            return ctx.slice(c.fields['inp'], 0, mkint(b))
    return None

  def snap(self):
    return (self.key, self.iv, self.op)

  def m_update(self, I, x):
    return self.run(I, x)

  def m_final(self, I):
    L = slen(self.fields['inp'])
    if not I.ctx.decide(tz(L) % 16 == 0):
      I.throw(EVPError, 'data not multiple of block length')
    return b''


def blocks(n):
  return simp(16 * (tz(n) / 16)) if isz(n) else 16 * (n // 16)


class PcCipher(Native):
  """PyCrypto AES.new: encrypt/decrypt methods on one chaining state each."""
  tname = 'AES'

  def __init__(self, I, key, iv):
    Native.__init__(self, I)
    self.enc = self.dec = None
    self.k, self.v = key, iv
    self.fields['block_size'] = 16
    self.fields['IV'] = iv

  def snap(self):
    return (self.k, self.v, self.enc, self.dec)

  def both(self, I, op, x):
    bytes_arg(I, x)
    if not I.ctx.decide(tz(slen(x)) % 16 == 0):
      I.throw(ValueError, 'Input strings must be a multiple of 16 in length')
    c = self.enc if op else self.dec
    if c is None:
      c = CipherN(I, self.k, self.v, op)
      if op:
        self.enc = c
      else:
        self.dec = c
    return c.run(I, x)

  def m_encrypt(self, I, x):
    return self.both(I, 1, x)

  def m_decrypt(self, I, x):
    return self.both(I, 0, x)


def check_key(I, key, iv, exc):
  ctx = I.ctx
  n = slen(key)
  if not ctx.decide(z3.Or(tz(n) == 16, tz(n) == 24, tz(n) == 32)):
    I.throw(exc, 'AES key must be either 16, 24, or 32 bytes long')
  if not ctx.decide(tz(slen(iv)) == 16):
    I.throw(exc, 'IV must be 16 bytes long')


def m_evp(I):
  def cipher(I, alg, key, iv, op, key_as_bytes=0, d='md5', salt=b'12345678', i=1, padding=1):
    bytes_arg(I, key)
    bytes_arg(I, iv)
    if padding != 0:
      raise Unsupported('EVP padding')
    ctx = I.ctx
    n = slen(key)
    if isinstance(alg, S):
      # 'aes_<n>_cbc'
      segs = alg.segs
      it = [s for s in segs if isinstance(s, BS) and s.base.origin and s.base.origin[0] == 'itoa']
      lits = [s for s in segs if isinstance(s, Lit)]
      if not (len(segs) == 3 and len(it) == 1 and
              ''.join(map(chr, lits[0].codes)) == 'aes_' and ''.join(map(chr, lits[1].codes)) == '_cbc'):
        raise Unsupported('cipher name')
      bits = iterm(it[0].base.origin[1][0])
    else:
      if not (alg.startswith('aes_') and alg.endswith('_cbc')):
        raise Unsupported('cipher %s' % alg)
      bits = int(alg[4:-4])
    if not ctx.decide(z3.Or([tz(bits) == q for q in (128, 192, 256)])):
      I.throw(EVPError, 'unknown cipher')
    if not ctx.decide(tz(n) * 8 >= tz(bits)):
      I.throw(ValueError, 'key too short')
    if not ctx.teq(tmul(n, 8), bits):
      key = ctx.slice(key, 0, mkint(simp(tz(bits) / 8)))
    if not ctx.decide(tz(slen(iv)) >= 16):
      I.throw(ValueError, 'iv too short')
    if op not in (0, 1):
      raise Unsupported('cipher op')
    return CipherN(I, key, ctx.slice(iv, 0, 16), op)
  return dict(Cipher=nf('Cipher', cipher), EVPError=EVPError)


def m_aes(I):
  def new(I, key, mode=1, IV=None):
    bytes_arg(I, key)
    bytes_arg(I, IV)
    if mode != 2:
      raise Unsupported('AES mode')
    check_key(I, key, IV, ValueError)
    return PcCipher(I, key, IV)
  return dict(new=nf('new', new), MODE_CBC=2, MODE_ECB=1, block_size=16,
              key_size=(16, 24, 32))


# -------------------------------------------------------------------- RSA, DSA

def strip0(I, v):
  return models.m_lstrip(I, v, [b'\0'], {})


class RsaN(Native):
  tname = 'RSA'
  NAMES = ('n', 'e', 'd', 'p', 'q', 'u')

  def __init__(self, I, vals):
    Native.__init__(self, I)
    for k, v in zip(self.NAMES, vals):
      self.fields[k] = v
    self.fields['keydata'] = PList(list(self.NAMES), I.ctx.newserial())

  def pub(self):
    return (self.fields['n'], self.fields['e'])

  def m_publickey(self, I):
    return RsaN(I, [self.fields['n'], self.fields['e']])

  def m_has_private(self, I):
    return 'd' in self.fields

  def m_size(self, I):
    return mkint(tsub(core.bitlen_f(tz(iterm(self.fields['n']))), 1))

  def nbytes(self, I):
    return simp((core.bitlen_f(tz(iterm(self.fields['n']))) + 7) / 8)

  def fits(self, I, m):
    """int(m) < n, forking when undecided"""
    ctx = I.ctx
    k = self.nbytes(I)
    L = slen(m)
    if ctx.entails(tz(L) < tz(k)):
      return True
    c0 = ctx.at(m, 0) if not (not isz(L) and L == 0) else 0
    if ctx.entails(z3.And(tz(L) == tz(k), tz(c0) == 0)):
      return True
    return I.truth(ctx.bapp('rsafits', (self.fields['n'], m)))

  def m_encrypt(self, I, m, K):
    bytes_arg(I, m)
    if not self.fits(I, m):
      I.throw(ValueError, 'Plaintext too large')
    ctx = I.ctx
    def mk():
      n = ctx.fresh('rsaclen')
      ctx.add(z3.And(n >= 0, n <= tz(self.nbytes(I))))
      return n
    c = ctx.sapp('rsaenc', self.pub() + (m,), mk, 'bytes')
    return (c,)

  def m_decrypt(self, I, c):
    if isinstance(c, tuple):
      c = c[0]
    bytes_arg(I, c)
    if 'd' not in self.fields:
      I.throw(TypeError, 'No private key')
    ctx = I.ctx
    for a, r in ctx.apps.get('rsaenc', []):
      if ctx.args_equal(a[:2], self.pub()) and self.partner(I) and ctx.str_eq_valid(
          c, S('bytes', [BS(r, 0, r.length)])):
        return strip0(I, a[2])
    def mk():
      n = ctx.fresh('rsaplen')
      ctx.add(z3.And(n >= 0, n <= tz(self.nbytes(I))))
      return n
    if ctx.choose(2):
      I.throw(ValueError, 'Ciphertext too large')
    return ctx.sapp('rsadec', self.pub() + (self.fields['d'], c), mk, 'bytes')

  def partner(self, I):
    """d belongs to (n, e)?"""
    for n, e, d in I.state.get('rsapairs', []):
      if I.ctx.args_equal((n, e, d), (self.fields['n'], self.fields['e'], self.fields['d'])):
        return True
    return False

  def m_sign(self, I, m, K):
    bytes_arg(I, m)
    ctx = I.ctx
    if 'd' not in self.fields:
      I.throw(TypeError, 'No private key')
    if not self.fits(I, m):
      I.throw(ValueError, 'Message too large')
    s = ctx.iapp('rsasig', self.pub() + (self.fields['d'], m))
    ctx.add(z3.And(tz(iterm(s)) >= 0, tz(iterm(s)) < tz(iterm(self.fields['n']))))
    ctx.add(core.bitlen_f(tz(iterm(s))) <= core.bitlen_f(tz(iterm(self.fields['n']))))
    if self.partner(I):
      I.state.setdefault('rsasigs', []).append((self.pub(), m, s))
    return (s,)

  def m_verify(self, I, m, sig):
    bytes_arg(I, m)
    ctx = I.ctx
    s = sig[0]
    for p, mm, ss in I.state.get('rsasigs', []):
      if ctx.args_equal(p + (mm, ss), self.pub() + (m, s)):
        return True
    return ctx.bapp('rsaverify', self.pub() + (m, s))


def rsa_fresh(I, bits=None):
  ctx = I.ctx
  vals = {}
  for k in RsaN.NAMES:
    t = ctx.fresh('rsa_' + k)
    ctx.add(t >= 2 if k in 'npq' else t >= 1)
    vals[k] = SInt(t)
  bl = core.bitlen_f(vals['n'].t)
  ctx.add(bl >= 1)
  if bits is not None:
    ctx.add(bl == tz(bits))
  I.state.setdefault('rsapairs', []).append((vals['n'], vals['e'], vals['d']))
  return RsaN(I, [vals[k] for k in RsaN.NAMES])


def m_rsa(I):
  def generate(I, bits, randfunc=None, progress=None, e=65537):
    k = rsa_fresh(I, iterm(bits))
    I.ctx.events.append(('rsagen', bits, k, randfunc))
    return k

  def construct(I, t):
    return RsaN(I, list(t))
  return dict(generate=nf('generate', generate), construct=nf('construct', construct))


class DsaN(Native):
  tname = 'DSA'
  NAMES = ('y', 'g', 'p', 'q', 'x')

  def __init__(self, I, vals):
    Native.__init__(self, I)
    for k, v in zip(self.NAMES, vals):
      self.fields[k] = v

  def pub(self):
    return tuple(self.fields[k] for k in 'ygpq')

  def m_publickey(self, I):
    return DsaN(I, list(self.pub()))

  def m_has_private(self, I):
    return 'x' in self.fields

  def m_sign(self, I, m, k):
    bytes_arg(I, m)
    ctx = I.ctx
    if 'x' not in self.fields:
      I.throw(TypeError, 'Private key not available in this object')
    q = tz(iterm(self.fields['q']))
    kt = tz(iterm(k))
    if not ctx.decide(z3.And(kt > 1, kt < q)):
      I.throw(ValueError, 'k is not between 2 and q-1')
    r = ctx.iapp('dsa_r', self.pub() + (self.fields['x'], m, k))
    s = ctx.iapp('dsa_s', self.pub() + (self.fields['x'], m, k))
    for t in (r, s):
      ctx.add(z3.And(tz(iterm(t)) >= 0, tz(iterm(t)) < q))
    if any(ctx.args_equal(p, self.pub() + (self.fields['x'],)) for p in I.state.get('dsapairs', [])):
      I.state.setdefault('dsasigs', []).append((self.pub(), m, r, s))
    ctx.events.append(('dsasign', k))
    return (r, s)

  def m_verify(self, I, m, sig):
    bytes_arg(I, m)
    r, s = sig
    ctx = I.ctx
    for p, mm, rr, ss in I.state.get('dsasigs', []):
      if ctx.args_equal(p + (mm, rr, ss), self.pub() + (m, r, s)):
        return True
    return ctx.bapp('dsaverify', self.pub() + (m, r, s))


def dsa_fresh(I):
  ctx = I.ctx
  vals = []
  for k in DsaN.NAMES:
    t = ctx.fresh('dsa_' + k)
    ctx.add(t >= (4 if k == 'q' else 1))
    vals.append(SInt(t))
  I.state.setdefault('dsapairs', []).append(tuple(vals))
  return DsaN(I, vals)


def m_dsa(I):
  def generate(I, bits, randfunc=None, progress=None):
    k = dsa_fresh(I)
    I.ctx.events.append(('dsagen', bits, k, randfunc))
    return k

  def construct(I, t):
    return DsaN(I, list(t))
  return dict(generate=nf('generate', generate), construct=nf('construct', construct))


def m_random(I):
  class SysRandom(Native):
    tname = 'SystemRandom'

    def m_randint(self, I, a, b):
      t = I.ctx.fresh('rnd')
      if not I.ctx.decide(tz(iterm(a)) <= tz(iterm(b))):
        I.throw(ValueError, 'empty range')
      I.ctx.add(z3.And(t >= tz(iterm(a)), t <= tz(iterm(b))))
      I.ctx.events.append(('randint', a, b, t))
      return SInt(t)

    def m_randrange(self, I, a, b):
      return self.m_randint(I, a, models.binop(I, ast.Sub(), b, 1))
  return dict(SystemRandom=nf('SystemRandom', lambda I: SysRandom(I)))


# -------------------------------------------------------------------- os, files

class FileN(Native):
  tname = 'file'

  def __init__(self, I, path, mode):
    Native.__init__(self, I)
    self.path, self.mode = path, mode
    self.fields['closed'] = False
    self.fields['name'] = path

  def m_write(self, I, data):
    fs = I.world.fs(I)
    fs.fault(I, 'write', self.path)
    want = 'bytes' if 'b' in self.mode else 'str'
    if strkind(data) != want:
      I.throw(TypeError, 'write() argument must be %s' % want)
    fs.append(I, self.path, data)
    return mkint(slen(data))

  def m_read(self, I, *a):
    fs = I.world.fs(I)
    fs.fault(I, 'read', self.path)
    v = fs.content(I, self.path)
    if 'b' in self.mode and strkind(v) == 'str':
      v = models.m_encode(I, v, ['latin-1'], {})
    return v

  def m_close(self, I):
    if not self.fields['closed']:
      I.world.fs(I).fault(I, 'close', self.path)
    self.fields['closed'] = True

  def m_flush(self, I):
    pass

  def m_fileno(self, I):
    return 3

  def m___enter__(self, I):
    return self

  def m___exit__(self, I, *a):
    self.m_close(I)
    return None


class FS(object):
  """Ghost file system of one path: list of [path, content or None]."""

  def __init__(self):
    self.files = []
    self.log = []
    self.faults = False
    self.unknown = None       # hook(I, path) -> content of a file never written
    self.dirs = []            # directories that exist

  def find(self, I, path):
    for f in self.files:
      if I.ctx.quick_same(f[0], path) or I.ctx.decide_streq(f[0], path):
        return f
    return None

  def fault(self, I, what, path):
    if self.faults and I.ctx.choose(2):
      self.log.append(('fault', what, path))
      I.throw(IOError, what)

  def append(self, I, path, data):
    f = self.find(I, path)
    f[1] = I.ctx.concat(f[1], data)
    self.log.append(('write', path, data))

  def content(self, I, path):
    f = self.find(I, path)
    return f[1]

  def open(self, I, path, mode):
    self.fault(I, 'open', path)
    f = self.find(I, path)
    if 'r' in mode:
      if f is None:
        if self.unknown is not None:
          c = self.unknown(I, path)
          if c is not None:
            self.files.append([path, c])
            return FileN(I, path, mode)
        I.throw(FileNotFoundError, 'No such file')
      return FileN(I, path, mode)
    self.log.append(('open', path, mode))
    empty = b'' if 'b' in mode else ''
    if f is None:
      self.files.append([path, empty])
    elif 'w' in mode:
      f[1] = empty
    return FileN(I, path, mode)

  def exists(self, I, path):
    if any(I.ctx.quick_same(d, path) or I.ctx.decide_streq(d, path) for d in self.dirs):
      return True
    return self.find(I, path) is not None

  def remove(self, I, path):
    self.fault(I, 'remove', path)
    f = self.find(I, path)
    if f is None:
      I.throw(FileNotFoundError, 'No such file')
    self.log.append(('remove', path))
    self.files = [g for g in self.files if g is not f]

  def rename(self, I, a, b):
    self.fault(I, 'rename', a)
    f = self.find(I, a)
    if f is None:
      I.throw(FileNotFoundError, 'No such file')
    g = self.find(I, b)
    self.log.append(('rename', a, b))
    self.files = [h for h in self.files if h is not f and h is not g]
    self.files.append([b, f[1]])


def pathjoin(I, a, *rest):
  r = a
  for b in rest:
    if not isinstance(b, S) and not isinstance(r, S):
      r = os.path.join(r, b)
      continue
    if strkind(b) != 'str' or strkind(r) != 'str':
      I.throw(TypeError, 'join() argument must be str')
    # names used by the repository never start with '/'; locations may end in one
    if I.ctx.decide(tz(slen(b)) > 0) and not isinstance(b, S) and b.startswith('/'):
      r = b
      continue
    if isinstance(b, S):
      c = I.ctx.at(b, 0)
      if I.ctx.feasible(tz(c) == 47) and I.ctx.decide(tz(c) == 47):
        r = b
        continue
    L = slen(r)
    if isinstance(r, S):
      if not I.ctx.decide(tz(L) > 0):
        r = b
        continue
      c = I.ctx.at(r, tsub(L, 1))
      if I.ctx.decide(tz(c) == 47):
        r = I.ctx.concat(r, b)
        continue
    elif r == '' or r.endswith('/'):
      r = I.ctx.concat(r, b)
      continue
    r = I.ctx.concat(I.ctx.concat(r, '/'), b)
  return r


def m_os(I):
  def urandom(I, n):
    t = iterm(n)
    if not I.ctx.decide(tz(t) >= 0):
      I.throw(ValueError, 'negative argument not allowed')
    r = I.ctx.freshstr('rand', t, 'bytes')
    q = I.state.get('randqueue')
    if q:       # a specification may say what the random source delivers
      r = q.pop(0)
      if not I.ctx.teq(slen(r), t):
        raise Unsupported('random source asked for another length')
    I.ctx.events.append(('urandom', t, r))
    return r
  path = ModV('os.path')
  fs = lambda I: I.world.fs(I)
  path.ns.update(
      join=nf('join', pathjoin),
      exists=nf('exists', lambda I, p: fs(I).exists(I, p)),
      isfile=nf('isfile', lambda I, p: fs(I).exists(I, p)),
      isdir=nf('isdir', lambda I, p: mkbool(I.ctx.bapp('isdir', (p,)))),
      dirname=nf('dirname', lambda I, p: os.path.dirname(p)),
      basename=nf('basename', lambda I, p: os.path.basename(p)),
      abspath=nf('abspath', lambda I, p: p))
  env = PDict([], I.ctx.newserial())

  def listdir(I, p):
    h = I.state.get('listdir')
    if h is None:
      raise Unsupported('os.listdir')
    return h(I, p)
  return dict(urandom=nf('urandom', urandom), path=path, environ=env, pathsep=':', sep='/',
              error=OSError, remove=nf('remove', lambda I, p: fs(I).remove(I, p)),
              unlink=nf('unlink', lambda I, p: fs(I).remove(I, p)),
              rename=nf('rename', lambda I, a, b: fs(I).rename(I, a, b)),
              replace=nf('replace', lambda I, a, b: fs(I).rename(I, a, b)),
              fsync=nf('fsync', lambda I, *a: None),
              listdir=nf('listdir', listdir),
              makedirs=nf('makedirs', lambda I, *a, **k: I.ctx.events.append(('makedirs',) + tuple(a))),
              _exit=nf('_exit', lambda I, *a: I.throw(SystemExit, *a)))


def m_sys(I):
  out = PList([], I.ctx.newserial())

  class StreamN(Native):
    tname = 'stdio'

    def m_write(self, I, s):
      I.ctx.events.append(('stderr', s))

    def m_flush(self, I):
      pass
  return dict(path=out, argv=PList(['prog'], I.ctx.newserial()),
              exit=nf('exit', lambda I, *a: I.throw(SystemExit, *a)),
              version_info=(3, 12, 3), stderr=StreamN(I), stdout=StreamN(I),
              maxsize=2 ** 63 - 1)


def m_math(I):
  def ceil(I, v):
    if isinstance(v, models.SRat):
      return mkint(-((-tz(v.num)) / v.den))
    if isinstance(v, (SInt, int)):
      return v
    if isinstance(v, float):
      import math
      return math.ceil(v)
    raise Unsupported('math.ceil')

  def floor(I, v):
    if isinstance(v, models.SRat):
      return mkint(tz(v.num) / v.den)
    if isinstance(v, (SInt, int)):
      return v
    if isinstance(v, float):
      import math
      return math.floor(v)
    raise Unsupported('math.floor')

  def unsup(I, *a):
    import math
    if all(isinstance(x, (int, float)) for x in a):
      return math.log(*a)
    raise Unsupported('math.log')
  return dict(ceil=nf('ceil', ceil), floor=nf('floor', floor), log=nf('log', unsup))


def m_functools(I):
  def wraps(I, f, *a, **k):
    def deco(I, g):
      if isinstance(g, FuncV):
        g.attrs['__wrapped__'] = f
      return g
    return nf('wraps', deco)

  def reduce_(I, f, seq, *init):
    items = I.listof(seq)
    if init:
      r = init[0]
    else:
      r = items.pop(0)
    for x in items:
      r = I.call(f, [r, x])
    return r

  def partial(I, f, *a, **k):
    return NativeFn('partial', lambda I, b, kk: I.call(f, list(a) + list(b), {**k, **kk}))
  return dict(wraps=nf('wraps', wraps), reduce=nf('reduce', reduce_), partial=nf('partial', partial))


def m_itertools(I):
  import itertools

  def product(I, *seqs, **k):
    seqs = [I.iterate(s) for s in seqs]
    if any(isinstance(s, tuple) for s in seqs):
      return many.product(I, seqs, k)
    return PList([tuple(t) for t in itertools.product(*[I.listof(s) for s in seqs], **k)],
                 I.ctx.newserial())

  def chain(I, *seqs):
    return PList([x for s in seqs for x in I.listof(s)], I.ctx.newserial())

  def from_iterable(I, s):
    return PList([x for t in I.listof(s) for x in I.listof(t)], I.ctx.newserial())

  def takewhile(I, f, s):
    out = []
    for x in I.listof(s):
      if not I.truth(I.call(f, [x])):
        break
      out.append(x)
    return PList(out, I.ctx.newserial())
  return dict(product=nf('product', product), chain=nf('chain', chain),
              takewhile=nf('takewhile', takewhile))


def ident(name):
  return nf(name, lambda I, f: f)


def m_abc(I):
  return dict(ABCMeta=object, abstractmethod=ident('abstractmethod'),
              abstractproperty=NativeFn('abstractproperty', models.b_property))


def m_codecs(I):
  m = ModV('codecs')
  I.mods['codecs'] = m
  m.ns['__name__'] = 'codecs'
  fr = Frame(m)
  fr.locals = m.ns
  want = ('Codec', 'IncrementalEncoder', 'BufferedIncrementalEncoder', 'IncrementalDecoder',
          'BufferedIncrementalDecoder', 'StreamWriter', 'StreamReader')
  for node in load_ast(CODECS).body:
    if isinstance(node, ast.ClassDef) and node.name in want:
      I.exec(node, fr)
  return m.ns


NATIVE = {'hashlib': m_hashlib, 'hmac': m_hmac, 'base64': m_base64, 'struct': m_struct,
          'json': m_json, 'pickle': m_pickle, 'pyasn1.type.univ': m_univ,
          'pyasn1.codec.der.encoder': m_encoder, 'pyasn1.codec.der.decoder': m_decoder,
          'pyasn1.error': lambda I: dict(PyAsn1Error=PyAsn1Error),
          'M2Crypto.EVP': m_evp, 'Crypto.Cipher.AES': m_aes, 'Crypto.PublicKey.RSA': m_rsa,
          'Crypto.PublicKey.DSA': m_dsa, 'random': m_random, 'os': m_os, 'sys': m_sys,
          'math': m_math, 'functools': m_functools, 'itertools': m_itertools, 'abc': m_abc,
          'io': lambda I: dict(BlockingIOError=BlockingIOError,
                               UnsupportedOperation=UnsupportedOperation),
          'warnings': lambda I: dict(warn=nf('warn', lambda I, *a, **k: None)),
          'codecs': m_codecs,
          'tempfile': lambda I: {}, 'binascii': lambda I: dict(Error=BinasciiError),
          'string': lambda I: {}, 'collections': lambda I: {}, 'copy': lambda I: {},
          'time': lambda I: {},
          'unittest': lambda I: dict(TestCase=object), 'operator': lambda I: {},
          'subprocess': lambda I: dict(CalledProcessError=CalledProcessError, STDOUT=-2, PIPE=-1)}

MISSING = ('simplejson', 'sha')


def unmodelled(I, full):
  """A library name outside the models: importing it is fine, using it is not decided."""
  def use(I, a, k):
    raise Unsupported('%s is not modelled' % full)
  return NativeFn(full, use)


class World(object):
  def path_of(self, name):
    if name in MODS:
      p = os.path.join(PKG, name + '.py')
      return p if os.path.exists(p) else None
    if name == 'interop':
      return os.path.join(REPO, 'interop/interop.py')
    p = os.path.join(PKG, name + '.py')
    if name.isidentifier() and name not in NATIVE and os.path.exists(p):
      return p
    return None

  def native_module(self, I, name):
    if name not in NATIVE:
      # a package prefix?
      if any(n.startswith(name + '.') for n in NATIVE):
        return ModV(name)
      if name.split('.')[0] in sys.stdlib_module_names:
        I.mods[name] = m = ModV(name)         # importing it is fine, using it is not decided
        m.unmodelled = True
        return m
      return None
    m = ModV(name)
    I.mods[name] = m
    m.ns = dict(NATIVE[name](I))
    return m

  def builtin(self, I, name):
    if name in models.BUILTINS:
      return NativeFn(name, models.BUILTINS[name])
    if name in models.EXCS:
      return models.EXCS[name]
    if name == 'object':
      return object
    if name in ('True', 'False', 'None'):
      return {'True': True, 'False': False, 'None': None}[name]
    if name == 'NotImplemented':
      return NotImplemented
    return Undefined

  native_modules = NATIVE

  def module_attr(self, I, m, name):
    full = m.name + '.' + name
    if full in NATIVE or any(n.startswith(full + '.') for n in NATIVE):
      return I.module(full)
    return Undefined

  def method(self, I, o, name):
    return models.method(I, o, name)

  def import_(self, I, name, fr):
    if name in MISSING:
      I.throw(ImportError, name)
    if name.startswith('keyczar.'):
      return I.module(name[8:])
    return I.module(name)

  def import_from(self, I, module, level, name, fr):
    if level:
      if not module:
        return I.module(name)
      m = I.module(module)
      return m.ns[name]
    if module in MISSING:
      I.throw(ImportError, module)
    if module == 'keyczar':
      return I.module(name)
    full = module + '.' + name
    if full in NATIVE:
      return I.module(full)
    m = I.module(module)
    if name in m.ns:
      return m.ns[name]
    return unmodelled(I, full)

  def fs(self, I):
    if 'fs' not in I.state:
      I.state['fs'] = FS()
    return I.state['fs']

  def open_(self, I, a, k):
    path = a[0]
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    return self.fs(I).open(I, path, mode)


def new_interp(ctx):
  I = Interp(ctx, World())
  I.module('keyczar')
  return I


from . import many      # noqa: E402
