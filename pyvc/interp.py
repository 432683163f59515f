"""AST interpreter of the Python subset used by /repo, over pyvc values."""
import ast
import os
import z3
from .core import *
from .core import NeedFork
from . import core

Undefined = type('Undefined', (), {'__repr__': lambda s: 'Undefined'})()


class Missing(Exception):
  """A function under contract is no longer there."""


class PyRaise(Exception):
  def __init__(self, exc):
    self.exc = exc

  def __str__(self):
    return 'PyRaise(%s)' % clsname(self.exc.cls)


class _Break(Exception):
  pass


class _Continue(Exception):
  pass


class _Return(Exception):
  def __init__(self, v):
    self.v = v


class ModV(object):
  def __init__(self, name):
    self.name = name
    self.ns = {}

  def __repr__(self):
    return '<module %s>' % self.name


class ClassV(object):
  def __init__(self, name, bases, ns, qualname):
    self.name = name
    self.bases = bases
    self.ns = ns
    self.qualname = qualname
    self.subclasses = []
    for b in bases:
      if isinstance(b, ClassV):
        b.subclasses.append(self)

  def mro(self):
    out = [self]
    for b in self.bases:
      for c in (b.mro() if isinstance(b, ClassV) else
                ([b] if not isinstance(b, type) else list(b.__mro__))):
        if c in out:
          out.remove(c)
        out.append(c)
    return out

  def __repr__(self):
    return '<class %s>' % self.qualname


class FuncV(object):
  def __init__(self, node, mod, closure, defaults, kwdefaults, qualname):
    self.node = node
    self.mod = mod
    self.closure = closure
    self.defaults = defaults
    self.kwdefaults = kwdefaults
    self.qualname = qualname
    self.cls = None
    self.attrs = {}
    self.isgen = None

  def __repr__(self):
    return '<function %s>' % self.qualname


class BoundV(object):
  def __init__(self, func, self_):
    self.func = func
    self.self_ = self_

  def __eq__(self, o):
    return isinstance(o, BoundV) and o.func is self.func and o.self_ is self.self_

  def __hash__(self):
    return 1


class PropV(object):
  def __init__(self, fget=None, fset=None):
    self.fget, self.fset = fget, fset


class StaticV(object):
  def __init__(self, f):
    self.f = f


class ClsMethV(object):
  def __init__(self, f):
    self.f = f


def real_type(o):
  """What a built-in value is in Python, to tell what is not modelled from what is not there."""
  import builtins
  if isinstance(o, NativeFn):
    return getattr(builtins, o.name, None)
  if isinstance(o, S):
    return {'str': str, 'bytes': bytes}.get(o.kind)
  if isinstance(o, SInt):
    return int
  if isinstance(o, SBool):
    return bool
  for c, t in ((PList, list), (PDict, dict), (PSet, set)):
    if isinstance(o, c):
      return t
  if isinstance(o, (bool, int, float, str, bytes, tuple)):
    return type(o)
  return None


class NativeFn(object):
  def __init__(self, name, fn):
    self.name = name
    self.fn = fn      # fn(I, args, kwargs)

  def __repr__(self):
    return '<native %s>' % self.name


class SuperV(object):
  def __init__(self, cls, obj):
    self.cls, self.obj = cls, obj


class Obj(Ref):
  def __init__(self, cls, serial=0):
    self.cls = cls
    self.fields = {}
    self.serial = serial
    if serial:
      core.REG[serial] = self

  def __repr__(self):
    return '<%s object>' % clsname(self.cls)


class Native(Ref):
  """Modelled library object; fields in self.fields, methods m_<name>."""
  tname = 'native'

  def __init__(self, I):
    self.fields = {}
    self.serial = I.ctx.newserial()
    core.REG[self.serial] = self

  def get(self, I, name):
    m = getattr(self, 'm_' + name, None)
    if m is not None:
      return NativeFn(name, lambda I, a, k: m(I, *a, **k))
    if name in self.fields:
      return self.fields[name]
    return Undefined


class PDict(Ref):
  def __init__(self, entries=None, serial=0):
    self.entries = list(entries or [])
    self.serial = serial
    if serial:
      core.REG[serial] = self

  def __repr__(self):
    return 'PDict(%r)' % (self.entries,)


class PSet(Ref):
  def __init__(self, items=None, serial=0):
    self.items = list(items or [])
    self.serial = serial
    if serial:
      core.REG[serial] = self


class SRange(object):
  def __init__(self, lo, hi, step=1):
    self.lo, self.hi, self.step = lo, hi, step


class SEnum(object):
  """enumerate over a symbolic-length sequence"""
  def __init__(self, n, at):
    self.n, self.at = n, at


class Coll(object):
  """An abstract finite unordered collection (unknown size).  elem(I) yields a
  fresh arbitrary element; used by the for-each rule."""


def clsname(c):
  if isinstance(c, ClassV):
    return c.name
  if isinstance(c, type):
    return c.__name__
  return str(c)


class Mangler(ast.NodeTransformer):
  def __init__(self):
    self.stack = []

  def mangle(self, n):
    if (self.stack and n.startswith('__') and not n.endswith('__')):
      return '_' + self.stack[-1].lstrip('_') + n
    return n

  def visit_ClassDef(self, node):
    node.name = self.mangle(node.name)
    self.stack.append(node.name)
    self.generic_visit(node)
    self.stack.pop()
    return node

  def visit_FunctionDef(self, node):
    node.name = self.mangle(node.name)
    self.generic_visit(node)
    return node

  def visit_Attribute(self, node):
    node.attr = self.mangle(node.attr)
    self.generic_visit(node)
    return node

  def visit_Name(self, node):
    node.id = self.mangle(node.id)
    return node

  def visit_arg(self, node):
    node.arg = self.mangle(node.arg)
    return node


class Frame(object):
  __slots__ = ('locals', 'parent', 'mod', 'func', 'isclass', 'globals_', 'nonlocals',
               'yields', 'selfv', 'cls', 'assigned')

  def __init__(self, mod, parent=None, func=None, isclass=False):
    self.locals = {}
    self.parent = parent
    self.mod = mod
    self.func = func
    self.isclass = isclass
    self.globals_ = set()
    self.nonlocals = set()
    self.yields = None
    self.selfv = None
    self.cls = None
    self.assigned = None


class LoopSpec(object):
  """Candidate invariants tried on every loop met while verifying a spec.

  preds: list of (label, kind, fn(env, v) -> z3 Bool or None)
  gpreds: list of (label, fn(env) -> z3 Bool)
  defs: list of (label, kind, fn(env, loc) -> value or None)
  env: .k (iteration), .v0 (entry value of the location), .ctx, .I, .n, .at
  """

  def __init__(self, preds=(), gpreds=(), defs=(), sums=(), gdefs=(), rotate=False):
    self.rotate = rotate
    self.preds = list(preds)
    self.gpreds = list(gpreds)
    self.defs = list(defs)
    self.sums = list(sums)


class Env(object):
  def __init__(self, **kw):
    self.__dict__.update(kw)


class LoopInfo(object):
  def __init__(self):
    self.writes = []       # heap locations (serial, field)
    self.kinds = {}        # loc -> set of kinds
    self.dropped = set()
    self.defidx = {}
    self.symbolic = False
    self.max255 = {}


_AST_CACHE = {}


def load_ast(path):
  if path not in _AST_CACHE:
    with open(path, encoding='utf-8') as f:
      src = f.read()
    tree = ast.parse(src, path)
    tree = Mangler().visit(tree)
    ast.fix_missing_locations(tree)
    _AST_CACHE[path] = tree
  return _AST_CACHE[path]


MAX_UNROLL = 600


class Interp(object):
  def __init__(self, ctx, world):
    self.ctx = ctx
    self.world = world          # World: module finder, models, contracts
    self.mods = {}
    self.depth = 0
    self.stack = []
    self.loopspec = LoopSpec()
    self.contracts = {}
    self.objs_by_serial = {}
    self.handling = []
    self.state = {}             # models' private per-path state

  # ---------------------------------------------------------------- modules
  def module(self, name):
    if name in self.mods:
      return self.mods[name]
    path = self.world.path_of(name)
    if path is None:
      m = self.world.native_module(self, name)
      if m is None:
        raise Unsupported('module %s' % name)
      self.mods[name] = m
      return m
    m = ModV(name)
    self.mods[name] = m
    m.ns['__name__'] = name
    m.ns['__file__'] = path
    m.ns['__doc__'] = None
    fr = Frame(m)
    fr.locals = m.ns
    self.exec_block(load_ast(path).body, fr)
    return m

  def get(self, qual):
    """'util.Xor', 'keys.AesKey.Encrypt' -> value; raises Missing."""
    parts = qual.split('.')
    m = self.module(parts[0])
    if parts[1] not in m.ns:
      raise Missing(qual)
    v = m.ns[parts[1]]
    for p in parts[2:]:
      if isinstance(v, ClassV):
        for c in v.mro():
          if isinstance(c, ClassV) and p in c.ns:
            v = c.ns[p]
            break
        else:
          raise Missing(qual)
      else:
        raise Missing(qual)
    if isinstance(v, (StaticV, ClsMethV)):
      v = v.f
    return v

  def find_ref(self, serial):
    return core.REG.get(serial)

  # ---------------------------------------------------------------- errors
  def exc(self, cls, *args):
    o = Obj(cls, self.ctx.newserial())
    o.fields['args'] = tuple(args)
    return o

  def throw(self, cls, *args):
    raise PyRaise(self.exc(cls, *args))

  # ---------------------------------------------------------------- frames
  def lookup(self, name, fr):
    f = fr
    first = True
    while f is not None:
      if (first or not f.isclass) and name in f.locals and name not in f.globals_:
        v = f.locals[name]
        if v is Undefined:
          raise Unsupported('read of loop-havocked or undefined name %s' % name)
        return v
      first = False
      f = f.parent
    if name in fr.mod.ns:
      return fr.mod.ns[name]
    b = self.world.builtin(self, name)
    if b is not Undefined:
      return b
    self.throw(NameError, name)

  def assign_name(self, name, v, fr):
    if name in fr.globals_:
      fr.mod.ns[name] = v
      return
    if name in fr.nonlocals:
      f = fr.parent
      while f is not None:
        if name in f.locals:
          f.locals[name] = v
          return
        f = f.parent
    if fr.locals is fr.mod.ns and fr.mod.name in self.mods and self.stack:
      pass
    fr.locals[name] = v
    if fr.assigned is not None:
      fr.assigned.add(name)

  # ---------------------------------------------------------------- calls
  def call(self, f, args=(), kwargs=None, node=None):
    kwargs = kwargs or {}
    args = list(args)
    if isinstance(f, NativeFn):
      return f.fn(self, args, kwargs)
    if isinstance(f, BoundV):
      return self.call(f.func, [f.self_] + args, kwargs, node)
    if isinstance(f, FuncV):
      c = self.contracts.get(f.qualname)
      if c is not None:
        r = c(self, f, args, kwargs)
        if r is not NotImplemented:
          self.ctx.ex.used.add(f.qualname)
          return r
      return self.call_body(f, args, kwargs)
    if isinstance(f, ClassV):
      return self.instantiate(f, args, kwargs)
    if isinstance(f, type) and issubclass(f, BaseException):
      return self.exc(f, *args)
    if isinstance(f, (StaticV, ClsMethV)):
      return self.call(f.f, args, kwargs, node)
    if isinstance(f, Obj):
      m = self.getattr(f, '__call__')
      return self.call(m, args, kwargs, node)
    if isinstance(f, Native):
      m = getattr(f, 'm___call__', None)
      if m:
        return m(self, *args, **kwargs)
    if isinstance(f, type):
      b = self.world.builtin(self, f.__name__)
      if isinstance(b, NativeFn):
        return b.fn(self, args, kwargs)
    raise Unsupported('call of %r' % (f,))

  def bind(self, f, args, kwargs):
    a = f.node.args
    loc = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    nargs = len(args)
    if nargs > len(pos) and a.vararg is None:
      self.throw(TypeError, '%s() takes %d positional arguments' % (f.qualname, len(pos)))
    for name, v in zip(pos, args):
      loc[name] = v
    if a.vararg is not None:
      loc[a.vararg.arg] = tuple(args[len(pos):])
    extra = {}
    kwonly = [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
      if k in pos or k in kwonly:
        if k in loc:
          self.throw(TypeError, 'multiple values for %s' % k)
        loc[k] = v
      elif a.kwarg is not None:
        extra[k] = v
      else:
        self.throw(TypeError, '%s() got an unexpected keyword argument %s' % (f.qualname, k))
    if a.kwarg is not None:
      d = PDict([(k, v) for k, v in extra.items()], self.ctx.newserial())
      loc[a.kwarg.arg] = d
    nd = len(f.defaults)
    for i, name in enumerate(pos):
      if name not in loc:
        j = i - (len(pos) - nd)
        if j >= 0:
          loc[name] = f.defaults[j]
        else:
          self.throw(TypeError, '%s() missing argument %s' % (f.qualname, name))
    for x in kwonly:
      if x not in loc:
        if x in f.kwdefaults:
          loc[x] = f.kwdefaults[x]
        else:
          self.throw(TypeError, '%s() missing argument %s' % (f.qualname, x))
    return loc

  def call_body(self, f, args=(), kwargs=None):
    """Execute the body (never a contract) of an interpreted function."""
    if isinstance(f, BoundV):
      return self.call_body(f.func, [f.self_] + list(args), kwargs)
    if isinstance(f, (StaticV, ClsMethV)):
      f = f.f
    if not isinstance(f, FuncV):
      return self.call(f, args, kwargs)
    self.depth += 1
    if self.depth > 120:
      self.depth = 0
      raise Unsupported('recursion too deep in %s' % f.qualname)
    self.ctx.ex.inlined.add(f.qualname)
    fr = Frame(f.mod, f.closure, f)
    fr.locals.update(self.bind(f, list(args), kwargs or {}))
    fr.cls = f.cls
    pos = f.node.args.posonlyargs + f.node.args.args if not isinstance(f.node, ast.Lambda) else f.node.args.args
    if pos:
      fr.selfv = fr.locals.get(pos[0].arg)
    self.stack.append(f.qualname)
    try:
      if isinstance(f.node, ast.Lambda):
        return self.eval(f.node.body, fr)
      if f.isgen is None:
        f.isgen = has_yield(f.node)
      if f.isgen:
        fr.yields = []
      try:
        self.exec_block(f.node.body, fr)
        r = None
      except _Return as e:
        r = e.v
      if f.isgen:
        if any(isinstance(x, many.Each) for x in fr.yields):
          return many.Bag(fr.yields)
        return PList(fr.yields, self.ctx.newserial())
      return r
    finally:
      self.stack.pop()
      self.depth -= 1

  def instantiate(self, cls, args, kwargs):
    for c in cls.mro():
      if isinstance(c, type) and issubclass(c, BaseException) and c is not BaseException:
        o = Obj(cls, self.ctx.newserial())
        o.fields['args'] = tuple(args)
        init = self.find(cls, '__init__')
        if isinstance(init, FuncV):
          self.call(init, [o] + list(args), kwargs)
        return o
    hook = self.contracts.get(cls.qualname)
    if hook is not None:
      r = hook(self, cls, args, kwargs)
      if r is not NotImplemented:
        self.ctx.ex.used.add(cls.qualname)
        return r
    new = self.find(cls, '__new__')
    if isinstance(new, (FuncV, StaticV)):
      o = self.call(new, [cls] + list(args), kwargs)
    else:
      o = Obj(cls, self.ctx.newserial())
    init = self.find(cls, '__init__')
    if isinstance(init, (FuncV, NativeFn)):
      self.call(init, [o] + list(args), kwargs)
    elif args or kwargs:
      self.throw(TypeError, '%s() takes no arguments' % cls.name)
    return o

  def find(self, cls, name):
    for c in (cls.mro() if isinstance(cls, ClassV) else [cls]):
      if isinstance(c, ClassV) and name in c.ns:
        return c.ns[name]
    return None

  def isinstance(self, v, c):
    if isinstance(c, tuple):
      return any(self.isinstance(v, x) for x in c)
    if isinstance(v, Obj):
      vc = v.cls
      if isinstance(vc, ClassV):
        if isinstance(c, ClassV):
          return c in vc.mro()
        if isinstance(c, type):
          return any(isinstance(x, type) and issubclass(x, c) for x in vc.mro()) or c is object
        return False
      if isinstance(vc, type) and isinstance(c, type):
        return issubclass(vc, c)
      return False
    if isinstance(c, NativeFn):
      c = {'str': str, 'int': int, 'bytes': bytes, 'list': list, 'dict': dict, 'tuple': tuple,
           'bool': bool, 'float': float, 'set': set, 'object': object,
           'bytearray': bytearray, 'frozenset': frozenset}.get(c.name, c)
    if c is object:
      return True
    if isinstance(c, type):
      k = strkind(v)
      if k:
        return {'str': str, 'bytes': bytes}[k] is c
      if isinstance(v, (bool, SBool)):
        return c in (bool, int)
      if isinstance(v, (int, SInt)):
        return c is int
      if isinstance(v, (float, SReal)):
        return c is float
      if isinstance(v, (PList, GList)):
        return c is list
      if isinstance(v, tuple):
        return c is tuple
      if isinstance(v, PDict):
        return c is dict
      if isinstance(v, PSet):
        return c is set
      if v is None:
        return c is type(None)
    if isinstance(v, Native) and isinstance(c, Native):
      return v.tname == c.fields.get('cls')
    if isinstance(v, Native) and isinstance(c, (ClassV, type)):
      h = getattr(v, 'isinst', None)
      return bool(h and h(self, c))
    if isinstance(v, ClassV) or isinstance(c, ClassV):
      return False
    if isinstance(v, Native):
      return False
    if isinstance(c, type) and isinstance(v, (FuncV, BoundV, NativeFn, ModV)):
      return False
    if isinstance(v, many.Bag) and isinstance(c, type):
      return c in (list, object)
    raise Unsupported('isinstance(%r, %r)' % (v, c))

  # ---------------------------------------------------------------- attributes
  def getattr(self, o, name, default=Undefined):
    if isinstance(o, Obj):
      if isinstance(o.cls, ClassV):
        cv = self.find(o.cls, name)
        if isinstance(cv, PropV):
          if cv.fget is None:
            self.throw(AttributeError, name)
          return self.call(cv.fget, [o])
      if name in o.fields:
        v = o.fields[name]
        if v is Undefined:
          raise Unsupported('read of loop-havocked field %s' % name)
        if callable(getattr(v, 'lazy', None)):
          v = v.lazy(self)
          o.fields[name] = v
        return v
      if isinstance(o.cls, ClassV):
        if cv is not None:
          return self.bindattr(cv, o, o.cls)
        for c in o.cls.mro():
          if isinstance(c, Native) and getattr(c, 'classattr', None):
            r = c.classattr(self, o, name)
            if r is not Undefined:
              return r
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return PDict(list(o.fields.items()), self.ctx.newserial())
      if name == '__doc__':
        return None
      if name == '__str__':
        return NativeFn('__str__', lambda I, a, k: I.str_(o))
      if isinstance(o.cls, ClassV):
        ga = self.find(o.cls, '__getattr__')
        if ga is not None:
          return self.call(ga, [o, name])
      lz = getattr(o, 'lazyattr', None)
      if lz is not None:
        v = lz(self, o, name)
        if v is not Undefined:
          return v
    elif isinstance(o, Native):
      v = o.get(self, name)
      if v is not Undefined:
        return v
    elif isinstance(o, ModV):
      if name in o.ns:
        return o.ns[name]
      v = self.world.module_attr(self, o, name)
      if v is not Undefined:
        return v
    elif isinstance(o, ClassV):
      v = self.find(o, name)
      if v is not None:
        if isinstance(v, StaticV):
          return v.f
        if isinstance(v, ClsMethV):
          return BoundV(v.f, o)
        return v
      if name == '__name__':
        return o.name
      if name == '__doc__':
        return None
      if name == '__subclasses__':
        return NativeFn('__subclasses__', lambda I, a, k: PList(o.subclasses, I.ctx.newserial()))
      if name == '__init__':
        for c in o.mro():
          if isinstance(c, type) and issubclass(c, BaseException):
            def exc_init(I, a, k):
              I.setfield(a[0], 'args', tuple(a[1:]))
            return NativeFn('__init__', exc_init)
        return NativeFn('__init__', lambda I, a, k: None)
    elif isinstance(o, SuperV):
      cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
      mro = cls.mro()
      i = mro.index(o.cls)
      for c in mro[i + 1:]:
        if isinstance(c, ClassV) and name in c.ns:
          v = c.ns[name]
          if isinstance(v, PropV):
            return self.call(v.fget, [o.obj])
          return self.bindattr(v, o.obj, cls)
      if name == '__init__':
        for c in mro[i + 1:]:
          if isinstance(c, type) and issubclass(c, BaseException):
            def exc_init2(I, a, k):
              I.setfield(o.obj, 'args', tuple(a))
            return NativeFn('__init__', exc_init2)
        return NativeFn('__init__', lambda I, a, k: None)
    elif isinstance(o, FuncV):
      if name in ('__name__',):
        return o.attrs.get(name, o.node.name if not isinstance(o.node, ast.Lambda) else '<lambda>')
      if name == '__doc__':
        return o.attrs.get(name, ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None)
      if name in o.attrs:
        return o.attrs[name]
    elif isinstance(o, PropV):
      if name == 'setter':
        return NativeFn('setter', lambda I, a, k: PropV(o.fget, a[0]))
      if name in ('fget', 'fset'):
        return getattr(o, name)
    elif isinstance(o, BoundV):
      if name == '__self__':
        return o.self_
      return self.getattr(o.func, name, default)
    else:
      v = self.world.method(self, o, name)
      if v is not Undefined:
        return v
    real = real_type(o)
    if real is not None and hasattr(real, name):
      raise Unsupported('%s.%s' % (getattr(real, '__name__', real), name))
    if isinstance(o, ModV) and (o.name in getattr(self.world, 'native_modules', ())
                                or hasattr(o, 'unmodelled')):
      raise Unsupported('%s.%s' % (o.name, name))
    if isinstance(o, Native) and default is Undefined:
      raise Unsupported('%s.%s' % (type(o).__name__, name))
    if default is not Undefined:
      return default
    self.throw(AttributeError, '%r has no attribute %s' % (o, name))

  def bindattr(self, v, o, cls):
    if isinstance(v, FuncV):
      return BoundV(v, o)
    if isinstance(v, NativeFn):
      return v
    if isinstance(v, StaticV):
      return v.f
    if isinstance(v, ClsMethV):
      return BoundV(v.f, cls)
    return v

  def setattr(self, o, name, v):
    if isinstance(o, Obj):
      if isinstance(o.cls, ClassV):
        cv = self.find(o.cls, name)
        if isinstance(cv, PropV):
          if cv.fset is None:
            self.throw(AttributeError, "can't set attribute %s" % name)
          self.call(cv.fset, [o, v])
          return
      self.setfield(o, name, v)
      return
    if isinstance(o, Native):
      self.setfield(o, name, v)
      return
    if isinstance(o, ModV):
      o.ns[name] = v
      return
    if isinstance(o, ClassV):
      o.ns[name] = v
      return
    if isinstance(o, FuncV):
      o.attrs[name] = v
      return
    raise Unsupported('setattr on %r' % (o,))

  def setfield(self, o, name, v):
    self.track(o, name)
    o.fields[name] = v

  def track(self, o, name):
    if self.ctx.frozen and o.serial <= self.ctx.frozen[-1]:
      raise Unsupported('older object changed inside a for-each loop')
    if self.ctx.generic and any(o.serial <= g.serial for g in self.ctx.generic):
      raise Unsupported('mutation inside a generic-element context')
    if self.ctx.loops and getattr(o, 'abstract', False):
      raise Unsupported('element of an abstract collection mutated inside a loop')
    for lp in self.ctx.loops:
      if o.serial <= lp.serial:
        lp.note_write(self, o, name)

  # ---------------------------------------------------------------- truth, eq
  def truth(self, v):
    if isinstance(v, bool):
      return v
    if v is None:
      return False
    if isinstance(v, SBool):
      return self.ctx.decide(v.t)
    if isinstance(v, SInt):
      return self.ctx.decide(v.t != 0)
    if isinstance(v, S):
      return self.ctx.decide(tz(slen(v)) > 0)
    if isinstance(v, (int, float, str, bytes, tuple)):
      return bool(v)
    if isinstance(v, PList):
      if v.items:
        return True
      if v.sym is not None:
        return self.ctx.decide(tz(v.sym.n) > 0)
      return False
    if isinstance(v, GList):
      return self.ctx.decide(tz(v.n) > 0)
    if isinstance(v, PDict):
      return bool(v.entries)
    if isinstance(v, PSet):
      return bool(v.items)
    if isinstance(v, Obj):
      if isinstance(v.cls, ClassV):
        m = self.find(v.cls, '__bool__')
        if m is not None:
          return self.truth(self.call(m, [v]))
        m = self.find(v.cls, '__len__')
        if m is not None:
          return self.truth(self.call(m, [v]))
      return True
    if isinstance(v, Native):
      m = getattr(v, 'm___bool__', None)
      if m:
        return self.truth(m(self))
      m = getattr(v, 'm___len__', None)
      if m:
        return self.truth(m(self))
      return True
    if isinstance(v, (FuncV, ClassV, BoundV, NativeFn, ModV, type, StaticV)):
      return True
    raise Unsupported('truth of %r' % (v,))

  def eq(self, a, b):
    """a == b as bool | SBool (string comparisons are decided)."""
    if a is b and not isinstance(a, (Obj,)):
      return True
    ka, kb = strkind(a), strkind(b)
    if ka or kb:
      if ka != kb:
        return False
      return self.ctx.decide_streq(a, b)
    num = (bool, int, SInt, SBool, float)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
      x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
      y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
      return mkbool(x == y)
    if isinstance(a, num) and isinstance(b, num):
      if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
          raise Unsupported('float compare')
        return a == b
      return mkbool(tz(iterm(a)) == tz(iterm(b)))
    if isinstance(a, SReal) or isinstance(b, SReal):
      return mkbool(toreal(a) == toreal(b))
    if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)) and (
        isinstance(a, tuple) == isinstance(b, tuple)):
      if isinstance(a, PList) and (a.sym is not None or b.sym is not None):
        raise Unsupported('comparison of symbolic lists')
      x = a.items if isinstance(a, PList) else a
      y = b.items if isinstance(b, PList) else b
      if len(x) != len(y):
        return False
      for p, q in zip(x, y):
        if not self.truth(self.eq(p, q)):
          return False
      return True
    if isinstance(a, PDict) and isinstance(b, PDict):
      if len(a.entries) != len(b.entries):
        return False
      for k, v in a.entries:
        w = self.dict_get(b, k)
        if w is Undefined or not self.truth(self.eq(v, w)):
          return False
      return True
    for x, y in ((a, b), (b, a)):
      if isinstance(x, Obj) and isinstance(x.cls, ClassV):
        m = self.find(x.cls, '__eq__')
        if isinstance(m, FuncV):
          if not isinstance(y, (Obj, Native)):
            # calling through would raise AttributeError in the repository's
            # own __eq__ methods; let it
            pass
          return self.call(m, [x, y])
      if isinstance(x, Native):
        m = getattr(x, 'm___eq__', None)
        if m:
          return m(self, y)
    if isinstance(a, BoundV) and isinstance(b, BoundV):
      return a == b
    if isinstance(a, PSet) and isinstance(b, PSet):
      raise Unsupported('set comparison')
    return a is b

  def identical(self, a, b):
    if a is b:
      return True
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
      return self.eq(a, b)
    if a is None or b is None:
      for x in (a, b):
        if x is not None and isinstance(x, Native):
          m = getattr(x, 'maybe_none', None)
          if m:
            return m(self)
      return False
    if isinstance(a, (int, str, bytes, float, tuple)) and type(a) is type(b):
      return a == b
    return False

  # ---------------------------------------------------------------- dicts
  def dict_find(self, d, k):
    for i, (kk, _) in enumerate(d.entries):
      if kk is k:
        return i
    for i, (kk, _) in enumerate(d.entries):
      if isinstance(kk, (Obj, ClassV, FuncV)) or isinstance(k, (Obj, ClassV, FuncV)):
        if not (isinstance(kk, Obj) and isinstance(k, Obj)):
          continue
        if kk is k:
          return i
        m = self.find(kk.cls, '__eq__') if isinstance(kk.cls, ClassV) else None
        if m is None:
          continue
      if self.truth(self.eq(kk, k)):
        return i
    return -1

  def dict_get(self, d, k):
    i = self.dict_find(d, k)
    return Undefined if i < 0 else d.entries[i][1]

  def dict_set(self, d, k, v):
    i = self.dict_find(d, k)
    self.track(d, '*')
    if i < 0:
      d.entries.append((k, v))
    else:
      d.entries[i] = (d.entries[i][0], v)

  # ---------------------------------------------------------------- iteration
  def iterate(self, v):
    """-> list of values, or ('sym', n, at)."""
    if isinstance(v, (list, tuple)):
      return list(v)
    if isinstance(v, PList):
      if v.sym is not None:
        if v.items:
          g, items = v.sym, list(v.items)

          def at(i):
            if self.ctx.decide(tz(i) < tz(g.n)):
              return g.at(i)
            for j, x in enumerate(items[:-1]):
              if self.ctx.decide(tz(i) == tz(g.n) + j):
                return x
            return items[-1]
          return ('sym', tadd(g.n, len(items)), at)
        return ('sym', v.sym.n, v.sym.at)
      return list(v.items)
    if isinstance(v, GList):
      return ('sym', v.n, v.at)
    if isinstance(v, PDict):
      return [k for k, _ in v.entries]
    if isinstance(v, PSet):
      return list(v.items)
    if isinstance(v, str):
      return list(v)
    if isinstance(v, bytes):
      return list(v)
    if isinstance(v, S):
      n = slen(v)
      ctx = self.ctx
      if v.kind == 'str':
        at = lambda i: mkstr('str', [Rep(ctx.at(v, i), 1)])
      else:
        at = lambda i: mkint(ctx.at(v, i))
      if not isz(n) and n <= 4096:
        return [at(i) for i in range(n)]
      return ('sym', n, at)
    if isinstance(v, SRange):
      if not any(isz(x) for x in (v.lo, v.hi, v.step)):
        return list(range(v.lo, v.hi, v.step))
      if v.step == 1:
        n = tsub(v.hi, v.lo)
        if isz(n) and not self.ctx.decide(n >= 0):
          n = 0
        if not isz(n):
          return [mkint(tadd(v.lo, i)) for i in range(max(n, 0))]
        return ('sym', n, lambda i: mkint(tadd(v.lo, i)))
      if v.step == -1:
        n = tsub(v.lo, v.hi)
        if isz(n) and not self.ctx.decide(n >= 0):
          n = 0
        if not isz(n):
          return [mkint(tsub(v.lo, i)) for i in range(max(n, 0))]
        return ('sym', n, lambda i: mkint(tsub(v.lo, i)))
      raise Unsupported('range step')
    if isinstance(v, SEnum):
      return ('sym', v.n, v.at)
    if isinstance(v, Obj) and isinstance(v.cls, ClassV):
      m = self.find(v.cls, '__iter__')
      if m is not None:
        return self.iterate(self.call(m, [v]))
    if isinstance(v, Native):
      m = getattr(v, 'm___iter__', None)
      if m:
        return self.iterate(m(self))
    if isinstance(v, Coll):
      return ('coll', v)
    if v is None or isinstance(v, (int, SInt)):
      self.throw(TypeError, 'object is not iterable')
    raise Unsupported('iteration over %r' % (v,))

  def listof(self, v):
    r = self.iterate(v)
    if isinstance(r, tuple):
      raise Unsupported('symbolic-length sequence where a known one is needed')
    return r

  # ---------------------------------------------------------------- statements
  def exec_block(self, stmts, fr):
    for s in stmts:
      self.exec(s, fr)

  def exec(self, s, fr):
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      raise Unsupported('statement %s' % type(s).__name__)
    return m(s, fr)

  def s_Expr(self, s, fr):
    if isinstance(s.value, ast.Constant):
      return
    self.eval(s.value, fr)

  def s_Pass(self, s, fr):
    pass

  def s_Break(self, s, fr):
    raise _Break()

  def s_Continue(self, s, fr):
    raise _Continue()

  def s_Return(self, s, fr):
    raise _Return(None if s.value is None else self.eval(s.value, fr))

  def s_Global(self, s, fr):
    fr.globals_.update(s.names)

  def s_Nonlocal(self, s, fr):
    fr.nonlocals.update(s.names)

  def s_Assign(self, s, fr):
    v = self.eval(s.value, fr)
    for t in s.targets:
      self.assign(t, v, fr)

  def s_AnnAssign(self, s, fr):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, fr), fr)

  def s_AugAssign(self, s, fr):
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, fr)
      v = self.inplace(s.op, cur, self.eval(s.value, fr))
      self.assign_name(t.id, v, fr)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, fr)
      cur = self.getattr(o, t.attr)
      v = self.inplace(s.op, cur, self.eval(s.value, fr))
      self.setattr(o, t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, fr)
      k = self.eval(t.slice, fr)
      cur = self.getitem(o, k)
      v = self.inplace(s.op, cur, self.eval(s.value, fr))
      self.setitem(o, k, v)
    else:
      raise Unsupported('augmented assignment')

  def inplace(self, op, a, b):
    if isinstance(a, PList) and isinstance(op, ast.Add):
      self.track(a, '*')
      a.items.extend(self.listof(b))
      return a
    return self.binop(op, a, b)

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      self.assign_name(t.id, v, fr)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, fr)
      self.setitem(o, self.eval_index(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vals = self.listof(v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        after = len(t.elts) - i - 1
        if len(vals) < len(t.elts) - 1:
          self.throw(ValueError, 'not enough values to unpack')
        for e, x in zip(t.elts[:i], vals[:i]):
          self.assign(e, x, fr)
        self.assign(t.elts[i].value,
                    PList(vals[i:len(vals) - after], self.ctx.newserial()), fr)
        for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
          self.assign(e, x, fr)
        return
      if len(vals) != len(t.elts):
        self.throw(ValueError, 'unpack: expected %d values, got %d' % (len(t.elts), len(vals)))
      for e, x in zip(t.elts, vals):
        self.assign(e, x, fr)
    else:
      raise Unsupported('assignment target')

  def s_Delete(self, s, fr):
    for t in s.targets:
      if isinstance(t, ast.Subscript):
        o = self.eval(t.value, fr)
        k = self.eval_index(t.slice, fr)
        self.delitem(o, k)
      elif isinstance(t, ast.Name):
        fr.locals.pop(t.id, None)
      elif isinstance(t, ast.Attribute):
        o = self.eval(t.value, fr)
        self.track(o, t.attr)
        if t.attr not in o.fields:
          self.throw(AttributeError, t.attr)
        del o.fields[t.attr]
      else:
        raise Unsupported('del')

  def s_If(self, s, fr):
    if self.truth(self.eval(s.test, fr)):
      self.exec_block(s.body, fr)
    else:
      self.exec_block(s.orelse, fr)

  def s_Assert(self, s, fr):
    if not self.truth(self.eval(s.test, fr)):
      msg = ()
      if s.msg is not None:
        msg = (self.eval(s.msg, fr),)
      self.throw(AssertionError, *msg)

  def s_Raise(self, s, fr):
    if s.exc is None:
      if not self.handling:
        self.throw(RuntimeError, 'No active exception to reraise')
      raise PyRaise(self.handling[-1])
    e = self.eval(s.exc, fr)
    if isinstance(e, ClassV) or (isinstance(e, type) and issubclass(e, BaseException)):
      e = self.call(e)
    raise PyRaise(e)

  def s_Try(self, s, fr):
    try:
      try:
        self.exec_block(s.body, fr)
      except PyRaise as p:
        for h in s.handlers:
          if h.type is None:
            match = True
          else:
            t = self.eval(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            match = any(self.isinstance(p.exc, x) for x in ts)
          if match:
            if h.name:
              self.assign_name(h.name, p.exc, fr)
            self.handling.append(p.exc)
            try:
              self.exec_block(h.body, fr)
            finally:
              self.handling.pop()
            break
        else:
          raise
      else:
        self.exec_block(s.orelse, fr)
    except (PyRaise, _Return, _Break, _Continue):
      if s.finalbody:
        self.exec_block(s.finalbody, fr)
      raise
    else:
      if s.finalbody:
        self.exec_block(s.finalbody, fr)

  def s_With(self, s, fr):
    if len(s.items) > 1:
      inner = ast.With(items=s.items[1:], body=s.body)
      ast.copy_location(inner, s)
      body = [inner]
    else:
      body = s.body
    it = s.items[0]
    cm = self.eval(it.context_expr, fr)
    v = self.call(self.getattr(cm, '__enter__'))
    if it.optional_vars is not None:
      self.assign(it.optional_vars, v, fr)
    try:
      self.exec_block(body, fr)
    except PyRaise as p:
      r = self.call(self.getattr(cm, '__exit__'), [p.exc.cls, p.exc, None])
      if not self.truth(r):
        raise
    except (_Return, _Break, _Continue):
      self.call(self.getattr(cm, '__exit__'), [None, None, None])
      raise
    else:
      self.call(self.getattr(cm, '__exit__'), [None, None, None])

  def s_Import(self, s, fr):
    for a in s.names:
      m = self.world.import_(self, a.name, fr)
      if a.asname:
        self.assign_name(a.asname, m, fr)
      else:
        top = a.name.split('.')[0]
        self.assign_name(top, self.world.import_(self, top, fr), fr)

  def s_ImportFrom(self, s, fr):
    for a in s.names:
      v = self.world.import_from(self, s.module, s.level, a.name, fr)
      self.assign_name(a.asname or a.name, v, fr)

  def s_FunctionDef(self, s, fr):
    v = self.make_func(s, fr)
    for d in reversed(s.decorator_list):
      dec = self.eval(d, fr)
      v = self.call(dec, [v])
    self.assign_name(s.name, v, fr)

  def make_func(self, s, fr):
    a = s.args
    defaults = [self.eval(d, fr) for d in a.defaults]
    kwd = {}
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        kwd[x.arg] = self.eval(d, fr)
    name = getattr(s, 'name', '<lambda>')
    q = self.qualprefix(fr) + name
    closure = None if (fr.locals is fr.mod.ns) else fr
    f = FuncV(s, fr.mod, closure, defaults, kwd, q)
    c = fr
    while c is not None and not c.isclass:
      c = c.parent
    f.cls = c.cls if (c is not None and fr.isclass) else None
    return f

  def qualprefix(self, fr):
    if fr.isclass:
      return fr.cls + '.' if isinstance(fr.cls, str) else fr.cls.qualname + '.'
    if fr.func is not None:
      return fr.func.qualname + '.<locals>.'
    return fr.mod.name + '.'

  def s_ClassDef(self, s, fr):
    bases = [self.eval(b, fr) for b in s.bases]
    bases = [object if isinstance(b, NativeFn) and b.name == 'object' else b for b in bases]
    q = self.qualprefix(fr) + s.name
    cf = Frame(fr.mod, None if fr.locals is fr.mod.ns else fr, None, True)
    cls = ClassV(s.name, bases, cf.locals, q)
    cf.cls = cls
    cf.locals['__module__'] = fr.mod.name
    self.exec_block(s.body, cf)
    for v in cf.locals.values():
      fs = [v]
      if isinstance(v, (StaticV, ClsMethV)):
        fs = [v.f]
      elif isinstance(v, PropV):
        fs = [v.fget, v.fset]
      for f in fs:
        if isinstance(f, FuncV):
          f.cls = cls
    v = cls
    for d in reversed(s.decorator_list):
      v = self.call(self.eval(d, fr), [v])
    self.assign_name(s.name, v, fr)

  # ---------------------------------------------------------------- loops
  def s_For(self, s, fr):
    seq = self.iterate(self.eval(s.iter, fr))
    if isinstance(seq, tuple):
      if seq[0] == 'coll':
        return seq[1].foreach(self, s, fr)
      return self.sym_for(s, fr, seq[1], seq[2])
    for v in seq:
      self.assign(s.target, v, fr)
      try:
        self.exec_block(s.body, fr)
      except _Break:
        return
      except _Continue:
        continue
    self.exec_block(s.orelse, fr)

  def s_While(self, s, fr):
    key = self.loopkey(s)
    info = self.ctx.ex.loopdb.setdefault(key, LoopInfo())
    if self.ctx.ex.unroll:
      return self.unroll_while(s, fr)
    if info.symbolic:
      return self.sym_while(s, fr, key, info)
    count = 0
    while True:
      c = self.eval(s.test, fr)
      n0 = len(self.ctx.taken)
      if isinstance(c, (SBool, SInt, S)):
        cc = self.symcond(c)
        if not (self.ctx.entails(cc) or self.ctx.entails(z3.Not(cc))):
          info.symbolic = True
          raise Restart(key[3])
      if not self.truth(c):
        self.exec_block(s.orelse, fr)
        return
      if count and self.loopspec.rotate and n0 > n1:
        # the test was settled by the way the last iteration went
        info.symbolic = True
        raise Restart(key[3])
      n1 = len(self.ctx.taken)
      try:
        self.exec_block(s.body, fr)
      except _Break:
        return
      except _Continue:
        pass
      count += 1
      if count > MAX_UNROLL or (count >= 2 and isinstance(s.test, ast.Constant)):
        info.symbolic = True
        raise Restart(key[3])

  def unroll_while(self, s, fr):
    """Bounded mode: exact semantics, paths with more iterations are cut."""
    count = syms = 0
    while True:
      c = self.eval(s.test, fr)
      if not self.truth(c):
        self.exec_block(s.orelse, fr)
        return
      count += 1
      syms += isinstance(c, (SBool, SInt, S)) or isinstance(s.test, ast.Constant)
      if syms > self.ctx.ex.unroll or count > MAX_UNROLL:
        raise PathEnd()
      try:
        self.exec_block(s.body, fr)
      except _Break:
        return
      except _Continue:
        pass

  def symcond(self, c):
    if isinstance(c, SBool):
      return c.t
    if isinstance(c, SInt):
      return c.t != 0
    return tz(slen(c)) > 0

  def loopkey(self, node):
    return (node.lineno, node.col_offset, tuple(self.stack), tuple(self.ctx.taken))

  def sym_for(self, s, fr, n, at):
    if self.ctx.ex.unroll:
      for i in range(self.ctx.ex.unroll + 1):
        if not self.ctx.decide(tz(n) > i):
          self.exec_block(s.orelse, fr)
          return
        if i == self.ctx.ex.unroll:
          raise PathEnd()
        self.assign(s.target, at(z3.IntVal(i)), fr)
        try:
          self.exec_block(s.body, fr)
        except _Break:
          return
        except _Continue:
          pass
    key = self.loopkey(s)
    info = self.ctx.ex.loopdb.setdefault(key, LoopInfo())
    lp = ActiveLoop(self, s, fr, info, n, at)
    k = lp.enter()
    self.ctx.add(z3.And(k >= 0, k <= tz(n)))
    if self.ctx.decide(k < tz(n)):
      self.assign(s.target, at(k), fr)
      try:
        self.exec_block(s.body, fr)
      except _Break:
        lp.leave()
        return
      except _Continue:
        pass
      except (_Return, PyRaise):
        lp.leave()
        raise
      lp.step()
      raise PathEnd()
    lp.exit_()
    self.exec_block(s.orelse, fr)

  def rotated_while(self, s, fr, info):
    """while c: B  ==  if c: do B while c.  The invariant is only needed where the loop
    goes on; it is left with the exact state of the last iteration.  Only for tests
    without side effects (they are evaluated once more on the abstract state)."""
    if not self.truth(self.eval(s.test, fr)):
      self.exec_block(s.orelse, fr)
      return
    lp = ActiveLoop(self, s, fr, info, None, None)
    lp.enter()
    c = self.eval(s.test, fr)
    if isinstance(c, (SBool, SInt, S)):
      self.ctx.assume(self.symcond(c))
    elif not self.truth(c):
      raise PathEnd()
    try:
      self.exec_block(s.body, fr)
    except _Break:
      lp.leave()
      return
    except _Continue:
      pass
    except (_Return, PyRaise):
      lp.leave()
      raise
    if not self.truth(self.eval(s.test, fr)):
      lp.leave()
      self.exec_block(s.orelse, fr)
      return
    lp.step()
    raise PathEnd()

  def sym_while(self, s, fr, key, info):
    if self.loopspec.rotate and all(
        not isinstance(x, ast.Call) or (isinstance(x.func, ast.Name) and x.func.id == 'len')
        for x in ast.walk(s.test)):
      return self.rotated_while(s, fr, info)
    lp = ActiveLoop(self, s, fr, info, None, None)
    lp.enter()
    try:
      c = self.truth(self.eval(s.test, fr))
    except (PyRaise,):
      lp.leave()
      raise
    if c:
      try:
        self.exec_block(s.body, fr)
      except _Break:
        lp.leave()
        return
      except _Continue:
        pass
      except (_Return, PyRaise):
        lp.leave()
        raise
      lp.step()
      raise PathEnd()
    lp.exit_()
    self.exec_block(s.orelse, fr)

  # ---------------------------------------------------------------- expressions
  def eval(self, e, fr):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported('expression %s' % type(e).__name__)
    return m(e, fr)

  def e_Constant(self, e, fr):
    return e.value

  def e_Name(self, e, fr):
    return self.lookup(e.id, fr)

  def e_Attribute(self, e, fr):
    return self.getattr(self.eval(e.value, fr), e.attr)

  def e_NamedExpr(self, e, fr):
    v = self.eval(e.value, fr)
    self.assign(e.target, v, fr)
    return v

  def e_Tuple(self, e, fr):
    return tuple(self.elts(e, fr))

  def elts(self, e, fr):
    out = []
    for x in e.elts:
      if isinstance(x, ast.Starred):
        out.extend(self.listof(self.eval(x.value, fr)))
      else:
        out.append(self.eval(x, fr))
    return out

  def e_List(self, e, fr):
    return PList(self.elts(e, fr), self.ctx.newserial())

  def e_Set(self, e, fr):
    s = PSet([], self.ctx.newserial())
    for v in self.elts(e, fr):
      if not any(self.truth(self.eq(v, x)) for x in s.items):
        s.items.append(v)
    return s

  def e_Dict(self, e, fr):
    if not e.keys and 'newdict' in self.state:
      return self.state['newdict'](self)
    d = PDict([], self.ctx.newserial())
    for k, v in zip(e.keys, e.values):
      if k is None:
        src = self.eval(v, fr)
        if isinstance(src, many.Mapping) and not d.entries:
          if all(x is None for x in e.keys):
            return src.merged(self, [src] + [self.mapping(w, fr) for w in e.values[1:]])
        if not isinstance(src, PDict):
          raise Unsupported('** of %r' % (src,))
        for kk, vv in src.entries:
          self.dict_set(d, kk, vv)
      else:
        self.dict_set(d, self.eval(k, fr), self.eval(v, fr))
    return d

  def mapping(self, e, fr):
    v = self.eval(e, fr)
    if not isinstance(v, many.Mapping):
      raise Unsupported('** of %r' % (v,))
    return v

  def e_Lambda(self, e, fr):
    return self.make_func(e, fr)

  def e_IfExp(self, e, fr):
    return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

  def e_BoolOp(self, e, fr):
    v = None
    isand = isinstance(e.op, ast.And)
    for x in e.values[:-1]:
      v = self.eval(x, fr)
      if isand:
        if not self.truth(v):
          return v if not isinstance(v, SBool) else False
      elif self.truth(v):
        return v if not isinstance(v, SBool) else True
    return self.eval(e.values[-1], fr)

  def e_UnaryOp(self, e, fr):
    v = self.eval(e.operand, fr)
    if isinstance(e.op, ast.Not):
      if isinstance(v, SBool):
        return mkbool(z3.Not(v.t))
      return not self.truth(v)
    if isinstance(e.op, ast.USub):
      if isinstance(v, (float,)):
        return -v
      if isinstance(v, SReal):
        return SReal(-v.t)
      return mkint(tsub(0, iterm(v)))
    if isinstance(e.op, ast.UAdd):
      return v
    if isinstance(e.op, ast.Invert):
      return mkint(tsub(-1, iterm(v)))
    raise Unsupported('unary')

  def e_BinOp(self, e, fr):
    a = self.eval(e.left, fr)
    b = self.eval(e.right, fr)
    return self.binop(e.op, a, b)

  def binop(self, op, a, b):
    from . import models
    return models.binop(self, op, a, b)

  def e_Compare(self, e, fr):
    left = self.eval(e.left, fr)
    res = True
    for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
      right = self.eval(r, fr)
      v = self.compare(op, left, right)
      if i == len(e.ops) - 1:
        if res is True:
          return v
        return v
      if not self.truth(v):
        return False
      left = right
    return res

  def compare(self, op, a, b):
    from . import models
    return models.compare(self, op, a, b)

  def e_Call(self, e, fr):
    if (isinstance(e.func, ast.Name) and e.func.id == 'super' and
        'super' not in fr.locals):
      if e.args:
        c = self.eval(e.args[0], fr)
        o = self.eval(e.args[1], fr)
      else:
        f = fr
        while f.func is None or f.func.cls is None:
          f = f.parent
        c, o = f.func.cls, f.selfv
      return SuperV(c, o)
    f = self.eval(e.func, fr)
    args = []
    for x in e.args:
      if isinstance(x, ast.Starred):
        args.extend(self.listof(self.eval(x.value, fr)))
      else:
        args.append(self.eval(x, fr))
    kw = {}
    for k in e.keywords:
      if k.arg is None:
        d = self.eval(k.value, fr)
        for kk, vv in d.entries:
          kw[kk] = vv
      else:
        kw[k.arg] = self.eval(k.value, fr)
    return self.call(f, args, kw, e)

  def e_Starred(self, e, fr):
    raise Unsupported('starred')

  def eval_index(self, e, fr):
    if isinstance(e, ast.Slice):
      return slice(None if e.lower is None else self.eval(e.lower, fr),
                   None if e.upper is None else self.eval(e.upper, fr),
                   None if e.step is None else self.eval(e.step, fr))
    return self.eval(e, fr)

  def e_Subscript(self, e, fr):
    o = self.eval(e.value, fr)
    return self.getitem(o, self.eval_index(e.slice, fr))

  def getitem(self, o, k):
    from . import models
    return models.getitem(self, o, k)

  def setitem(self, o, k, v):
    from . import models
    return models.setitem(self, o, k, v)

  def delitem(self, o, k):
    from . import models
    return models.delitem(self, o, k)

  def e_JoinedStr(self, e, fr):
    out = ''
    for v in e.values:
      if isinstance(v, ast.Constant):
        out = self.ctx.concat(out, v.value)
      else:
        x = self.eval(v.value, fr)
        if v.format_spec is not None:
          spec = self.eval(v.format_spec, fr)
          if isinstance(x, (int, str)) and isinstance(spec, str):
            out = self.ctx.concat(out, format(x, spec))
            continue
          raise Unsupported('format spec')
        out = self.ctx.concat(out, self.str_(x) if v.conversion != 114 else self.repr_(x))
    return out

  def e_FormattedValue(self, e, fr):
    return self.str_(self.eval(e.value, fr))

  def str_(self, v):
    from . import models
    return models.to_str(self, v)

  def repr_(self, v):
    from . import models
    return models.to_repr(self, v)

  def e_Yield(self, e, fr):
    f = fr
    while f.yields is None:
      f = f.parent
      if f is None:
        raise Unsupported('yield')
    f.yields.append(None if e.value is None else self.eval(e.value, fr))
    return None

  def e_YieldFrom(self, e, fr):
    fr.yields.extend(self.listof(self.eval(e.value, fr)))
    return None

  # comprehensions
  def e_ListComp(self, e, fr):
    r = self.comp(e.generators, e.elt, fr)
    if isinstance(r, GList):
      p = PList([], self.ctx.newserial())
      p.sym = r
      return p
    if isinstance(r, Coll):
      return r
    return PList(r, self.ctx.newserial())

  def e_GeneratorExp(self, e, fr):
    return self.e_ListComp(e, fr)

  def e_SetComp(self, e, fr):
    s = PSet([], self.ctx.newserial())
    r = self.comp(e.generators, e.elt, fr)
    if isinstance(r, (GList, Coll)):
      raise Unsupported('symbolic set comprehension')
    for v in r:
      if not any(self.truth(self.eq(v, x)) for x in s.items):
        s.items.append(v)
    return s

  def e_DictComp(self, e, fr):
    pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
    ast.copy_location(pair, e)
    r = self.comp(e.generators, pair, fr)
    if isinstance(r, (GList, Coll)):
      raise Unsupported('symbolic dict comprehension')
    d = PDict([], self.ctx.newserial())
    for k, v in r:
      self.dict_set(d, k, v)
    return d

  def comp(self, gens, elt, fr):
    nf = Frame(fr.mod, fr, None)
    nf.yields = None
    nf.selfv = fr.selfv
    g = gens[0]
    seq = self.iterate(self.eval(g.iter, fr))
    if isinstance(seq, tuple):
      if seq[0] == 'coll':
        return seq[1].comp(self, gens, elt, nf)
      if len(gens) > 1:
        raise Unsupported('nested symbolic comprehension')
      if g.ifs:
        raise Unsupported('filtered symbolic comprehension')
      return self.symmap(seq[1], seq[2], lambda v: self._compelt(g, elt, nf, v))
    out = []
    self._comp_rec(gens, 0, seq, elt, nf, out)
    return out

  def _compelt(self, g, elt, nf, v):
    self.assign(g.target, v, nf)
    return self.eval(elt, nf)

  def _comp_rec(self, gens, i, seq, elt, nf, out):
    g = gens[i]
    if seq is None:
      seq = self.iterate(self.eval(g.iter, nf))
      if isinstance(seq, tuple):
        raise Unsupported('nested symbolic comprehension')
    for v in seq:
      self.assign(g.target, v, nf)
      if all(self.truth(self.eval(c, nf)) for c in g.ifs):
        if i + 1 < len(gens):
          self._comp_rec(gens, i + 1, None, elt, nf, out)
        else:
          out.append(self.eval(elt, nf))

  def symmap(self, n, at, fn):
    """Elementwise map over a symbolic-length sequence (pure element function)."""
    ctx = self.ctx
    if not isz(n):
      return [fn(at(i)) for i in range(n)]
    if not ctx.generic and ctx._check(tz(n) > 0)[0] == 'unsat':
      return []
    if self.state.get('lazymap') and not ctx.generic:
      return self.lazymap(n, at, fn)
    i = ctx.fresh('gi')
    g = GenericCtx(ctx.serial)
    ctx.push()
    ctx.generic.append(g)
    try:
      ctx.add(z3.And(i >= 0, i < tz(n)))
      try:
        v = fn(at(i))
      except NeedFork:
        v = None
      except PyRaise:
        raise Unsupported('exception inside a symbolic comprehension')
    finally:
      ctx.generic.pop()
      ctx.pop()
    if v is None:
      return self.tabulate(n, at, fn)
    return GList(n, lambda j: subst_value(ctx, v, i, tz(j)))

  def lazymap(self, n, at, fn):
    """Elements computed when asked for, by a function that changes nothing.  An exception for
    some element is seen at an arbitrary one; only for specs where no exception is permitted."""
    ctx = self.ctx

    def pure(j):
      ctx.frozen.append(ctx.serial)
      try:
        return fn(at(j))
      finally:
        ctx.frozen.pop()
    if ctx.decide(tz(n) > 0):
      i = ctx.fresh('any')
      ctx.assume(z3.And(i >= 0, i < tz(n)))
      pure(i)
    return GList(n, pure)

  def tabulate(self, n, at, fn):
    """Element functions of one byte: tabulate all 256 values concretely."""
    ctx = self.ctx
    i = ctx.fresh('ti')
    ctx.push()
    ctx.generic.append(GenericCtx(ctx.serial))
    try:
      ctx.add(z3.And(i >= 0, i < tz(n)))
      x = at(i)
    except NeedFork:
      raise Unsupported('fork inside generic context')
    finally:
      ctx.generic.pop()
      ctx.pop()
    if isinstance(x, S) and len(x.segs) == 1 and isinstance(x.segs[0], Rep) and x.segs[0].n == 1:
      mk = lambda c: chr(c)
      getcode = lambda v: ctx_code(v)
    elif isinstance(x, SInt):
      mk = lambda c: c
      getcode = lambda v: v.t if isinstance(v, SInt) else v
    else:
      raise Unsupported('fork inside generic context')
    code = getcode(x)
    if not ctx._check(z3.Or(tz(code) < 0, tz(code) > 255), i >= 0, i < tz(n))[0] == 'unsat':
      raise Unsupported('fork inside generic context (element not a byte)')
    table = []
    for c in range(256):
      table.append(fn(mk(c)))
    if all(isinstance(t, int) for t in table):
      f = ctx.app('table', (tuple(table),), lambda: new_table(ctx, table))
      return GList(n, lambda j: mkint(f(tz(getcode(at(j))))))
    if all(isinstance(t, str) for t in table) and len(set(map(len, table))) == 1:
      L = len(table[0])
      fs = [ctx.app('table', (tuple(ord(t[q]) for t in table),),
                    lambda q=q: new_table(ctx, [ord(t[q]) for t in table]))
            for q in range(L)]
      def atj(j):
        c = tz(getcode(at(j)))
        return mkstr('str', [Rep(simp(f(c)), 1) for f in fs])
      r = GList(n, atj)
      r.constlen = L
      r.fs = fs
      r.code = lambda j: tz(getcode(at(j)))
      return r
    raise Unsupported('fork inside generic context (table)')


def ctx_code(v):
  if isinstance(v, str):
    return ord(v)
  return v.segs[0].code


def new_table(ctx, table):
  ctx.n += 1
  f = z3.Function('tab!%d' % ctx.n, z3.IntSort(), z3.IntSort())
  for c, v in enumerate(table):
    ctx.add(f(z3.IntVal(c)) == v)
  return f


class GenericCtx(object):
  def __init__(self, serial):
    self.serial = serial


def subst_term(t, i, j):
  if not isz(t):
    return t
  return simp(z3.substitute(t, (i, j)))


def subst_value(ctx, v, i, j):
  if isinstance(v, SInt):
    return mkint(subst_term(v.t, i, j))
  if isinstance(v, SBool):
    return mkbool(subst_term(v.t, i, j))
  if isinstance(v, S):
    out = []
    for s in v.segs:
      if isinstance(s, BS):
        out.append(BS(s.base, subst_term(s.lo, i, j), subst_term(s.hi, i, j)))
      elif isinstance(s, Rep):
        out.append(Rep(subst_term(s.code, i, j), subst_term(s.n, i, j)))
      elif isinstance(s, Gen):
        f = s.fn
        out.append(Gen(subst_term(s.n, i, j),
                       lambda q, facts, f=f: subst_term(tz(f(q, facts)), i, j)))
      else:
        out.append(s)
    return mkstr(v.kind, out)
  if isinstance(v, tuple):
    return tuple(subst_value(ctx, x, i, j) for x in v)
  if isinstance(v, (str, bytes, int, bool, float)) or v is None:
    return v
  if isinstance(v, (Obj, Native, PList, PDict)):
    raise Unsupported('object in a symbolic comprehension')
  return v


def toreal(v):
  if isinstance(v, SReal):
    return v.t
  if isinstance(v, SInt):
    return z3.ToReal(v.t)
  if isinstance(v, float):
    return z3.RealVal(repr(v))
  return z3.RealVal(int(v))


def has_yield(node):
  r = getattr(node, '_has_yield', None)
  if r is None:
    r = node._has_yield = has_yield_(node)
  return r


def has_yield_(node):
  for n in ast.walk(node):
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      # not inside a nested function
      return not in_nested(node, n)
  return False


def in_nested(root, target):
  def rec(n, nested):
    if n is target:
      return nested
    for c in ast.iter_child_nodes(n):
      r = rec(c, nested or (isinstance(c, (ast.FunctionDef, ast.Lambda)) and c is not root))
      if r is not None:
        return r
    return None
  return bool(rec(root, False))


def assigned_names(stmts):
  out = []
  for s in stmts:
    for n in ast.walk(s):
      if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        if n.id not in out:
          out.append(n.id)
      elif isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
        out.append(n.name)
  return out


def kind_of(v):
  if isinstance(v, (bool, SBool)):
    return 'bool'
  if isinstance(v, (int, SInt)):
    return 'int'
  k = strkind(v)
  if k:
    return k
  if v is None:
    return 'none'
  if isinstance(v, PList):
    return 'list'
  if isinstance(v, tuple):
    return ('tuple',) + tuple(kind_of(x) for x in v)
  if v is Undefined:
    return 'undef'
  return 'obj'


def str255(v):
  v = rope(v)
  for s in v.segs:
    if isinstance(s, Lit):
      if any(c > 255 for c in s.codes):
        return False
    elif isinstance(s, BS):
      if s.base.maxcode > 255:
        return False
    elif isinstance(s, Rep):
      if isz(s.code):
        return None
      if s.code > 255:
        return False
    else:
      return None
  return True


NOTHING = object()        # the definition says None (a definition that returns None does not apply)


def joined(kinds):
  return ['maybe'] if sorted(map(str, kinds)) == ['none', 'obj'] else kinds


class ActiveLoop(object):
  """The invariant rule for one loop activation.

  Locations: ('l', name) for locals, ('h', serial, field) for heap fields.
  """

  def __init__(self, I, node, fr, info, n, at):
    self.I, self.ctx = I, I.ctx
    self.node, self.fr, self.info = node, fr, info
    self.n, self.at = n, at
    self.serial = I.ctx.serial
    self.dirty = False
    self.prefix = tuple(I.ctx.taken)
    self.names = [x for x in assigned_names(node.body)]
    if isinstance(node, ast.While):
      for x in assigned_names([ast.Expr(node.test)]):
        if x not in self.names:
          self.names.append(x)
    else:
      self.target = assigned_names([node.target])
      self.names = [x for x in self.names if x not in self.target]
    self.objs = {}

  def note_write(self, I, o, name):
    key = ('h', o.serial, name)
    self.objs[key] = o
    if key not in self.info.writes:
      self.info.writes.append(key)
      self.info.newobjs = getattr(self.info, 'newobjs', {})
      self.dirty = True

  def locs(self):
    return [('l', x) for x in self.names] + list(self.info.writes)

  def find_obj(self, serial):
    return self.I.find_ref(serial)

  def read(self, loc):
    if loc[0] == 'l':
      return self.fr.locals.get(loc[1], Undefined)
    o = self.find_obj(loc[1])
    if o is None:
      raise Unsupported('loop location lost')
    if isinstance(o, PList):
      return o
    if isinstance(o, (PDict, PSet)):
      return o
    return o.fields.get(loc[2], Undefined)

  def write(self, loc, v):
    if loc[0] == 'l':
      if isinstance(v, GList):
        p = PList([], self.ctx.newserial())
        p.sym, v = v, p
      self.fr.locals[loc[1]] = v
      return
    o = self.find_obj(loc[1])
    if isinstance(o, PList):
      if isinstance(v, GList):
        o.items, o.sym = [], v
      elif v is Undefined:
        o.items, o.sym = [], GList(self.ctx.fresh('len'), self.unknown_elem)
        self.ctx.add(o.sym.n >= 0)
      return
    if isinstance(o, (PDict, PSet)):
      raise Unsupported('dict or set mutated in an unbounded loop')
    o.fields[loc[2]] = v

  def unknown_elem(self, i):
    raise Unsupported('element of a list built in an unbounded loop')

  def env(self, loc, k):
    return Env(I=self.I, ctx=self.ctx, k=k, v0=self.entry.get(loc), n=self.n,
               at=self.at, loc=loc, read=self.read, entry=self.entry, loop=self)

  def defs(self, loc, kind):
    return [d for d in self.I.loopspec.defs if d[1] == kind]

  def enter(self):
    ctx, info = self.ctx, self.info
    ctx.abstracted = True
    self.entry = {}
    for loc in self.locs():
      v = self.read(loc)
      if isinstance(v, PList):
        c = PList(v.items)      # a copy of the entry state, not registered
        c.serial, c.sym = v.serial, v.sym
        v = c
      self.entry[loc] = v
      kd = kind_of(v)
      info.kinds.setdefault(loc, [])
      if kd not in info.kinds[loc]:
        info.kinds[loc].append(kd)
    self.check(0, 'entry')
    self.flush()
    k = ctx.fresh('k')
    self.k = k
    ctx.add(k >= 0)
    # havoc: first what is arbitrary, then what is defined in terms of the rest
    defd = []
    for loc in self.locs():
      kinds = joined([x for x in info.kinds[loc] if x != 'undef'])
      if len(kinds) == 1 and info.defidx.get(loc, 0) < len(self.defs(loc, kinds[0])):
        defd.append(loc)
    for loc in [x for x in self.locs() if x not in defd] + defd:
      kinds = [x for x in info.kinds[loc] if x != 'undef']
      if loc in defd:
        d = self.defs(loc, joined(kinds)[0])[info.defidx.get(loc, 0)]
        v = d[2](self.env(loc, k), loc)
        if v is not None:
          self.write(loc, None if v is NOTHING else v)
          continue
      if not kinds or 'undef' in info.kinds[loc]:
        self.write(loc, Undefined)
        continue
      kd = kinds[ctx.choose(len(kinds))] if len(kinds) > 1 else kinds[0]
      self.write(loc, self.fresh_of(kd, loc))
    # assume surviving predicates
    for key, f in self.pred_instances(k):
      if f is not None:
        ctx.add(f)
    if not ctx.feasible():
      raise PathEnd()
    ctx.loops.append(self)
    return k

  def fresh_of(self, kd, loc):
    ctx = self.ctx
    if kd == 'int':
      return SInt(ctx.fresh('h'))
    if kd == 'bool':
      return SBool(ctx.freshb('h'))
    if kd in ('str', 'bytes'):
      mx = 255 if self.info.max255.get(loc, True) else 0x10ffff
      return ctx.freshstr('h', kind=kd, maxcode=mx)
    if kd == 'none':
      return None
    if isinstance(kd, tuple):
      return tuple(self.fresh_of(x, loc) for x in kd[1:])
    return Undefined

  def default_preds(self, env, v):
    k = env.k
    t = iterm(v)
    out = [('ge0', tz(t) >= 0)]
    v0 = env.v0
    if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
      t0 = tz(iterm(v0))
      out.append(('lin+1', tz(t) == t0 + tz(k)))
      out.append(('lin-1', tz(t) == t0 - tz(k)))
      out.append(('geentry', tz(t) >= t0))
      out.append(('leentry', tz(t) <= t0))
    return out

  def pred_instances(self, k):
    """Yields (key, formula) for the candidates not dropped."""
    out = []
    for loc in self.locs():
      v = self.read(loc)
      env = self.env(loc, k)
      cands = []
      if isinstance(v, (int, SInt)) and not isinstance(v, bool):
        cands += self.default_preds(env, v)
      kd = kind_of(v)
      for label, kind, fn in self.I.loopspec.preds:
        if kind == kd or kind == '*':
          if (loc, label) in self.info.dropped:
            continue
          try:
            f = fn(env, v)
          except (Unsupported, PathEnd):
            f = False
          if isinstance(f, list):       # a family of candidates
            cands += [(label + ' ' + x, g) for x, g in f]
          elif f is not None:
            cands.append((label, f))
      for label, f in cands:
        if (loc, label) not in self.info.dropped:
          out.append(((loc, label), f))
    for label, fn in self.I.loopspec.gpreds:
      if ('*', label) not in self.info.dropped:
        try:
          f = fn(self.env(None, k))
        except (Unsupported, PathEnd):
          f = False
        if f is not None:
          out.append((('*', label), f))
    return out

  def check(self, k, where):
    info, ctx = self.info, self.ctx
    if where == 'step':
      for loc in self.locs():
        kd = kind_of(self.read(loc))
        if kd not in info.kinds.setdefault(loc, []):
          info.kinds[loc].append(kd)
          self.dirty = True
      self.flush()        # start again before judging candidates
    for loc in self.locs():
      v = self.read(loc)
      kinds = joined([x for x in info.kinds.get(loc, []) if x != 'undef'])
      kd = kind_of(v)
      if kd in ('str', 'bytes') and info.max255.get(loc, True):
        ok = str255(v)
        if ok is None:
          facts = []
          i = ctx.fresh('mx')
          x = ctx.at_t(v, i, facts)
          ok = ctx._check(z3.Or(tz(x) > 255, tz(x) < 0), i >= 0, i < tz(slen(v)), *facts)[0] == 'unsat'
        if not ok:
          info.max255[loc] = False
          self.dirty = True
      if len(kinds) == 1:
        ds = self.defs(loc, kinds[0])
        di = info.defidx.get(loc, 0)
        while di < len(ds):
          want = ds[di][2](self.env(loc, k), loc)
          if want is not None and self.same(v, want):
            ctx.ex.inv_ok(ds[di][0])
            break
          di += 1
          self.dirty = True
          info.defidx[loc] = di
    for key, f in self.pred_instances(k):
      if f is None:
        continue
      if not ctx.entails(f):
        info.dropped.add(key)
        self.dirty = True
      else:
        ctx.ex.inv_ok(key[1])

  def same(self, v, want):
    ctx = self.ctx
    if want is NOTHING:
      return v is None
    if hasattr(want, 'same_content'):
      return want.same_content(self.I, v)
    if strkind(v) and strkind(want):
      return strkind(v) == strkind(want) and ctx.str_eq_valid(v, want)
    if isinstance(v, (SInt, int)) and isinstance(want, (SInt, int)):
      return ctx.teq(iterm(v), iterm(want))
    if isinstance(v, PList) and isinstance(want, GList):
      n = v.sym.n if v.sym is not None else 0
      m = n + len(v.items) if not isz(n) else tadd(n, len(v.items))
      if not ctx.teq(m, want.n):
        return False
      # generic element
      try:
        if v.sym is not None:
          i = ctx.fresh('el')
          a, b = v.sym.at(i), want.at(i)
          if not self.elem_same(a, b, z3.And(i >= 0, i < tz(n))):
            return False
        for q, x in enumerate(v.items):
          if not self.elem_same(x, want.at(tadd(n, q)), z3.BoolVal(True)):
            return False
      except Unsupported:
        return False
      return True
    return v is want

  def elem_same(self, a, b, cond):
    ctx = self.ctx
    if strkind(a) and strkind(b):
      ctx.push()
      try:
        ctx.add(cond)
        return ctx.str_eq_valid(a, b)
      finally:
        ctx.pop()
    return ctx._check(cond, tz(iterm(a)) != tz(iterm(b)))[0] == 'unsat'

  def flush(self):
    if self.dirty:
      raise Restart(self.prefix)

  def step(self):
    self.ctx.loops.remove(self)
    self.flush()      # a location not known to change: start again before judging candidates
    self.check(tadd(self.k, 1), 'step')
    self.flush()

  def leave(self):
    if self in self.ctx.loops:
      self.ctx.loops.remove(self)
    self.flush()

  def exit_(self):
    self.leave()
    if self.n is not None:
      self.ctx.add(self.k == tz(self.n))


from . import many      # noqa: E402 (needs the classes above)
