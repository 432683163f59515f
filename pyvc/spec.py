"""Specs: named groups of obligations on the real code, and contracts.

A Contract has a verification side (the body of the function, interpreted from
/repo's current source, meets the postcondition for every input satisfying the
precondition) and an application side (callers see only the postcondition).
"""
import gc
import os
import z3
from .core import *
from .core import NeedFork
from .interp import *
from .interp import Missing, PyRaise, clsname
from . import lib
from .lib import new_interp

CONTRACTS = {}
DISABLED = set()      # contracts to inline instead (set by the runner)


import time
import traceback


class Spec(object):
  def __init__(self, name, fn, functions=(), bounded=None, deadline=60, tier='quick',
               max_paths=4000, prove_ms=10000, decide_ms=2000):
    self.name = name
    self.fn = fn
    self.functions = list(functions)
    self.bounded = bounded       # text of the bound, or None: no bound
    self.deadline = deadline
    self.tier = tier
    self.max_paths = max_paths
    self.prove_ms = prove_ms
    self.decide_ms = decide_ms

  def run(self, scale=1.0, unroll=0, end=None):
    """end: when the check as a whole has to be done"""
    gc.set_threshold(100000, 20, 20)
    limit = self.deadline * scale
    if end is not None:
      limit = min(limit, max(1, end - time.time() - 5))
    ex = Explorer(self.name, deadline_s=limit, max_paths=self.max_paths,
                  prove_ms=self.prove_ms, decide_ms=self.decide_ms, unroll=unroll)

    def body(ctx):
      try:
        self.fn(ctx)
      except PyRaise as e:
        ctx.fail('no-unexpected-exception', '%s%r escapes' % (
            clsname(e.exc.cls), tuple(e.exc.fields.get('args', ()))))
      except (AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError) as e:
        # the code returned something the contract's text has no words for, or the
        # engine failed: this path is not decided
        raise Unsupported('spec or engine error: ' + traceback.format_exc()[-400:]) from e
    return ex.run(body)


class Registry(list):
  def spec(self, functions=(), **kw):
    def deco(fn):
      self.append(Spec(fn.__name__, fn, functions, **kw))
      return fn
    return deco


class Contract(object):
  def __init__(self, qual, apply, verify, **kw):
    self.qual = qual
    self.apply = apply       # apply(I, f, args, kwargs) -> value or NotImplemented
    self.verify = Spec('contract:' + qual, verify, [qual], **kw)
    CONTRACTS[qual] = self


def interp(ctx, *quals):
  """A fresh interpreter of /repo's current source in which callers of the named
  functions see their contracts instead of their bodies."""
  I = new_interp(ctx)
  for q in quals:
    if q not in DISABLED and q in CONTRACTS:
      c = CONTRACTS[q]
      I.contracts[q] = c.apply
  return I


def isexc(I, e, name):
  """Is the raised object an instance of errors.<name> or of a builtin?"""
  cls = e.exc.cls
  want = None
  try:
    want = I.get('errors.' + name)
  except Missing:
    pass
  if isinstance(cls, ClassV):
    if want is not None and want in cls.mro():
      return True
    return any(clsname(c) == name for c in cls.mro())
  return any(c.__name__ == name for c in getattr(cls, '__mro__', [cls]))


def kcz(I, e):
  return isexc(I, e, 'KeyczarError')


def b2s(I, v):
  """bytes -> the library's str form"""
  return mkstr('str', rope(v).segs) if isinstance(v, S) else (
      v.decode('latin-1') if isinstance(v, bytes) else v)


def s2b(v):
  return mkstr('bytes', rope(v).segs) if isinstance(v, S) else (
      v.encode('latin-1') if isinstance(v, str) else v)


def cat(ctx, *vs):
  r = vs[0]
  for v in vs[1:]:
    r = ctx.concat(r, v)
  return r


def be32(ctx, n, kind='str'):
  """The 4-byte big-endian form of 0 <= n < 2**32 as a specification value."""
  n = iterm(n) if not isz(n) else n
  if not isz(n):
    return concrete_of(kind, list((n % 2**32).to_bytes(4, 'big')))
  n = tz(n)
  segs = []
  for sh in (24, 16, 8, 0):
    segs.append(Gen(1, lambda i, facts, sh=sh, n=n: simp((n / 2**sh) % 256)))
  return S(kind, segs)


def symstr(ctx, name, length=None, **kw):
  v = ctx.freshstr(name, length, **kw)
  ctx.inputs[name] = v
  return v


def symint(ctx, name, lo=None, hi=None):
  t = ctx.fresh(name)
  if lo is not None:
    ctx.assume(t >= lo)
  if hi is not None:
    ctx.assume(t <= hi)
  v = SInt(t)
  ctx.inputs[name] = v
  return v


def loopinv(preds=(), gpreds=(), defs=(), sums=(), rotate=False):
  return LoopSpec(preds=preds, gpreds=gpreds, defs=defs, sums=sums, rotate=rotate)
