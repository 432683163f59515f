"""C05 Unversioned signatures."""
from specs.kit import *
from specs.absset import *
from specs.c03 import setup, coder
SPECS = Registry()


@SPECS.spec(['keyczar.UnversionedSigner.Sign'])
def unversioned_format(ctx):
  I, s, k = setup(ctx, 'UnversionedSigner')
  m = symstr(ctx, 'm')
  extra, enc = coder(ctx)
  o = outcome(I, lambda: call(I, k, 'Sign', m, *extra))
  if s.pi is None:
    return expect(ctx, I, o, 'NoPrimaryKeyError', 'no primary key')
  if o[0] == 'raise':
    return ctx.fail('signing with a primary key succeeds', clsname(o[1].exc.cls))
  pk = s.elems[0][2]
  ctx.prove(pk is not None and len(pk.signed) == 1, 'signed once by the primary key')
  msg, sig = pk.signed[0]
  ctx.prove_streq(msg, m, 'exactly the message is signed')
  ctx.prove_streq(o[1], b64(I, sig) if enc else sig, 'raw signature')


@SPECS.spec(['keyczar.UnversionedVerifier.Verify', 'keyczar.Keyczar.versions'], deadline=120)
def unversioned_verdict(ctx):
  """True iff at least one key accepts; sets of every size."""
  I, s, k = setup(ctx, ('UnversionedVerifier', 'UnversionedSigner')[ctx.choose(2)])
  m = symstr(ctx, 'm')
  if ctx.choose(2):
    sig = raw = symstr(ctx, 'sig')
    extra = (None,)
  else:
    raw = symstr(ctx, 'sig')
    sig, extra = b64(I, raw), ()
  # an arbitrary version of the set and its verdict
  if ctx.choose(2):
    w = ctx.fresh('w')
    ctx.assume(z3.And(w >= 0, w < s.n))
    e = s.entry(w)
    vw = s.key(e).m_Verify(I, m, raw)
    I.loopspec = loopinv(gpreds=[('no key so far accepts', lambda env: z3.Implies(
        w < tz(env.k), z3.Not(vw.t)))])
  else:
    vw = None
  o = outcome(I, lambda: call(I, k, 'Verify', m, sig, *extra))
  if o[0] == 'raise':
    return ctx.fail('never raises for a signature that is merely wrong', clsname(o[1].exc.cls))
  r = o[1]
  if isinstance(r, SBool):
    r = ctx.decide(r.t)
  if r is True:
    tags = [e[2].tag for e in s.elems if e[2] is not None]
    vs = [v for a, v in ctx.apps.get('kver', []) if a[0] in tags and
          ctx.str_eq_valid(a[1], m) and ctx.str_eq_valid(a[2], raw)]
    ctx.prove(z3.Or(*vs) if vs else False, 'True only if some key of the set accepts')
  elif r is False:
    if vw is not None:
      ctx.prove(z3.Not(vw.t), 'False only if no key of the set accepts')
    else:
      ctx.ok('False')
  else:
    ctx.fail('the answer is a boolean', repr(r))
