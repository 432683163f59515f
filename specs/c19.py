"""C19 HMAC computation and comparison."""
from specs.kit import *
SPECS = Registry()


@SPECS.spec(['keys.HmacKey.__init__', 'keys.HmacKey.Sign'])
def mac_is_hmac_sha1(ctx):
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  m = symstr(ctx, 'm')
  ctx.prove_streq(call(I, k, 'Sign', m), hmac_sha1(I, kb, m), 'Sign(m) == HMAC-SHA1(key, m)')


@SPECS.spec(['keys.HmacKeyStream.__init__', 'keys.HmacKeyStream.Update', 'keys.HmacKeyStream.Sign'])
def stream_step(ctx):
  """Data-structure invariant of HmacKeyStream: after updates adding up to h the MAC
  is that of h; Update extends h by its argument (induction over any cutting)."""
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  s = call(I, k, 'CreateStreamable')
  ctx.prove_streq(call(I, s, 'Sign'), hmac_sha1(I, kb, ''), 'fresh stream: MAC of the empty message')
  h = symstr(ctx, 'h')
  # arbitrary history: any stream whose MAC state is that of h
  call(I, s, 'Update', h)
  ctx.prove_streq(call(I, s, 'Sign'), hmac_sha1(I, kb, h), 'MAC after any history')
  d = symstr(ctx, 'd')
  call(I, s, 'Update', d)
  ctx.prove_streq(call(I, s, 'Sign'), hmac_sha1(I, kb, cat(ctx, h, d)), 'Update extends the message')
  ctx.prove_streq(call(I, s, 'Sign'), hmac_sha1(I, kb, cat(ctx, h, d)), 'Sign does not change the state')


@SPECS.spec(['keys.HmacKeyStream.Update'])
def streams_are_independent(ctx):
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  s, t = call(I, k, 'CreateStreamable'), call(I, k, 'CreateStreamable')
  a, b = symstr(ctx, 'a'), symstr(ctx, 'b')
  call(I, s, 'Update', a)
  call(I, t, 'Update', b)
  ctx.prove_streq(call(I, s, 'Sign'), hmac_sha1(I, kb, a), 'first stream')
  ctx.prove_streq(call(I, t, 'Sign'), hmac_sha1(I, kb, b), 'second stream')
  ctx.prove_streq(call(I, k, 'Sign', a), hmac_sha1(I, kb, a), 'one-shot is unaffected')


def verdict(ctx, I, r, a, b):
  """r is True exactly when a == b."""
  if isinstance(r, SBool):
    r = ctx.decide(r.t)
  if r is True:
    ctx.prove_streq(a, b, 'True only for the equal MAC')
  elif r is False:
    # a path on which the strings are equal must not answer False
    if not isz(slen(a)) and not isz(slen(b)) and slen(a) != slen(b):
      ctx.ok('False only for a different MAC')
      return
    facts, goal = ctx.ext_formula(a, b)
    n = slen(a) if not isz(slen(a)) else slen(b)
    eqs = [tz(slen(a)) == tz(slen(b))]
    for i in range(n):
      eqs.append(tz(ctx.at(a, i)) == tz(ctx.at(b, i)))
    ctx.prove(z3.Not(z3.And(*eqs)), 'False only for a different MAC')
  else:
    ctx.fail('answer is a boolean', repr(r))


@SPECS.spec(['keys.HmacKey.Verify', 'keys.HmacKey.VerifySignedData'])
def verify_exactly_equal(ctx):
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  m = symstr(ctx, 'm')
  sig = symstr(ctx, 'sig')
  r = call(I, k, 'Verify', m, sig)
  verdict(ctx, I, r, hmac_sha1(I, kb, m), sig)


@SPECS.spec(['keys.HmacKey.VerifySignedData'])
def compare_any_length(ctx):
  """The comparison itself, for MACs of every length."""
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  a, b = symstr(ctx, 'a'), symstr(ctx, 'b')

  def eqpre(env, v):
    # result == 0 iff the first k characters agree
    j = z3.Int('qz')
    x, y = ctx.at_t(a, j, []), ctx.at_t(b, j, [])
    return None
  w = ctx.fresh('w')      # an arbitrary position, fixed before the call
  ctx.add(z3.And(w >= 0, w < tz(slen(a)), w < tz(slen(b))))
  diff = tz(ctx.at(a, w)) != tz(ctx.at(b, w))
  I.loopspec = loopinv(preds=[
      ('nonzero-once-different', 'int',
       lambda env, v: z3.Implies(z3.And(tz(env.k) > w, diff), tz(iterm(v)) != 0)),
  ])
  r = call(I, k, 'VerifySignedData', a, b)
  if isinstance(r, SBool):
    r = r.t
  ctx.prove(z3.Implies(z3.Or(diff, tz(slen(a)) != tz(slen(b))), z3.Not(r)) if isz(r)
            else (not r) or z3.Not(diff), 'different at any position => False')
  ctx.prove(z3.Or(tz(slen(a)) == tz(slen(b)), z3.Not(r if isz(r) else z3.BoolVal(r))),
            'different length => False')


@SPECS.spec(['keys.HmacKey.VerifySignedData'])
def compare_equal_is_true(ctx):
  I = interp(ctx)
  k, kb = hmackey(ctx, I)
  a = symstr(ctx, 'a')
  I.loopspec = loopinv(preds=[('stays-zero', 'int', lambda env, v: tz(iterm(v)) == 0)])
  r = call(I, k, 'VerifySignedData', a, a)
  ctx.prove(r.t if isinstance(r, SBool) else r, 'equal => True')
