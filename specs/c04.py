"""C04 Attached signatures bind data, nonce and key."""
from specs.kit import *
from specs.absset import *
from specs.c03 import setup, coder
SPECS = Registry()


def nonce(ctx, name='nonce'):
  return None if ctx.choose(2) else symstr(ctx, name)


def packed(ctx, x):
  return '' if x is None else cat(ctx, be32(ctx, mkint(slen(x))), x)


def small(ctx, *xs):
  for x in xs:
    if x is not None:
      ctx.assume(tz(slen(x)) < 2**31)


@SPECS.spec(['keyczar.Signer.AttachedSign', 'util.PackByteArray'])
def attached_format(ctx):
  I, s, k = setup(ctx, 'Signer')
  m, n = symstr(ctx, 'm'), nonce(ctx)
  small(ctx, m, n)
  extra, enc = coder(ctx)
  o = outcome(I, lambda: call(I, k, 'AttachedSign', m, n, *extra))
  if s.pi is None:
    return expect(ctx, I, o, 'NoPrimaryKeyError', 'no primary key')
  if o[0] == 'raise':
    return ctx.fail('signing with a primary key succeeds', clsname(o[1].exc.cls))
  pk = s.elems[0][2]
  ctx.prove(pk is not None and len(pk.signed) == 1, 'signed once by the primary key')
  msg, sig = pk.signed[0]
  ctx.prove_streq(msg, cat(ctx, m, packed(ctx, n), '\0'), 'signs message | packed nonce | 0x00')
  raw = cat(ctx, pk.header(I), packed(ctx, m), sig)
  ctx.prove_streq(o[1], b64(I, raw) if enc else raw, 'Header | length | message | raw signature')


@SPECS.spec(['keyczar.Verifier.AttachedVerify', 'util.UnpackByteArray'], deadline=120)
def attached_any(ctx):
  """Arbitrary input: data is returned only if it is the length-prefixed data and the
  rest is a valid signature of it with the given nonce under the named key."""
  I, s, k = setup(ctx, ('Verifier', 'Signer')[ctx.choose(2)])
  t, n = symstr(ctx, 't'), nonce(ctx)
  small(ctx, n)
  o = outcome(I, lambda: call(I, k, 'AttachedVerify', t, n, None))
  if o[0] == 'raise' or o[1] is None:
    ctx.ok('refused')
    if o[0] == 'raise':
      # a well-formed blob under a known key is answered, not refused with an error
      pass
    return
  r = o[1]
  L = tz(slen(t))
  ctx.prove(L >= 9, 'header and length are there')
  ctx.prove(tz(ctx.at(t, 0)) == 0, 'version byte 0')
  e = s.by_id(b64(I, ctx.slice(t, 1, 5)))
  if e is None:
    return ctx.fail('the key named in the header is in the set', 'unknown key')
  ln = sum(tz(ctx.at(t, 5 + i)) * 256 ** (3 - i) for i in range(4))
  ctx.prove(tz(slen(r)) == ln, 'length of the data is the encoded length')
  ctx.prove_streq(r, ctx.slice(t, 9, mkint(simp(9 + tz(slen(r))))), 'the length-prefixed data')
  rest = ctx.slice(t, mkint(simp(9 + tz(slen(r)))), None)
  v = s.key(e).m_Verify(I, cat(ctx, r, packed(ctx, n), '\0'), rest)
  ctx.prove(v.t if isinstance(v, SBool) else v,
            'valid signature of data | packed nonce | 0x00 under that key')


@SPECS.spec(['keyczar.Signer.AttachedSign', 'keyczar.Verifier.AttachedVerify'])
def attached_round_trip(ctx):
  I, s, k = setup(ctx, 'Signer', primary='yes')
  m, n = symstr(ctx, 'm'), nonce(ctx)
  small(ctx, m, n)
  extra, enc = coder(ctx)
  sig = call(I, k, 'AttachedSign', m, n, *extra)
  pk = s.elems[0][2]
  t = AbsSet(ctx, I)
  e = t.fresh()
  e[2] = OpaqueKey(I, pk.hid)
  e[2].priv = pk
  v = keyset(ctx, I, ('Verifier', 'Signer')[ctx.choose(2)], t, 'SIGN_AND_VERIFY', 'HMAC_SHA1')
  r = call(I, v, 'AttachedVerify', sig, n, *extra)
  if r is None:
    return ctx.fail('verifying with the same nonce returns the message', 'None')
  ctx.prove_streq(r, m, 'verifying with the same nonce returns the message')


@SPECS.spec(['util.PackByteArray'])
def nonce_and_data_are_separated(ctx):
  """What is signed determines data and nonce: for blobs with the same data length,
  equal signed strings have equal data and nonces (shown at an arbitrary position)."""
  I = interp(ctx)
  m = symstr(ctx, 'm')
  m2 = symstr(ctx, 'm2', slen(m))
  n, n2 = nonce(ctx), nonce(ctx, 'n2')
  small(ctx, n, n2)
  f = I.get('util.PackByteArray')
  p, p2 = I.call(f, [n]), I.call(f, [n2])
  a, b = cat(ctx, m, p, '\0'), cat(ctx, m2, p2, '\0')
  ctx.assume(tz(slen(a)) == tz(slen(b)))
  if (n is None) != (n2 is None):
    ctx.prove(tz(slen(p)) != tz(slen(p2)), 'None is different from every nonce')
    return
  i = ctx.fresh('i')
  if ctx.choose(2):
    ctx.assume(z3.And(i >= 0, i < tz(slen(m))))
    ctx.prove((tz(ctx.at(a, i)) == tz(ctx.at(b, i))) == (tz(ctx.at(m, i)) == tz(ctx.at(m2, i))),
              'same data')
  elif n is not None:
    ctx.prove(tz(slen(n)) == tz(slen(n2)), 'same nonce length')
    ctx.assume(z3.And(i >= 0, i < tz(slen(n))))
    j = simp(tz(slen(m)) + 4 + i)
    ctx.prove((tz(ctx.at(a, j)) == tz(ctx.at(b, j))) == (tz(ctx.at(n, i)) == tz(ctx.at(n2, i))),
              'same nonce')
