"""C22 Key generation."""
from specs.kit import *
from specs.c06 import C
from specs.c07 import keytree, same_key, TYPES
SPECS = Registry()
SIZES = dict(AES=(128, 192, 256), HMAC_SHA1=(256,), DSA_PRIV=(1024,), DSA_PUB=(1024,),
             RSA_PRIV=(2048, 4096, 1024, 768, 512), RSA_PUB=(2048, 4096, 1024, 768, 512))


def pieces(ctx, I, n0):
  return [b2s(I, e[2]) for e in ctx.events[n0:] if e[0] == 'urandom']


def from_random(ctx, kb, ps):
  """kb is a contiguous run of what the random source delivered; returns the rest."""
  for i in range(len(ps)):
    for j in range(i + 1, len(ps) + 1):
      if ctx.str_eq_valid(cat(ctx, *ps[i:j]), kb):
        return ps[:i] + ps[j:]
  return None


@SPECS.spec(['keys.GenKey', 'keys.AesKey.Generate', 'keys.HmacKey.Generate', 'util.RandBytes'])
def symmetric(ctx):
  I = interp(ctx, *C)
  kind = ('AES', 'HMAC_SHA1')[ctx.choose(2)]
  size = (None,) + SIZES[kind]
  size = size[ctx.choose(len(size))]
  n0 = len(ctx.events)
  how = ctx.choose(2)
  if how:
    k = I.call(I.get('keys.GenKey'), [I.get('keyinfo.' + kind)] + ([size] if size else []))
  else:
    k = I.call(I.get('keys.%s.Generate' % dict(AES='AesKey', HMAC_SHA1='HmacKey')[kind]),
               [size] if size else [])
  want = size or SIZES[kind][0]
  ctx.prove(I.getattr(k, 'type') is I.get('keyinfo.' + kind), 'type')
  ctx.prove_eq(I.getattr(k, 'size'), want, 'size')
  kb = I.getattr(k, 'key_bytes')
  ctx.prove(tz(slen(kb)) * 8 == want, 'exactly that many bits')
  ps = pieces(ctx, I, n0)
  rest = from_random(ctx, kb, ps)
  ctx.prove(rest is not None, "key bytes come from the system's random source")
  if kind == 'AES':
    hb = I.getattr(I.getattr(k, 'hmac_key'), 'key_bytes')
    ctx.prove(tz(slen(hb)) == 32, '256-bit MAC key')
    ctx.prove(rest is not None and from_random(ctx, hb, rest) is not None,
              'MAC key bytes are fresh random bytes of their own')
    ctx.prove_eq(I.getattr(I.getattr(k, 'hmac_key'), 'size'), 256, 'MAC key size')


def pm(a, b):
  return SInt(tz(iterm(a)) % tz(iterm(b)))


@SPECS.spec(['keys.GenKey', 'keys.RsaPrivateKey.Generate', 'keys.DsaPrivateKey.Generate'], deadline=90)
def asymmetric(ctx):
  """Key-pair parameters agree between private key, public key and library key."""
  I = interp(ctx, *C)
  kind = ('RSA_PRIV', 'DSA_PRIV')[ctx.choose(2)]
  size = (None,) + SIZES[kind]
  size = size[ctx.choose(len(size))]
  want = size or SIZES[kind][0]
  if kind == 'RSA_PRIV' and want < 1024:
    return ctx.ok('the library refuses sizes below 1024 bits')
  k = I.call(I.get('keys.GenKey'), [I.get('keyinfo.' + kind)] + ([size] if size else []))
  pub, key = I.getattr(k, 'public_key'), I.getattr(k, 'key')
  pk = I.getattr(pub, 'key')
  gen = [e for e in ctx.events if e[0] in ('rsagen', 'dsagen')]
  ctx.prove(len(gen) == 1, 'one key pair generated')
  ctx.prove_eq(gen[0][1], want, 'library asked for that many bits')
  if gen[0][3] is not None:
    n0 = len(ctx.events)
    r = I.call(gen[0][3], [16])
    ctx.prove_streq(b2s(I, r), cat(ctx, '', *pieces(ctx, I, n0)),
                    "the library draws from the system's random source")
    ctx.prove(tz(slen(r)) == 16, 'as many bytes as asked for')
  ctx.prove(key is gen[0][2], 'the key pair is the generated one')
  for x, ty in ((k, kind), (pub, kind[:4] + 'PUB')):
    ctx.prove(I.getattr(x, 'type') is I.get('keyinfo.' + ty), 'type')
    ctx.prove_eq(I.getattr(x, 'size'), want, 'size')
  f = key.fields
  want_pub = [n for n in key.m_publickey(I).fields if n != 'keydata']
  ctx.prove(sorted(n for n in pk.fields if n != 'keydata') == sorted(want_pub),
            'the public library key has only public components')
  for n in want_pub:
    ctx.prove_eq(pk.fields[n], f[n], 'public %s' % n)
  if kind == 'RSA_PRIV':
    pt = dict(modulus=pad1(I, f['n']), publicExponent=pad1(I, f['e']))
    q1 = SInt(tz(iterm(f['q'])) - 1)
    p1 = SInt(tz(iterm(f['p'])) - 1)
    t = dict(privateExponent=pad1(I, f['d']), primeP=pad1(I, f['q']), primeQ=pad1(I, f['p']),
             primeExponentP=pad1(I, pm(f['d'], q1)), primeExponentQ=pad1(I, pm(f['d'], p1)),
             crtCoefficient=pad1(I, f['u']))
  else:
    pt = {n: pad1(I, f[n]) for n in 'pqgy'}
    t = dict(x=pad1(I, f['x']))
  prove_tree(ctx, I, I.getattr(k, 'params'), t, 'private parameters')
  prove_tree(ctx, I, I.getattr(pub, 'params'), pt, 'public parameters')


@SPECS.spec(['keys.GenKey'])
def refused(ctx):
  """Unlisted sizes and public key types."""
  I = interp(ctx, *C)
  kind = TYPES[ctx.choose(6)]
  size = symint(ctx, 'size')
  args = [I.get('keyinfo.' + kind), size]
  if kind.endswith('PUB'):
    if ctx.choose(2):
      args.pop()
    elif ctx.choose(2):
      args[1] = SIZES[kind][ctx.choose(len(SIZES[kind]))]
  else:
    ctx.assume(z3.And(*[size.t != q for q in SIZES[kind]]))
  expect(ctx, I, outcome(I, lambda: I.call(I.get('keys.GenKey'), args)), 'KeyczarError', 'refused')


@SPECS.spec(['util.RandBytes'])
def randbytes(ctx):
  I = interp(ctx)
  n = symint(ctx, 'n', 0)
  r = I.call(I.get('util.RandBytes'), [n])
  ps = pieces(ctx, I, 0)
  ctx.prove(tz(slen(r)) == n.t, 'exactly n bytes')
  ctx.prove_streq(r, cat(ctx, '', *ps), "the system's random bytes")


@SPECS.spec(['keyczar.GenericKeyczar.AddVersion'], deadline=150)
def new_identifier(ctx):
  """Whatever keys generation delivers, the one added has an identifier new to the set."""
  from specs import c08
  ktype, purpose = c08.KINDS[ctx.choose(3)]
  I, s, k, kd, nd = c08.start(ctx, ktype, purpose)
  c08.gen(ctx, I)
  st = I.get('keyinfo.' + c08.ST[ctx.choose(3)])
  o = outcome(I, lambda: call(I, k, 'AddVersion', st))
  if o[0] == 'raise':
    return ctx.fail('adding a version succeeds', clsname(o[1].exc.cls))
  from pyvc.core import strkind
  ids = [(x, y) for x, y in kd.added if strkind(x)]
  ctx.prove(len(ids) == 1, 'one key is added')
  ctx.prove_streq(ids[0][0], ids[0][1].hid, 'under its identifier')
  ctx.prove(s.by_id(ids[0][1].hid) is None, 'the identifier was not in the set')
