"""C06 Key identifiers are stable and as specified."""
from specs.kit import *
SPECS = Registry()
C = ('util.Base64WSEncode', 'util.Base64WSDecode', 'util.Hash', 'util.IntToBytes',
     'util.BytesToLong', 'util.BigIntToBytes')


@SPECS.spec(['keys.Key.hash_id', 'keys.AesKey._Hash', 'keys.HmacKey._Hash', 'keys.RsaPublicKey._Hash',
             'keys.DsaPublicKey._Hash', 'keys.PrivateKey._Hash', 'util.PrefixHash', 'util.TrimBytes',
             'keys.Key.Header'])
def identifier(ctx):
  I = interp(ctx, *C)
  kind, k, d = allkeys(ctx, I)
  positive(ctx, kind, d)
  h = ctx.slice(idhash(ctx, I, kind, d), 0, 4)
  ctx.prove_streq(I.getattr(k, 'hash_id'), b64(I, h), 'identifier of %s' % kind)
  ctx.prove_streq(call(I, k, 'Header'), ctx.concat('\0', h), 'header of %s' % kind)
  if 'pub' in d:
    ctx.prove_streq(I.getattr(d['priv'], 'hash_id'), I.getattr(d['pub'], 'hash_id'),
                    'private and public key share the identifier')
    ctx.prove_streq(call(I, d['priv'], 'Header'), call(I, d['pub'], 'Header'),
                    'private and public key share the header')


def positive(ctx, kind, d):
  if 'key' in d:
    for x in ('n', 'e') if kind.startswith('RSA') else ('p', 'q', 'g', 'y'):
      ctx.assume(tz(iterm(d['key'].fields[x])) > 0)


@SPECS.spec(['keys.ReadKey', 'keys.AesKey.Read', 'keys.HmacKey.Read', 'keys.RsaPrivateKey.Read',
             'keys.RsaPublicKey.Read', 'keys.DsaPrivateKey.Read', 'keys.DsaPublicKey.Read'])
def survives_serialisation(ctx):
  I = interp(ctx, *C)
  kind, k, d = allkeys(ctx, I)
  positive(ctx, kind, d)
  t = text(I, k)
  k2 = I.call(I.get('keys.ReadKey'), [I.get('keyinfo.' + kind), t])
  ctx.prove_streq(I.getattr(k2, 'hash_id'), I.getattr(k, 'hash_id'), 'same identifier after reading back')
  ctx.prove_streq(call(I, k2, 'Header'), call(I, k, 'Header'), 'same header after reading back')


@SPECS.spec(['util.TrimBytes', 'util.PrefixHash', 'keys.RsaPublicKey._Hash', 'keys.DsaPublicKey._Hash'])
def leading_zeros_do_not_matter(ctx):
  """Parameters with any number of leading zero bytes give the same identifier."""
  I = interp(ctx, *C)
  from specs.contracts import bytesof
  z = symint(ctx, 'zeros', 0)
  n = [symint(ctx, 'n%d' % i, 1) for i in range(4)]
  p = [mkstr('str', [Rep(0, z.t)] + list(rope(bytesof(I, x)).segs)) for x in n]
  if ctx.choose(2):
    k = I.call(I.get('keys.RsaPublicKey'), [sdict(ctx, modulus=p[0], publicExponent=p[1]), None, 2048])
    use = n[:2]
  else:
    k = I.call(I.get('keys.DsaPublicKey'), [sdict(ctx, p=p[0], q=p[1], g=p[2], y=p[3]), None, 1024])
    use = n
  parts = []
  for x in use:
    b = bytesof(I, x)
    parts += [be32(ctx, mkint(slen(b))), b]
  ctx.prove_streq(I.getattr(k, 'hash_id'), b64(I, ctx.slice(sha1(I, cat(ctx, *parts)), 0, 4)), 'identifier')
