"""C07 Keys and metadata survive serialisation."""
from specs.kit import *
from specs.c06 import C, positive
from specs.absset import AbsSet, NumDict, need, FilledDict, fills, filling
SPECS = Registry()
RSA_NAMES = dict(privateExponent='d', primeP='q', primeQ='p', crtCoefficient='u')


def numtext(I, n):
  return b64(I, pad1(I, n))


def keytree(ctx, I, kind, k, d):
  """Specification of the file format."""
  if kind == 'AES':
    return dict(mode='CBC', size=I.getattr(k, 'size'), aesKeyString=b64(I, d['kb']),
                hmacKey=dict(size=256, hmacKeyString=b64(I, d['hb'])))
  if kind == 'HMAC_SHA1':
    return dict(size=256, hmacKeyString=b64(I, d['kb']))
  f = d['key'].fields
  if kind.startswith('RSA'):
    pub = dict(modulus=numtext(I, f['n']), publicExponent=numtext(I, f['e']), size=d['size'])
    if kind == 'RSA_PUB':
      return pub
    x = d['priv'].fields['params']
    par = {a: v for a, v in x.entries}
    t = {a: numtext(I, f[b]) for a, b in RSA_NAMES.items()}
    for a in ('primeExponentP', 'primeExponentQ'):
      t[a] = b64(I, par[a])
    t.update(publicKey=pub, size=d['size'])
    return t
  pub = {a: numtext(I, f[a]) for a in 'pqgy'}
  pub['size'] = 1024
  return pub if kind == 'DSA_PUB' else dict(publicKey=pub, x=numtext(I, f['x']), size=1024)


@SPECS.spec(['keys.AesKey.__str__', 'keys.HmacKey.__str__', 'keys.RsaPrivateKey.__str__',
             'keys.RsaPublicKey.__str__', 'keys.DsaPrivateKey.__str__', 'keys.DsaPublicKey.__str__'])
def key_file_format(ctx):
  I = interp(ctx, *C)
  kind, k, d = allkeys(ctx, I)
  prove_tree(ctx, I, jdict(ctx, I, text(I, k)), keytree(ctx, I, kind, k, d), kind)


def same_key(ctx, I, kind, k, k2, d):
  ctx.prove(I.getattr(k2, 'type') is I.get('keyinfo.' + kind), 'same type')
  ctx.prove_eq(I.getattr(k2, 'size'), I.getattr(k, 'size'), 'same size')
  ctx.prove_streq(I.getattr(k2, 'hash_id'), I.getattr(k, 'hash_id'), 'same identifier')
  if kind in ('AES', 'HMAC_SHA1'):
    ctx.prove_streq(I.getattr(k2, 'key_bytes'), d['kb'], 'same key bytes')
    if kind == 'AES':
      ctx.prove_streq(I.getattr(I.getattr(k2, 'hmac_key'), 'key_bytes'), d['hb'], 'same MAC key')
      ctx.prove_eq(I.getattr(k2, 'block_size'), 16, 'block size')
    return
  lk = I.getattr(k2, 'key')
  names = ([n for n in d['key'].fields if n != 'keydata'] if kind.endswith('PRIV') else
           [n for n in d['key'].m_publickey(I).fields if n != 'keydata'])
  have = [n for n in lk.fields if n != 'keydata']
  ctx.prove(sorted(names) == sorted(have), 'same library key components')
  for n in names:
    ctx.prove_eq(lk.fields[n], d['key'].fields[n], 'library key %s' % n)
  a = I.getattr(k, 'params')
  b = I.getattr(k2, 'params')
  prove_tree(ctx, I, b, {x: v for x, v in a.entries}, 'parameters')


@SPECS.spec(['keys.ReadKey', 'keys.AesKey.Read', 'keys.HmacKey.Read', 'keys.RsaPrivateKey.Read',
             'keys.RsaPublicKey.Read', 'keys.DsaPrivateKey.Read', 'keys.DsaPublicKey.Read'],
            deadline=120)
def key_round_trip(ctx):
  I = interp(ctx, *C)
  kind, k, d = allkeys(ctx, I)
  positive(ctx, kind, d)
  k2 = I.call(I.get('keys.ReadKey'), [I.get('keyinfo.' + kind), text(I, k)])
  same_key(ctx, I, kind, k, k2, d)
  if kind.endswith('PRIV'):
    same_key(ctx, I, kind[:4] + 'PUB', d['pub'], I.getattr(k2, 'public_key'), d)


@SPECS.spec(['keys.AesKey.Read'])
def aes_read_any(ctx):
  """Key files of other implementations: whatever strings they carry."""
  I = interp(ctx, *C)
  kb, hb = symstr(ctx, 'kb'), symstr(ctx, 'hb')
  size = (128, 192, 256)[ctx.choose(3)]
  mode = ('CBC', 'CTR', 'ECB', 'DET_CBC')[ctx.choose(4)]
  t = lib.json_dumps(I, lib.topv(I, dict(
      mode=mode, size=size, aesKeyString=b64(I, kb), hmacKey=dict(size=256, hmacKeyString=b64(I, hb)))))
  o = outcome(I, lambda: I.call(I.get('keys.AesKey.Read'), [t]))
  if mode != 'CBC':
    ctx.prove(o[0] == 'raise', 'only CBC is supported')
    return
  k = o[1]
  if o[0] == 'raise':
    return ctx.fail('a valid key is read', clsname(k.exc.cls))
  ctx.prove_streq(I.getattr(k, 'key_bytes'), kb, 'key bytes')
  ctx.prove_eq(I.getattr(k, 'size'), size, 'size')
  ctx.prove_streq(I.getattr(I.getattr(k, 'hmac_key'), 'key_bytes'), hb, 'MAC key bytes')


def version(ctx, I, i=0):
  n = symint(ctx, 'n%d' % i)
  st = ('PRIMARY', 'ACTIVE', 'INACTIVE')[ctx.choose(3)]
  ex = bool(ctx.choose(2))
  v = I.call(I.get('keydata.KeyVersion'), [n, I.get('keyinfo.' + st), ex])
  return v, dict(versionNumber=n, status=st, exportable=ex)


def same_version(ctx, I, v, t):
  ctx.prove_eq(I.getattr(v, 'version_number'), t['versionNumber'], 'version number')
  ctx.prove(I.getattr(v, 'status') is I.get('keyinfo.' + t['status']), 'status')
  ctx.prove_eq(I.getattr(v, 'exportable'), t['exportable'], 'export flag')


@SPECS.spec(['keydata.KeyVersion.__str__', 'keydata.KeyVersion.Read'])
def version_round_trip(ctx):
  I = interp(ctx)
  v, t = version(ctx, I)
  tree = jdict(ctx, I, text(I, v))
  prove_tree(ctx, I, tree, t, 'version record')
  same_version(ctx, I, I.call(I.get('keydata.KeyVersion.Read'), [tree]), t)


PURPOSES = ('DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY')
TYPES = ('AES', 'HMAC_SHA1', 'DSA_PRIV', 'DSA_PUB', 'RSA_PRIV', 'RSA_PUB')


@SPECS.spec(['keydata.KeyMetadata.__str__', 'keydata.KeyMetadata.Read', 'keydata.KeyMetadata.AddVersion'],
            bounded='metadata with at most 2 versions (numbers, statuses and flags arbitrary)',
            deadline=120)
def metadata_round_trip(ctx):
  I = interp(ctx)
  name = symstr(ctx, 'name')
  nv = ctx.choose(3)
  if nv == 0:
    p, ty = PURPOSES[ctx.choose(4)], TYPES[ctx.choose(6)]
  else:
    p, ty = PURPOSES[nv], TYPES[nv]
  enc = bool(ctx.choose(2))
  m = I.call(I.get('keydata.KeyMetadata'), [name, I.get('keyinfo.' + p), I.get('keyinfo.' + ty), enc])
  vs = []
  for i in range(nv):
    v, t = version(ctx, I, i)
    for _, u in vs:
      ctx.assume(t['versionNumber'].t != u['versionNumber'].t)
    vs.append((v, t))
    call(I, m, 'AddVersion', v)
  s = text(I, m)
  prove_tree(ctx, I, jdict(ctx, I, s), dict(
      name=name, purpose=p, type=ty, encrypted=enc, versions=[t for _, t in vs]), 'metadata')
  r = I.call(I.get('keydata.KeyMetadata.Read'), [s])
  ctx.prove_streq(I.getattr(r, 'name'), name, 'name')
  ctx.prove(I.getattr(r, 'purpose') is I.get('keyinfo.' + p), 'purpose')
  ctx.prove(I.getattr(r, 'type') is I.get('keyinfo.' + ty), 'type')
  ctx.prove_eq(I.getattr(r, 'encrypted'), enc, 'encrypted flag')
  got = I.getattr(r, 'versions')
  ctx.prove(len(got.items) == nv, 'number of versions')
  for v, (_, t) in zip(got.items, vs):
    same_version(ctx, I, v, t)
    ctx.prove(call(I, r, 'GetVersion', t['versionNumber']) is v, 'found under its number')


@SPECS.spec(['keydata.KeyMetadata.__str__', 'keydata.KeyMetadata.Read', 'keydata.KeyMetadata.AddVersion',
             'keydata.KeyVersion.__str__', 'keydata.KeyVersion.Read'], deadline=150)
def metadata_of_any_number(ctx):
  """Any number of versions: written out in full, and read back."""
  I = interp(ctx)
  I.state['lazymap'] = True
  name = symstr(ctx, 'name')
  q = ctx.choose(4)
  p, ty = PURPOSES[q], TYPES[q + 2]
  enc = bool(q % 2)
  s = AbsSet(ctx, I)
  if ctx.choose(2):
    s.primary()
  m = I.call(I.get('keydata.KeyMetadata'), [name, I.get('keyinfo.' + p), I.get('keyinfo.' + ty), enc])
  need('_KeyMetadata__versions' in m.fields, 'KeyMetadata')
  m.fields['_KeyMetadata__versions'] = NumDict(I, s)

  def record(e):
    for st in ('PRIMARY', 'ACTIVE', 'INACTIVE'):
      if e[3] is I.get('keyinfo.' + st):
        return dict(versionNumber=SInt(s.num_f(tz(e[0]))), status=st,
                    exportable=I.truth(I.getattr(e[1], 'exportable')))
  txt = text(I, m)
  if ctx.choose(2):
    return readback(ctx, I, s, name, p, ty, enc, txt)
  t = lib.json_loads(I, txt)
  need(isinstance(t, PDict), 'metadata')
  rest = PDict([(k, v) for k, v in t.entries if k != 'versions'], ctx.newserial())
  prove_tree(ctx, I, rest, dict(name=name, purpose=p, type=ty, encrypted=enc), 'metadata')
  vs = [v for k, v in t.entries if k == 'versions']
  if not vs:
    return ctx.fail('versions are listed', '')
  need(isinstance(vs[0], PList), 'versions')
  if vs[0].sym is None:
    ctx.prove(tz(s.n) == len(vs[0].items), 'every version is listed')
  else:
    ctx.prove(vs[0].sym.n == tz(s.n), 'every version is listed')
    if ctx.decide(tz(s.n) > 0):
      j = ctx.fresh('j')
      ctx.assume(z3.And(j >= 0, j < s.n))
      e = s.entry(j)
      prove_tree(ctx, I, vs[0].sym.at(j), record(e), 'version record')


def readback(ctx, I, s, name, p, ty, enc, txt):
  def same(I, v, e):
    return (clsname(v.cls) == 'KeyVersion' and ctx.teq(iterm(I.getattr(v, 'version_number')), s.num_f(tz(e[0])))
            and I.getattr(v, 'status') is e[3]
            and I.truth(I.getattr(v, 'exportable')) is I.truth(I.getattr(e[1], 'exportable')))
  d = fills(I, lambda I: FilledDict(I, s, lambda I, i: [
      (SInt(s.num_f(tz(i))), s.entry(i))], None, same))
  I.loopspec = loopinv(defs=[filling(d)])
  r = I.call(I.get('keydata.KeyMetadata.Read'), [txt])
  ctx.prove_streq(I.getattr(r, 'name'), name, 'name')
  ctx.prove(I.getattr(r, 'purpose') is I.get('keyinfo.' + p), 'purpose')
  ctx.prove(I.getattr(r, 'type') is I.get('keyinfo.' + ty), 'type')
  ctx.prove_eq(I.getattr(r, 'encrypted'), enc, 'encrypted flag')
  g = r.fields.get('_KeyMetadata__versions')
  need(isinstance(g, FilledDict), 'KeyMetadata')
  ctx.prove(g.complete(I), 'every version is read back, and nothing else')


@SPECS.spec(['keyinfo.GetType', 'keyinfo.GetStatus', 'keyinfo.GetPurpose', 'keyinfo.GetMode'])
def names(ctx):
  """Known names give the object of that name, every other string is refused."""
  I = interp(ctx)
  fn, known = (('GetType', TYPES), ('GetStatus', ('PRIMARY', 'ACTIVE', 'INACTIVE')),
               ('GetPurpose', PURPOSES), ('GetMode', ('CBC', 'CTR', 'ECB', 'DET_CBC')))[ctx.choose(4)]
  f = I.get('keyinfo.' + fn)
  for x in known:
    r = I.call(f, [x])
    ctx.prove(r is I.get('keyinfo.' + x), 'known name')
    ctx.prove_streq(text(I, r), x, 'text is the name')
  s = symstr(ctx, 's')
  for x in known:
    ctx.assume_strne(s, x)
  expect(ctx, I, outcome(I, lambda: I.call(f, [s])), 'KeyczarError', 'unknown name')


@SPECS.spec(['keyinfo.KeyType.IsValidSize'])
def type_table(ctx):
  """Key types, their sizes and defaults as the format defines them."""
  I = interp(ctx)
  for n, sizes in dict(AES=(128, 192, 256), HMAC_SHA1=(256,), DSA_PRIV=(1024,), DSA_PUB=(1024,),
                       RSA_PRIV=(2048, 4096, 1024, 768, 512), RSA_PUB=(2048, 4096, 1024, 768, 512)).items():
    t = I.get('keyinfo.' + n)
    ctx.prove_eq(I.getattr(t, 'default_size'), sizes[0], n + ' default size')
    x = symint(ctx, 'size')
    r = call(I, t, 'IsValidSize', x)
    want = z3.Or(*[x.t == q for q in sizes])
    ctx.prove((r.t if isinstance(r, SBool) else z3.BoolVal(r)) == want, n + ' sizes')
