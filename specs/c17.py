"""C17 Public key export."""
from specs.kit import *
from specs.absset import *
from specs.c06 import C, positive
from specs.c07 import PURPOSES, TYPES, keytree, numtext
from specs.c16 import path, lookup
SPECS = Registry()
EXPORT = {('DSA_PRIV', 'SIGN_AND_VERIFY'): ('DSA_PUB', 'VERIFY'),
          ('RSA_PRIV', 'SIGN_AND_VERIFY'): ('RSA_PUB', 'VERIFY'),
          ('RSA_PRIV', 'DECRYPT_AND_ENCRYPT'): ('RSA_PUB', 'ENCRYPT')}


class PrivKey(OpaqueKey):
  """A private key of the set: its text is private, its public key's text is public."""
  def __init__(self, I, hid=None):
    OpaqueKey.__init__(self, I, hid)
    self.text = I.ctx.freshstr('private%d' % self.tag)

  def get(self, I, name):
    if name == 'public_key' and self.pub is None:
      self.pub = PubKey(I, self.hid)
    return OpaqueKey.get(self, I, name)

  def m___str__(self, I):
    return self.text


class PubKey(OpaqueKey):
  def __init__(self, I, hid=None):
    OpaqueKey.__init__(self, I, hid)
    self.text = I.ctx.freshstr('public%d' % self.tag)

  def m___str__(self, I):
    return self.text


class Ghost(Native):
  tname = 'ghost'


@SPECS.spec(['keyczar.GenericKeyczar.PublicKeyExport', 'keyczar.Keyczar.versions', 'keyczar.Keyczar.GetKey',
             'keydata.KeyMetadata.__init__'])
def export(ctx):
  """Key sets of any size: the i-th version added to the exported metadata and the i-th key
  file written belong to the i-th version; as many as there are versions."""
  I = interp(ctx)
  t = AbsSet(ctx, I, lambda I, hid: PrivKey(I, hid))
  ty, pu = sorted(EXPORT)[ctx.choose(3)]
  k = keyset(ctx, I, 'GenericKeyczar', t, pu, ty, 'maybe')
  name = symstr(ctx, 'name')
  md = k.fields['metadata']
  md.fields['name'] = name
  dest = symstr(ctx, 'dest')
  ctx.assume(tz(slen(dest)) >= 1)
  g = Ghost(I)
  g.fields.update(added=0, written=0, meta=0)
  mt = symstr(ctx, 'metatext')

  def version(I, v, i):
    ctx.prove(z3.And(i >= 0, i < t.n), 'one per version')
    e = t.entry(i)
    ctx.prove_eq(I.getattr(v, 'version_number'), SInt(t.num_f(i)), 'the number of the version')
    ctx.prove(I.getattr(v, 'status') is e[3], 'the status of the version')

  def add(I, f, a, kw):
    need(len(a) == 2 and a[0] is not md, 'AddVersion')
    g.md = a[0]
    i = tz(iterm(g.fields['added']))
    version(I, a[1], i)
    I.setfield(g, 'added', mkint(simp(i + 1)))
    return True

  def mdstr(I, f, a, kw):
    m = a[0]
    ctx.prove(tz(iterm(g.fields['added'])) == t.n, 'every version is in the exported metadata')
    G = lambda x: I.getattr(m, x)
    ctx.prove(m is not md, 'not the metadata of the private set')
    ctx.prove_streq(G('name'), name, 'same name')
    ctx.prove(G('type') is I.get('keyinfo.' + EXPORT[ty, pu][0]), 'public type')
    ctx.prove(G('purpose') is I.get('keyinfo.' + EXPORT[ty, pu][1]), 'public purpose')
    ctx.prove(G('encrypted') is False, 'not encrypted')
    return mt

  def write(I, f, a, kw):
    need(len(a) == 2, 'WriteFile')
    data, loc = a
    if ctx.quick_same(data, mt) or ctx.str_eq_valid(data, mt):
      ctx.prove_streq(loc, path(ctx, I, dest, 'meta'), 'the metadata is the file meta')
      I.setfield(g, 'meta', mkint(tadd(iterm(g.fields['meta']), 1)))
      return None
    i = tz(iterm(g.fields['written']))
    ctx.prove(z3.And(i >= 0, i < t.n), 'one file per version')
    e = t.entry(i)
    ctx.prove_streq(loc, path(ctx, I, dest, I.str_(SInt(t.num_f(i)))), 'named by the version number')
    ctx.prove_streq(data, I.getattr(t.key(e), 'public_key').text, 'exactly the text of the public key')
    I.setfield(g, 'written', mkint(simp(i + 1)))
    return None

  I.contracts['keydata.KeyMetadata.AddVersion'] = add
  I.contracts['keydata.KeyMetadata.__str__'] = mdstr
  I.contracts['util.WriteFile'] = write
  fs = I.world.fs(I)
  o = outcome(I, lambda: call(I, k, 'PublicKeyExport', dest))
  if o[0] == 'raise':
    return ctx.fail('exported', clsname(o[1].exc.cls))
  need(not fs.log, 'util.WriteFile')
  ctx.prove(tz(iterm(g.fields['meta'])) == 1, 'the metadata is written')
  ctx.prove(tz(iterm(g.fields['written'])) == t.n, 'every key is written')
  ctx.prove(md.fields['name'] is name and not k.fields['_keys'].log and
            not md.fields['_KeyMetadata__versions'].log, 'the private set is left alone')
  for e in t.elems:
    ctx.prove(I.getattr(e[1], 'status') is e[3], 'the private set is left alone: status')


@SPECS.spec(['keyczar.GenericKeyczar.PublicKeyExport'])
def refused(ctx):
  """Every other combination of type and purpose is refused and nothing is written."""
  I = interp(ctx)
  combos = [(a, b) for a in TYPES for b in PURPOSES if (a, b) not in EXPORT]
  ty, pu = combos[ctx.choose(len(combos))]
  t = AbsSet(ctx, I, lambda I, hid: PrivKey(I, hid))
  k = keyset(ctx, I, 'GenericKeyczar', t, pu, ty, 'maybe')
  fs = I.world.fs(I)
  I.contracts['util.WriteFile'] = lambda I, f, a, kw: fs.log.append(('write',) + tuple(a))
  o = outcome(I, lambda: call(I, k, 'PublicKeyExport', symstr(ctx, 'dest')))
  expect(ctx, I, o, 'KeyczarError', 'refused')
  ctx.prove(not fs.log, 'nothing is written')


@SPECS.spec(['keys.RsaPublicKey.__str__', 'keys.DsaPublicKey.__str__', 'keys.RsaPublicKey.__init__',
             'keys.DsaPublicKey.__init__', 'keys.RsaPrivateKey.__init__', 'keys.DsaPrivateKey.__init__'])
def public_text(ctx):
  """The text of the public key of any private key: exactly the public parameters."""
  I = interp(ctx, *C)
  if ctx.choose(2):
    priv, pub, key, size = rsakey(ctx, I)
    f = key.fields
    want = dict(modulus=numtext(I, f['n']), publicExponent=numtext(I, f['e']), size=size)
  else:
    priv, pub, key = dsakey(ctx, I)
    f = key.fields
    want = {a: numtext(I, f[a]) for a in 'pqgy'}
    want['size'] = 1024
  p = I.getattr(priv, 'public_key')
  prove_tree(ctx, I, jdict(ctx, I, text(I, p)), want, 'only the public parameters')
  ctx.prove_streq(I.getattr(p, 'hash_id'), I.getattr(priv, 'hash_id'), 'same identifier')


@SPECS.spec(['keys.RsaPrivateKey.Generate', 'keys.DsaPrivateKey.Generate', 'keys.RsaPrivateKey.Read',
             'keys.DsaPrivateKey.Read'])
def public_text_of_new_and_read_keys(ctx):
  """Also when the private key was generated or read: nothing private reaches the text."""
  I = interp(ctx, *C)
  cls = ('Rsa', 'Dsa')[ctx.choose(2)]
  gen = ctx.choose(2)
  if gen:
    k = I.call(I.get('keys.%sPrivateKey.Generate' % cls), [2048 if cls == 'Rsa' else 1024])
    f = I.getattr(k, 'key').fields
    size = 2048 if cls == 'Rsa' else 1024
  else:
    if cls == 'Rsa':
      priv, pub, key, size = rsakey(ctx, I, 2048)
      positive(ctx, 'RSA_PRIV', dict(key=key, priv=priv, pub=pub, size=size))
    else:
      priv, pub, key = dsakey(ctx, I)
      positive(ctx, 'DSA_PRIV', dict(key=key, priv=priv, pub=pub, size=1024))
      size = 1024
    f = key.fields
    k = I.call(I.get('keys.%sPrivateKey.Read' % cls), [text(I, priv)])
  if cls == 'Rsa':
    want = dict(modulus=numtext(I, f['n']), publicExponent=numtext(I, f['e']), size=size)
  else:
    want = {a: numtext(I, f[a]) for a in 'pqgy'}
    want['size'] = size
  p = I.getattr(k, 'public_key')
  tree = jdict(ctx, I, text(I, p))
  prove_tree(ctx, I, tree, want, 'only the public parameters')


@SPECS.spec(['keyczar.GenericKeyczar.PublicKeyExport', 'keyczar.Keyczar.__init__', 'keyczar.Keyczar._AddKey',
             'util.WriteFile', 'util.ReadFile', 'readers.FileReader.GetKey', 'readers.FileReader.GetMetadata',
             'keys.ReadKey'],
            bounded='one version with arbitrary number, status and key; two DSA versions with an active and a primary', deadline=200)
def export_and_open(ctx):
  """The whole way: private set, exported files, public set."""
  I = interp(ctx, *C)
  fs, loc = I.world.fs(I), '/keys/pub'
  fs.dirs.append(loc)
  ty, pu = sorted(EXPORT)[ctx.choose(3)]
  nv = ctx.choose(3) if ty == 'DSA_PRIV' else ctx.choose(2)
  nums, sts, ks, pubs, exps = [], [], [], [], []
  for i in range(nv):
    n = symint(ctx, 'n%d' % i, 1)
    for x in nums:
      ctx.assume(n.t != x.t)
    nums.append(n)
    sts.append(('PRIMARY', 'ACTIVE', 'INACTIVE')[ctx.choose(3)] if nv == 1 else ('ACTIVE', 'PRIMARY')[i])
    exps.append(bool(i))
    if ty == 'RSA_PRIV':
      priv, pub, key, size = rsakey(ctx, I, 2048)
    else:
      (priv, pub, key), size = dsakey(ctx, I), 1024
    positive(ctx, ty, dict(key=key, priv=priv, pub=pub, size=size))
    ks.append(priv)
    pubs.append(key)
  if sts.count('PRIMARY') > 1:
    return ctx.ok('not a key set')
  if nv == 2:
    ctx.assume_strne(I.getattr(ks[0], 'hash_id'), I.getattr(ks[1], 'hash_id'))
  name = symstr(ctx, 'name')
  vs = [dict(versionNumber=n, status=s, exportable=e) for n, s, e in zip(nums, sts, exps)]
  md = lib.json_dumps(I, lib.topv(I, dict(name=name, purpose=pu, type=ty, encrypted=False, versions=vs)))
  texts = [(n, text(I, k)) for n, k in zip(nums, ks)]
  g = I.call(I.get('keyczar.GenericKeyczar'), [Reader(I, md, lambda I, n: [
      t for x, t in texts if ctx.decide(x.t == tz(iterm(n)))][0])])
  call(I, g, 'PublicKeyExport', loc)
  o = outcome(I, lambda: I.call(I.get('keyczar.GenericKeyczar'), [I.call(I.get('readers.CreateReader'), [loc])]))
  if o[0] == 'raise':
    return ctx.fail('opened', clsname(o[1].exc.cls))
  h = o[1]
  m = I.getattr(h, 'metadata')
  ctx.prove_streq(I.getattr(m, 'name'), name, 'same name')
  ctx.prove(I.getattr(m, 'type') is I.get('keyinfo.' + EXPORT[ty, pu][0]), 'public type')
  ctx.prove(I.getattr(m, 'purpose') is I.get('keyinfo.' + EXPORT[ty, pu][1]), 'public purpose')
  ctx.prove(len(I.getattr(h, 'versions').items) == nv, 'number of versions')
  for n, s, k, lk in zip(nums, sts, ks, pubs):
    v = call(I, m, 'GetVersion', n)
    ctx.prove(I.getattr(v, 'status') is I.get('keyinfo.' + s), 'same status')
    p = call(I, h, 'GetKey', v)
    ctx.prove(I.getattr(p, 'type') is I.get('keyinfo.' + EXPORT[ty, pu][0]), 'public key')
    ctx.prove_streq(I.getattr(p, 'hash_id'), I.getattr(k, 'hash_id'), 'same identifier')
    for x in (('n', 'e') if ty == 'RSA_PRIV' else 'pqgy'):
      ctx.prove_eq(I.getattr(p, 'key').fields[x], lk.fields[x], 'the public key of the private key: ' + x)
    ctx.prove((I.getattr(h, 'primary_version') is v) == (s == 'PRIMARY'), 'same primary')
