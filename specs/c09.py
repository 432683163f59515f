"""C09 Key sets are only opened for their purpose."""
from specs.kit import *
from specs.absset import *
from specs.c07 import PURPOSES, TYPES
SPECS = Registry()
OK = dict(Encrypter=('ENCRYPT', 'DECRYPT_AND_ENCRYPT'), Crypter=('DECRYPT_AND_ENCRYPT',),
          Verifier=('VERIFY', 'SIGN_AND_VERIFY'), UnversionedVerifier=('VERIFY', 'SIGN_AND_VERIFY'),
          Signer=('SIGN_AND_VERIFY',), UnversionedSigner=('SIGN_AND_VERIFY',), GenericKeyczar=PURPOSES)
CLASSES = tuple(sorted(OK))


class EncReader(Reader):
  def isinst(self, I, c):
    return clsname(c) in ('Reader', 'EncryptedReader')


def readkey(I):
  """keys.ReadKey seen through its contract: the key of that type that text describes."""
  I.state['read'] = []

  def apply(I, f, a, kw):
    k = OpaqueKey(I)
    for _, _, o in I.state['read']:     # identifiers of distinct keys are distinct
      I.ctx.assume_strne(k.idb, o.idb)
      I.ctx.assume_strne(k.hid, o.hid)
    I.state['read'].append((a[0], a[1], k))
    return k
  I.contracts['keys.ReadKey'] = apply


def meta(ctx, I, purpose, ktype, enc, versions):
  return lib.json_dumps(I, lib.topv(I, dict(name='n', purpose=purpose, type=ktype, encrypted=enc,
                                            versions=versions)))


@SPECS.spec(['keyczar.Keyczar.__init__'] + ['keyczar.%s.IsAcceptablePurpose' % c for c in CLASSES])
def purposes(ctx):
  """Every class with every purpose, encrypted or not, either kind of reader."""
  I = interp(ctx)
  readkey(I)
  cls, p, ty = CLASSES[ctx.choose(7)], PURPOSES[ctx.choose(4)], TYPES[ctx.choose(6)]
  enc, er = bool(ctx.choose(2)), bool(ctx.choose(2))
  r = (EncReader if er else Reader)(I, meta(ctx, I, p, ty, enc, []), lambda I, n: 'key')
  o = outcome(I, lambda: I.call(I.get('keyczar.' + cls), [r]))
  if p not in OK[cls]:
    return expect(ctx, I, o, 'KeyczarError', 'unacceptable purpose')
  if enc and not er:
    return expect(ctx, I, o, 'KeyczarError', 'encrypted key set without encrypted reader')
  if o[0] == 'raise':
    return ctx.fail('opened', clsname(o[1].exc.cls))
  k = o[1]
  ctx.prove(I.getattr(k, 'primary_version') is None and I.getattr(k, 'primary_key') is None, 'no primary')
  ctx.prove(I.getattr(I.getattr(k, 'metadata'), 'type') is I.get('keyinfo.' + ty), 'type')
  ctx.prove(I.getattr(I.getattr(k, 'metadata'), 'purpose') is I.get('keyinfo.' + p), 'purpose')


@SPECS.spec(['keyczar.Keyczar.IsAcceptablePurpose'])
def acceptable(ctx):
  I = interp(ctx)
  cls = CLASSES[ctx.choose(7)]
  o = Obj(I.get('keyczar.' + cls), ctx.newserial())
  for p in PURPOSES:
    r = call(I, o, 'IsAcceptablePurpose', I.get('keyinfo.' + p))
    if isinstance(r, SBool):
      r = ctx.decide(r.t)
    ctx.prove(bool(r) == (p in OK[cls]), '%s for %s' % (cls, p))


@SPECS.spec(['keyczar.Keyczar.__init__', 'keyczar.Keyczar.GetKey', 'keyczar.Keyczar.versions'],
            bounded='at most 3 versions with arbitrary numbers and identifiers', deadline=150)
def contents(ctx):
  """Every version of the metadata with the key its reader supplied."""
  I = interp(ctx)
  readkey(I)
  nv = ctx.choose(4)
  nums, sts, asked = [], [], []
  for i in range(nv):
    n = symint(ctx, 'n%d' % i)
    for x in nums:
      ctx.assume(n.t != x.t)
    nums.append(n)
    sts.append(('PRIMARY', 'ACTIVE', 'INACTIVE')[ctx.choose(3)])
  vs = [dict(versionNumber=n, status=s, exportable=False) for n, s in zip(nums, sts)]

  def getkey(I, n):
    t = ctx.freshstr('keytext%d' % len(asked))
    asked.append((n, t))
    return t
  enc = bool(ctx.choose(2)) if nv < 3 else False
  r = (EncReader if enc else Reader)(I, meta(ctx, I, 'SIGN_AND_VERIFY', 'HMAC_SHA1', enc, vs), getkey)
  cls = ('Signer', 'Verifier', 'GenericKeyczar')[ctx.choose(3)] if nv < 3 else 'Signer'
  o = outcome(I, lambda: I.call(I.get('keyczar.' + cls), [r]))
  if sts.count('PRIMARY') > 1:
    return expect(ctx, I, o, 'KeyczarError', 'two primary versions')
  if o[0] == 'raise':
    return ctx.fail('opened', clsname(o[1].exc.cls))
  k = o[1]
  versions = I.getattr(k, 'versions')
  ctx.prove(len(versions.items) == nv, 'number of versions')
  for i, (n, s) in enumerate(zip(nums, sts)):
    vv = [v for v in versions.items if ctx.teq(iterm(I.getattr(v, 'version_number')), n.t)]
    ctx.prove(len(vv) == 1, 'the version is there')
    if len(vv) != 1:
      return
    v = vv[0]
    ctx.prove(I.getattr(v, 'status') is I.get('keyinfo.' + s), 'with its status')
    texts = [t for x, t in asked if ctx.teq(iterm(x), n.t)]
    ctx.prove(len(texts) == 1, 'its key was read')
    key = [x for x in I.state['read'] if x[1] is texts[0]]
    ctx.prove(len(key) == 1 and key[0][0] is I.get('keyinfo.HMAC_SHA1'), 'as a key of the type')
    ctx.prove(call(I, k, 'GetKey', v) is key[0][2], 'key under the version')
    ctx.prove(call(I, k, 'GetKey', key[0][2].hid) is key[0][2], 'key under its identifier')
    if s == 'PRIMARY':
      ctx.prove(I.getattr(k, 'primary_version') is v, 'primary version')
      ctx.prove(I.getattr(k, 'primary_key') is key[0][2], 'primary key')
  if 'PRIMARY' not in sts:
    ctx.prove(I.getattr(k, 'primary_version') is None, 'no primary version')
    ctx.prove(I.getattr(k, 'primary_key') is None, 'no primary key')


def opening(ctx, cls, second=False):
  """Opening a key set whose metadata lists any number of versions.  -> (I, set, key set or error)"""
  I = interp(ctx)
  enc = bool(ctx.choose(2))

  def mkkey(I, hid):
    k = OpaqueKey(I, hid)
    for e in s.elems:
      if e[2] is not None:
        ctx.assume_strne(k.hid, e[2].hid)
    return k
  s = AbsSet(ctx, I, mkkey)
  prim = []
  if second or ctx.choose(2):
    prim.append(s.primary())
  if second:
    q = ctx.fresh('second')
    ctx.assume(z3.And(q >= 0, q < s.n, q != tz(s.pi)))
    prim.append(s.make(q, s.status('PRIMARY')))
  ktype = I.get('keyinfo.HMAC_SHA1')
  md = I.call(I.get('keydata.KeyMetadata'), ['n', I.get('keyinfo.SIGN_AND_VERIFY'), ktype, enc])
  need('_KeyMetadata__versions' in md.fields, 'KeyMetadata')
  md.fields['_KeyMetadata__versions'] = NumDict(I, s)
  mt, texts = ctx.freshstr('metatext'), []

  def readmeta(I, f, a, k):
    need(len(a) == 1 and a[0] is mt, 'KeyMetadata.Read')
    return md
  I.contracts['keydata.KeyMetadata.Read'] = readmeta

  def getkey(I, n):
    e = s.by_num(n)
    ctx.prove(e is not None, 'a key of the metadata is asked for')
    if e is None:
      raise PathEnd()
    texts.append((e, ctx.freshstr('keytext%d' % len(texts))))
    return texts[-1][1]

  def read(I, f, a, k):
    es = [e for e, t in texts if len(a) == 2 and t is a[1]]
    need(len(es) == 1 and not k, 'ReadKey')
    ctx.prove(a[0] is ktype, 'as a key of the type')
    return s.key(es[0])
  I.contracts['keys.ReadKey'] = read
  d = fills(I, lambda I: FilledDict(I, s, lambda I, i: [
      (s.entry(i)[1], s.key(s.entry(i))), (I.getattr(s.key(s.entry(i)), 'hash_id'), s.key(s.entry(i)))],
      KeyDict(I, s)))

  def primary(env, loc):
    for e in prim:
      if ctx.decide(tz(e[0]) < tz(env.k)):
        return e[1]
    return NOTHING
  I.loopspec = loopinv(defs=[filling(d), ('the primary so far', 'maybe', primary)],
                       gpreds=[('one primary at most so far', lambda env: z3.Or(
                           *[tz(env.k) <= tz(e[0]) for e in prim]))] if second else [])
  r = (EncReader if enc or ctx.choose(2) else Reader)(I, mt, getkey)
  return I, s, prim, outcome(I, lambda: I.call(I.get('keyczar.' + cls), [r])), md


@SPECS.spec(['keyczar.Keyczar.__init__', 'keyczar.Keyczar.GetKey'], deadline=150)
def contents_of_any_number(ctx):
  """Any number of versions: each is there with the key its reader supplied, under the version
  and under its identifier (identifiers of distinct keys being distinct)."""
  I, s, prim, o, md = opening(ctx, ('Signer', 'Verifier', 'GenericKeyczar')[ctx.choose(3)])
  if o[0] == 'raise':
    return ctx.fail('opened', clsname(o[1].exc.cls))
  k = o[1]
  ctx.prove(I.getattr(k, 'metadata') is md, 'the metadata read')
  d = k.fields['_keys']
  need(isinstance(d, FilledDict), 'Keyczar')
  ctx.prove(d.complete(I), 'every version with its key, and nothing else')
  ctx.prove(I.getattr(k, 'primary_version') is (prim[0][1] if prim else None), 'primary version')
  if prim:
    ctx.prove(I.getattr(k, 'primary_key') is s.key(prim[0]), 'primary key')
  else:
    ctx.prove(I.getattr(k, 'primary_key') is None, 'no primary key')
  ctx.assume(s.n > 0)
  e = s.fresh() if not prim or ctx.choose(2) else prim[0]
  ctx.prove(call(I, k, 'GetKey', e[1]) is s.key(e), 'key under the version')
  ctx.prove(call(I, k, 'GetKey', I.getattr(s.key(e), 'hash_id')) is s.key(e), 'key under its identifier')


@SPECS.spec(['keyczar.Keyczar.__init__'], deadline=150)
def two_primaries_among_any_number(ctx):
  I, s, prim, o, md = opening(ctx, ('Signer', 'Verifier', 'GenericKeyczar')[ctx.choose(3)], second=True)
  expect(ctx, I, o, 'KeyczarError', 'two primary versions')


@SPECS.spec(['keyczar.%s.Read' % c for c in CLASSES])
def opened_from_a_location(ctx):
  """Read(location) opens the key set at that location, as that class and for its purpose only."""
  I = interp(ctx)
  readkey(I)
  fs, loc = I.world.fs(I), '/keys/set'
  fs.dirs.append(loc)
  cls, p = CLASSES[ctx.choose(7)], PURPOSES[ctx.choose(4)]
  ty = dict(ENCRYPT='RSA_PUB', DECRYPT_AND_ENCRYPT='AES', VERIFY='DSA_PUB', SIGN_AND_VERIFY='HMAC_SHA1')[p]
  enc, name, t1 = bool(ctx.choose(2)), symstr(ctx, 'name'), symstr(ctx, 'keytext')
  n = symint(ctx, 'n', 1)
  m = lib.json_dumps(I, lib.topv(I, dict(name=name, purpose=p, type=ty, encrypted=enc, versions=[
      dict(versionNumber=n, status='PRIMARY', exportable=False)])))
  from specs.c16 import path, name_of
  fs.files = [[path(ctx, I, loc, 'meta'), m], [path(ctx, I, loc, name_of(I, n)), t1]]
  o = outcome(I, lambda: I.call(I.getattr(I.get('keyczar.' + cls), 'Read'), [loc]))
  if p not in OK[cls]:
    return expect(ctx, I, o, 'KeyczarError', 'unacceptable purpose')
  if enc:
    return expect(ctx, I, o, 'KeyczarError', 'encrypted key set without encrypted reader')
  if o[0] == 'raise':
    return ctx.fail('opened', clsname(o[1].exc.cls))
  k = o[1]
  ctx.prove(isinstance(k, Obj) and k.cls is I.get('keyczar.' + cls), 'as that class')
  ctx.prove_streq(I.getattr(I.getattr(k, 'metadata'), 'name'), name, 'the set at the location')
  ctx.prove_eq(I.getattr(I.getattr(k, 'primary_version'), 'version_number'), n, 'its version')
  rd = I.state['read']
  ctx.prove(len(rd) == 1 and rd[0][0] is I.get('keyinfo.' + ty), 'its key')
  if len(rd) == 1:
    ctx.prove_streq(rd[0][1], t1, 'from its file')
    ctx.prove(I.getattr(k, 'primary_key') is rd[0][2], 'is the primary key')
  ctx.prove(not fs.log, 'nothing is written')
