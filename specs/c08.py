"""C08 Key-set life cycle (key sets of every size and history)."""
from specs.kit import *
from specs.absset import *
SPECS = Registry()
ST = ('PRIMARY', 'ACTIVE', 'INACTIVE')
KINDS = (('AES', 'DECRYPT_AND_ENCRYPT'), ('HMAC_SHA1', 'SIGN_AND_VERIFY'), ('RSA_PRIV', 'SIGN_AND_VERIFY'))


def start(ctx, ktype='AES', purpose='DECRYPT_AND_ENCRYPT'):
  I = interp(ctx)
  s = AbsSet(ctx, I)
  k = keyset(ctx, I, 'GenericKeyczar', s, purpose, ktype)
  return I, s, k, k.fields['_keys'], k.fields['metadata'].fields['_KeyMetadata__versions']


def status(I, v):
  return I.getattr(v, 'status')


def unchanged(ctx, I, s, k, kd, nd, pv, label, but=()):
  """Frame: every version not in but keeps its status, number and export flag."""
  for e in s.elems:
    if e in but:
      continue
    ctx.prove(status(I, e[1]) is e[3], label + ': status of every other version')
    ctx.prove_eq(I.getattr(e[1], 'version_number'), SInt(s.num_f(tz(e[0]))), label + ': numbers')
  if pv is not Ellipsis:
    ctx.prove(k.fields['primary_version'] is pv, label + ': primary version')


def untouched(ctx, I, s, k, kd, nd, pv, label):
  ctx.prove(not kd.log and not nd.log, label + ': no key or version added or removed')
  unchanged(ctx, I, s, k, kd, nd, pv, label)
  m = k.fields['metadata']
  ctx.prove_eq(m.fields['name'], 'n', label + ': name')


def number(ctx, I, s):
  """An arbitrary version number: (number, element or None)."""
  n = symint(ctx, 'number')
  return n, s.by_num(n)


@SPECS.spec(['keyczar.GenericKeyczar.Promote', 'keydata.KeyMetadata.GetVersion', 'keydata.KeyVersion.status'])
def promote(ctx):
  I, s, k, kd, nd = start(ctx)
  pv = k.fields['primary_version']
  pe = s.elems[0] if s.pi is not None else None
  n, e = number(ctx, I, s)
  o = outcome(I, lambda: call(I, k, 'Promote', n))
  G = lambda x: I.get('keyinfo.' + x)
  if e is None or e[3] is G('PRIMARY'):
    expect(ctx, I, o, 'KeyczarError', 'refused')
    return untouched(ctx, I, s, k, kd, nd, pv, 'refused')
  if o[0] == 'raise':
    return ctx.fail('promotion is allowed', clsname(o[1].exc.cls))
  ctx.prove(not kd.log and not nd.log, 'no key or version added or removed')
  if e[3] is G('INACTIVE'):
    ctx.prove(status(I, e[1]) is G('ACTIVE'), 'inactive becomes active')
    return unchanged(ctx, I, s, k, kd, nd, pv, 'promote', [e])
  ctx.prove(status(I, e[1]) is G('PRIMARY'), 'active becomes primary')
  ctx.prove(k.fields['primary_version'] is e[1], 'it is the primary version')
  if pe is not None:
    ctx.prove(status(I, pe[1]) is G('ACTIVE'), 'the old primary becomes active')
  ctx.prove(I.getattr(k, 'primary_key') is s.key(e), 'its key is the primary key')
  unchanged(ctx, I, s, k, kd, nd, Ellipsis, 'promote', [x for x in (e, pe) if x])


@SPECS.spec(['keyczar.GenericKeyczar.Demote'])
def demote(ctx):
  I, s, k, kd, nd = start(ctx)
  pv = k.fields['primary_version']
  n, e = number(ctx, I, s)
  o = outcome(I, lambda: call(I, k, 'Demote', n))
  G = lambda x: I.get('keyinfo.' + x)
  if e is None or e[3] is G('INACTIVE'):
    expect(ctx, I, o, 'KeyczarError', 'refused')
    return untouched(ctx, I, s, k, kd, nd, pv, 'refused')
  if o[0] == 'raise':
    return ctx.fail('demotion is allowed', clsname(o[1].exc.cls))
  ctx.prove(not kd.log and not nd.log, 'no key or version added or removed')
  if e[3] is G('PRIMARY'):
    ctx.prove(status(I, e[1]) is G('ACTIVE'), 'primary becomes active')
    ctx.prove(k.fields['primary_version'] is None, 'no primary version is left')
    ctx.prove(I.getattr(k, 'primary_key') is None, 'no primary key is left')
    return unchanged(ctx, I, s, k, kd, nd, None, 'demote', [e])
  ctx.prove(status(I, e[1]) is G('INACTIVE'), 'active becomes inactive')
  unchanged(ctx, I, s, k, kd, nd, pv, 'demote', [e])


@SPECS.spec(['keyczar.GenericKeyczar.Revoke', 'keydata.KeyMetadata.RemoveVersion'])
def revoke(ctx):
  I, s, k, kd, nd = start(ctx)
  pv = k.fields['primary_version']
  n, e = number(ctx, I, s)
  key = s.key(e) if e is not None else None
  o = outcome(I, lambda: call(I, k, 'Revoke', n))
  G = lambda x: I.get('keyinfo.' + x)
  if e is None or e[3] is not G('INACTIVE'):
    expect(ctx, I, o, 'KeyczarError', 'refused')
    return untouched(ctx, I, s, k, kd, nd, pv, 'refused')
  if o[0] == 'raise':
    return ctx.fail('revocation is allowed', clsname(o[1].exc.cls))
  ctx.prove(len(nd.removed) == 1 and not nd.added, 'exactly one version leaves the metadata')
  ctx.prove_eq(nd.removed[0], n, 'it is that version') if nd.removed else None
  gone = list(kd.removed)
  ctx.prove(len(gone) == 2 and not kd.added, 'exactly its two entries leave the key table')
  ctx.prove(any(x is e[1] for x in gone), 'the version is gone')
  ctx.prove(any(strkind(x) and ctx.str_eq_valid(x, key.hid) for x in gone), 'the key is gone')
  for x in (e[1], key.hid):
    expect(ctx, I, outcome(I, lambda: call(I, k, 'GetKey', x)), 'KeyNotFoundError', 'not found afterwards')
  expect(ctx, I, outcome(I, lambda: call(I, k.fields['metadata'], 'GetVersion', n)), 'KeyczarError',
         'unknown afterwards')
  expect(ctx, I, outcome(I, lambda: call(I, k.fields['metadata'], 'RemoveVersion', n)), 'KeyczarError',
         'cannot be removed again')
  unchanged(ctx, I, s, k, kd, nd, pv, 'revoke')


def gen(ctx, I):
  """Contract of keys.GenKey used here: a new key of the requested type and size, its
  identifier arbitrary (it may collide); an unlisted size is refused.  Decided on the real code by C22."""
  I.state['generated'] = []

  def apply(I, f, a, kw):
    args = list(a) + [kw[x] for x in ('size',) if x in kw]
    sizes = I.getattr(args[0], 'sizes').items
    size = args[1] if len(args) > 1 and args[1] is not None else sizes[0]
    if not any([I.truth(I.eq(size, q)) for q in sizes]):
      I.throw(I.get('errors.KeyczarError'), 'size')
    key = OpaqueKey(I)
    if not I.ctx.loops:
      I.state['generated'].append((a, key))
    I.state['lastkey'] = key
    return key
  I.contracts['keys.GenKey'] = apply


@SPECS.spec(['keyczar.GenericKeyczar.AddVersion', 'keyczar.Keyczar._AddKey', 'keydata.KeyMetadata.AddVersion'],
            deadline=150)
def add_version(ctx):
  ktype, purpose = KINDS[ctx.choose(3)]
  I, s, k, kd, nd = start(ctx, ktype, purpose)
  gen(ctx, I)
  pv = k.fields['primary_version']
  pe = s.elems[0] if s.pi is not None else None
  # the highest number and the index m where it is
  s.maxn = ctx.fresh('maxn')
  m = ctx.fresh('m')
  ctx.assume(z3.If(s.n == 0, s.maxn == 0, z3.And(m >= 0, m < s.n, s.num_f(m) == s.maxn, s.maxn >= 1)))
  I.loopspec = loopinv(preds=[
      ('at most the highest', 'int', lambda env, v: z3.And(tz(iterm(v)) <= s.maxn, tz(iterm(v)) >= 0)),
      ('highest once seen', 'int', lambda env, v: z3.Implies(z3.And(s.n > 0, tz(env.k) > m), tz(iterm(v)) >= s.maxn))])
  st = I.get('keyinfo.' + ST[ctx.choose(3)])
  sizes = [None] + [q for q in I.getattr(I.get('keyinfo.' + ktype), 'sizes').items] + ['bad']
  size = sizes[ctx.choose(len(sizes))]
  if size == 'bad':
    size = symint(ctx, 'size')
    ctx.assume(z3.And(*[size.t != q for q in sizes[1:-1]]))
    o = outcome(I, lambda: call(I, k, 'AddVersion', st, size))
    expect(ctx, I, o, 'KeyczarError', 'bad size')
    return untouched(ctx, I, s, k, kd, nd, pv, 'refused')
  o = outcome(I, lambda: call(I, k, 'AddVersion', st, *([size] if size else [])))
  if o[0] == 'raise':
    return ctx.fail('adding a version succeeds', clsname(o[1].exc.cls))
  G = lambda x: I.get('keyinfo.' + x)
  ctx.prove(len(nd.added) == 1 and not nd.removed, 'exactly one version is added')
  num, v = nd.added[0]
  ctx.prove(tz(iterm(num)) == s.maxn + 1, 'number is the highest plus one')
  ctx.prove_eq(I.getattr(v, 'version_number'), num, 'the version carries its number')
  ctx.prove(status(I, v) is st, 'it has the requested status')
  ctx.prove(len(kd.added) == 2 and not kd.removed, 'exactly two entries in the key table')
  a = dict((('v' if x is v else 'id'), (x, y)) for x, y in kd.added)
  if set(a) != {'v', 'id'}:
    return ctx.fail('entries under version and identifier', repr(kd.added))
  key = a['v'][1]
  ctx.prove(a['id'][1] is key, 'same key under both')
  ctx.prove_streq(a['id'][0], key.hid, 'entry under the identifier of the key')
  ctx.prove(s.by_id(key.hid) is None, 'the identifier was not in the set')
  if st is G('PRIMARY'):
    ctx.prove(k.fields['primary_version'] is v, 'the new version is the primary one')
    ctx.prove(I.getattr(k, 'primary_key') is key, 'its key is the primary key')
    if pe is not None:
      ctx.prove(status(I, pe[1]) is G('ACTIVE'), 'the old primary becomes active')
    unchanged(ctx, I, s, k, kd, nd, Ellipsis, 'add', [pe] if pe else [])
  else:
    unchanged(ctx, I, s, k, kd, nd, pv, 'add')


@SPECS.spec(['keyczar.GenericKeyczar.AddVersion'])
def add_version_key_args(ctx):
  """The key is generated with the set's type and the requested size."""
  ktype, purpose = KINDS[ctx.choose(3)]
  I, s, k, kd, nd = start(ctx, ktype, purpose)
  s.maxn = ctx.fresh('maxn')
  sizes = [None] + [q for q in I.getattr(I.get('keyinfo.' + ktype), 'sizes').items]
  size = sizes[ctx.choose(len(sizes))]

  def apply(I, f, a, kw):
    args = list(a) + [kw[x] for x in ('size',) if x in kw]
    ctx.prove(args[0] is I.get('keyinfo.' + ktype), 'type of the set')
    want = size or sizes[1]
    got = args[1] if len(args) > 1 and args[1] is not None else sizes[1]
    ctx.prove_eq(got, want, 'requested size, by default that of the type')
    raise PathEnd()
  I.contracts['keys.GenKey'] = apply
  call(I, k, 'AddVersion', I.get('keyinfo.ACTIVE'), *([size] if size else []))
  ctx.fail('a key is generated', 'AddVersion returned without generating a key')
