"""C20 keyczart commands do what they say.

The library underneath is seen through recording contracts at its public boundary (readers,
writers, GenericKeyczar, Crypter): any location may be missing, any operation may be refused.
What keyczart itself does, from the command line down to these calls, is the real code."""
from specs.kit import *
from specs.absset import need
SPECS = Registry()
EQ = frozenset([61])


class W(object):
  """The world of one command."""
  def __init__(self, ctx, I, faults=True):
    self.ctx, self.I, self.faults = ctx, I, faults
    self.log = []
    self.refused = False
    C = I.contracts
    C['readers.CreateReader'] = lambda I, f, a, k: self.new(ReaderN, 'CreateReader', a, k)
    C['writers.CreateWriter'] = lambda I, f, a, k: self.new(WriterN, 'CreateWriter', a, k)
    C['keyczar.Crypter.Read'] = lambda I, f, a, k: self.new(CrypterN, 'Crypter', a[-1:], k)
    C['readers.EncryptedReader'] = self.encrypted
    C['keyczar.GenericKeyczar'] = lambda I, f, a, k: self.new(CzarN, 'GenericKeyczar', a[-1:], k)

  def refuse(self, what):
    """Any of the calls may be refused."""
    if self.faults and self.ctx.choose(2):
      self.refused = True
      self.log.append(('refused', what))
      raise PyRaise(self.I.exc(self.I.get('errors.KeyczarError'), 'refused ' + what))

  def new(self, cls, what, a, k):
    need(len(a) == 1 and not k, what)
    self.refuse(what)
    return cls(self.I, self, a[0])

  def encrypted(self, I, f, a, k):
    a = a[-2:]
    need(isinstance(a[0], ReaderN) and not k, 'EncryptedReader')
    r = ReaderN(I, self, a[0].what)
    r.crypter = a[1]
    return r

  def did(self, *e):
    self.log.append(e)

  def changes(self):
    return [e for e in self.log if e[0] in ('WriteMetadata', 'Remove', 'Write', 'Export')]


class Tagged(Native):
  def __init__(self, I, w, what):
    Native.__init__(self, I)
    self.w, self.what, self.closed = w, what, 0

  def isinst(self, I, c):
    return clsname(c) in (self.tname, 'object')

  def m_Close(self, I):
    self.closed += 1


class ReaderN(Tagged):
  tname = 'Reader'
  crypter = None


class CrypterN(Tagged):
  tname = 'Crypter'


class WriterN(Tagged):
  tname = 'Writer'

  def m_WriteMetadata(self, I, md, overwrite=True):
    self.w.refuse('WriteMetadata')
    self.w.did('WriteMetadata', self, md, overwrite)

  def m_Remove(self, I, n):
    self.w.refuse('Remove')
    self.w.did('Remove', self, n)


class CzarN(Tagged):
  tname = 'GenericKeyczar'

  def op(self, I, name, *a):
    self.w.refuse(name)
    self.w.did(name, self, *a)

  def m_AddVersion(self, I, status, size=None):
    self.op(I, 'AddVersion', status, size)

  def m_Promote(self, I, n):
    self.op(I, 'Promote', n)

  def m_Demote(self, I, n):
    self.op(I, 'Demote', n)

  def m_Revoke(self, I, n):
    self.op(I, 'Revoke', n)

  def m_PublicKeyExport(self, I, dest, mock=None):
    need(mock is None, 'mock')
    self.op(I, 'Export', dest)

  def m_Write(self, I, writer, encrypter=None):
    self.op(I, 'Write', writer, encrypter)


def value(ctx, name):
  """The value of a flag: any text without an equals sign."""
  v = ctx.freshstr(name, maxcode=127, excl=EQ)
  ctx.inputs[name] = v
  return v


def order(ctx, xs):
  """Flags come in any order (here: as given, reversed, rotated)."""
  xs = list(xs)
  if len(xs) < 2:
    return xs
  r = ctx.choose(3)
  return xs if r == 0 else xs[::-1] if r == 1 else xs[1:] + xs[:1]


def run(ctx, I, cmd, flags):
  argv = [cmd] + [cat(ctx, '--%s=' % f, v) for f, v in order(ctx, flags)]
  return outcome(I, lambda: I.call(I.get('keyczart.main'), [PList(argv, ctx.newserial())]))


def setup(ctx, faults=True):
  I = interp(ctx)
  return I, W(ctx, I, faults)


def opened(ctx, I, czar, loc, crypter=None):
  r = czar.what
  if not isinstance(r, ReaderN):
    return ctx.fail('the key set is read from the location', repr(r))
  ctx.prove_streq(r.what, loc, 'the key set at the location')
  ctx.prove(r.crypter is crypter, 'read with the crypter given')


def stored(ctx, I, e, czar, loc, crypter=None):
  ctx.prove(e[0] == 'Write' and e[1] is czar, 'the key set is stored')
  if e[0] == 'Write':
    ctx.prove(isinstance(e[2], WriterN), 'with a writer')
    ctx.prove_streq(e[2].what, loc, 'at the location')
    ctx.prove(e[3] is crypter, 'encrypted with the crypter given, if any')


def only(ctx, w, names, label='exactly the named operation'):
  got = [e[0] for e in w.log]
  ctx.prove(got == list(names), label)
  return got == list(names)


def kczr(ctx, I, o, label):
  expect(ctx, I, o, 'KeyczarError', label)


KIND = {('sign', None): 'HMAC_SHA1', ('sign', 'rsa'): 'RSA_PRIV', ('sign', 'dsa'): 'DSA_PRIV',
        ('crypt', None): 'AES', ('crypt', 'rsa'): 'RSA_PRIV'}
PURP = dict(sign='SIGN_AND_VERIFY', crypt='DECRYPT_AND_ENCRYPT')
ORD = 'each flag at most once, in three orders'


@SPECS.spec(['keyczart.main', 'keyczart.Create', 'keyczart.GetCommand', 'keyczart.GetFlag'], bounded=ORD, deadline=120)
def create(ctx):
  I, w = setup(ctx)
  ks = sorted(KIND, key=str)
  pu, alg = ks[ctx.choose(len(ks))]
  loc = value(ctx, 'location')
  fl = [('location', loc), ('purpose', pu)]
  if alg:
    fl.append(('asymmetric', alg if ctx.choose(2) else alg.upper()))
  name = value(ctx, 'name') if ctx.choose(2) else None
  if name is not None:
    fl.append(('name', name))
  o = run(ctx, I, 'create', fl)
  if w.refused:
    kczr(ctx, I, o, 'refused')
    return ctx.prove(not w.changes(), 'nothing else is written')
  if o[0] == 'raise':
    return ctx.fail('created', clsname(o[1].exc.cls))
  if not only(ctx, w, ['WriteMetadata']):
    return
  _, wr, md, over = w.log[0]
  ctx.prove_streq(wr.what, loc, 'at the location')
  ctx.prove(over is False, 'existing metadata is not overwritten')
  G = lambda x: I.getattr(md, x)
  ctx.prove_streq(G('name'), 'Test' if name is None else name, 'the given name, or Test')
  ctx.prove(G('purpose') is I.get('keyinfo.' + PURP[pu]), 'purpose')
  ctx.prove(G('type') is I.get('keyinfo.' + KIND[pu, alg]), 'type')
  ctx.prove(G('encrypted') is False, 'not encrypted')
  ctx.prove(I.getattr(md, 'versions') is not None and not I.iterate(I.getattr(md, 'versions')), 'no versions')


@SPECS.spec(['keyczart.main', 'keyczart.Create'], bounded=ORD)
def create_refused(ctx):
  """Missing or unknown purpose, missing location."""
  I, w = setup(ctx, False)
  case = ctx.choose(4)
  fl = []
  if case != 1:
    fl.append(('location', value(ctx, 'location')))
  if case == 2:
    p = value(ctx, 'purpose')
    for x in PURP:
      ctx.assume_strne(p, x)
    fl.append(('purpose', p))
  elif case == 1:
    fl.append(('purpose', ('crypt', 'sign')[ctx.choose(2)]))
  elif case == 3:
    fl.append(('purpose', ('test', 'encrypt', 'verify', 'CRYPT', '')[ctx.choose(5)]))
  kczr(ctx, I, run(ctx, I, 'create', fl), 'refused')
  ctx.prove(not w.log, 'nothing is written')


STATUS = ('active', 'primary', 'inactive', 'ACTIVE', 'Primary')


@SPECS.spec(['keyczart.main', 'keyczart.AddKey', 'keyczart.CreateGenericKeyczar', 'keyczart.UpdateGenericKeyczar',
             'keyczart._CreateCrypter', 'keyinfo.GetStatus'], bounded=ORD, deadline=200)
def addkey(ctx):
  I, w = setup(ctx)
  loc = value(ctx, 'location')
  fl = [('location', loc)]
  st = (None,) + STATUS
  st = st[ctx.choose(len(st))]
  if st:
    fl.append(('status', st))
  size = None
  if ctx.choose(2):
    size = symint(ctx, 'size', 0)
    fl.append(('size', I.str_(size)))
  cr = value(ctx, 'crypter') if ctx.choose(2) else None
  if cr is not None:
    fl.append(('crypter', cr))
  o = run(ctx, I, 'addkey', fl)
  if w.refused:
    kczr(ctx, I, o, 'refused')
    return ctx.prove(not w.changes(), 'nothing is written')
  if o[0] == 'raise':
    return ctx.fail('added', clsname(o[1].exc.cls))
  if not only(ctx, w, ['AddVersion', 'Write']):
    return
  _, czar, s, n = w.log[0]
  c = czar.what.crypter
  if cr is None:
    ctx.prove(c is None, 'no crypter')
  else:
    ctx.prove(isinstance(c, CrypterN), 'the crypter')
    ctx.prove_streq(c.what, cr, 'at the location given')
  opened(ctx, I, czar, loc, c)
  ctx.prove(s is I.get('keyinfo.' + (st or 'active').upper()), 'the given status, or active')
  if size is None:
    ctx.prove(n is None, "the type's default size")
  else:
    ctx.prove_eq(n, size, 'the given size')
  stored(ctx, I, w.log[1], czar, loc, c)


@SPECS.spec(['keyczart.main', 'keyczart.AddKey', 'keyinfo.GetStatus'], bounded=ORD)
def addkey_refused(ctx):
  I, w = setup(ctx, False)
  fl = []
  if ctx.choose(2):
    fl.append(('status', ('foo', '', 'revoked', 'none')[ctx.choose(4)]))
    fl.append(('location', value(ctx, 'location')))
  kczr(ctx, I, run(ctx, I, 'addkey', fl), 'unknown status or missing location: refused')
  ctx.prove(not w.changes(), 'nothing is written')


@SPECS.spec(['keyczart.main', 'keyczart.Promote', 'keyczart.Demote', 'keyczart.Revoke',
             'keyczart.CreateGenericKeyczar', 'keyczart.UpdateGenericKeyczar'], bounded=ORD, deadline=120)
def transitions(ctx):
  I, w = setup(ctx)
  op = ('Promote', 'Demote', 'Revoke')[ctx.choose(3)]
  loc = value(ctx, 'location')
  n = symint(ctx, 'version', 0)
  o = run(ctx, I, op.lower(), [('location', loc), ('version', I.str_(n))])
  if w.refused:
    kczr(ctx, I, o, 'refused')
    if not any(e[0] == 'Write' for e in w.log):
      ctx.prove(not w.changes(), 'nothing is changed before the operation succeeded')
    return
  if o[0] == 'raise':
    return ctx.fail('done', clsname(o[1].exc.cls))
  if not only(ctx, w, [op, 'Write'] + (['Remove'] if op == 'Revoke' else [])):
    return
  czar = w.log[0][1]
  opened(ctx, I, czar, loc)
  ctx.prove_eq(w.log[0][2], n, 'the given version')
  stored(ctx, I, w.log[1], czar, loc)
  if op == 'Revoke':
    ctx.prove_streq(w.log[2][1].what, loc, 'the key file at the location')
    ctx.prove_eq(w.log[2][2], n, 'of the given version')


@SPECS.spec(['keyczart.main', 'keyczart.Promote', 'keyczart.Demote', 'keyczart.Revoke'], bounded=ORD)
def transitions_refused(ctx):
  """Missing version or location, negative version."""
  I, w = setup(ctx, False)
  op = ('promote', 'demote', 'revoke')[ctx.choose(3)]
  case = ctx.choose(3)
  fl = []
  if case != 0:
    fl.append(('location', value(ctx, 'location')))
  if case == 0:
    fl.append(('version', I.str_(symint(ctx, 'version', 0))))
  elif case == 2:
    fl.append(('version', I.str_(symint(ctx, 'version', None, -1))))
  kczr(ctx, I, run(ctx, I, op, fl), 'refused')
  ctx.prove(not [e for e in w.log if e[0] != 'refused'], 'nothing is done')


@SPECS.spec(['keyczart.main', 'keyczart.PubKey', 'keyczart.CreateGenericKeyczar'], bounded=ORD)
def pubkey(ctx):
  I, w = setup(ctx)
  loc, dest = value(ctx, 'location'), value(ctx, 'destination')
  case = ctx.choose(3)
  fl = []
  if case != 1:
    fl.append(('location', loc))
  if case != 2:
    fl.append(('destination', dest))
  o = run(ctx, I, 'pubkey', fl)
  if w.refused or case:
    kczr(ctx, I, o, 'refused')
    return ctx.prove(not w.changes(), 'nothing is exported')
  if o[0] == 'raise':
    return ctx.fail('exported', clsname(o[1].exc.cls))
  if not only(ctx, w, ['Export']):
    return
  opened(ctx, I, w.log[0][1], loc)
  ctx.prove_streq(w.log[0][2], dest, 'to the destination')


COMMANDS = ('create', 'addkey', 'pubkey', 'promote', 'demote', 'revoke', 'genkey')
FLAGS = ('location', 'name', 'size', 'status', 'purpose', 'destination', 'version', 'asymmetric', 'crypter')


@SPECS.spec(['keyczart.main', 'keyczart.GetCommand'], bounded='one or two flags')
def unknown_command(ctx):
  I, w = setup(ctx, False)
  c = ctx.freshstr('command', maxcode=127)
  ctx.inputs['command'] = c
  for x in COMMANDS:
    ctx.assume_strne(c, x)
  fl = [('location', value(ctx, 'location'))] + ([('version', '1')] if ctx.choose(2) else [])
  kczr(ctx, I, run(ctx, I, c, fl), 'an unknown command is refused')
  ctx.prove(not w.log, 'nothing is done')


@SPECS.spec(['keyczart.main', 'keyczart.GetFlag'], bounded='one unknown flag among the known ones')
def unknown_flag(ctx):
  I, w = setup(ctx, False)
  f = ctx.freshstr('flag', maxcode=127, excl=EQ)
  ctx.inputs['flag'] = f
  for x in FLAGS:
    ctx.assume_strne(f, x)
  cmd = COMMANDS[ctx.choose(6)]
  fl = [('location', value(ctx, 'location')), ('purpose', 'crypt'), ('version', '1'), ('destination', value(ctx, 'destination'))]
  argv = [cmd] + [cat(ctx, '--%s=' % a, b) for a, b in fl]
  bad = cat(ctx, '--', f, '=', value(ctx, 'value'))
  argv.insert(1 + ctx.choose(len(argv)), bad)
  o = outcome(I, lambda: I.call(I.get('keyczart.main'), [PList(argv, ctx.newserial())]))
  kczr(ctx, I, o, 'an unknown flag is refused')
  ctx.prove(not w.log, 'nothing is done')


@SPECS.spec(['keyczart.main'])
def no_command(ctx):
  I, w = setup(ctx, False)
  o = outcome(I, lambda: I.call(I.get('keyczart.main'), [PList([], ctx.newserial())]))
  ctx.prove(not w.log, 'nothing is done')


@SPECS.spec(['keyczart.main'])
def not_a_number(ctx):
  """A version or size that is no integer: refused, nothing is changed."""
  I, w = setup(ctx, False)
  cmd, fl = (('promote', 'version'), ('demote', 'version'), ('revoke', 'version'), ('addkey', 'size'))[ctx.choose(4)]
  bad = ('abc', '', '1x', '1.5')[ctx.choose(4)]
  o = run(ctx, I, cmd, [('location', value(ctx, 'location')), (fl, bad)])
  ctx.prove(o[0] == 'raise' or not w.log, 'refused')
  ctx.prove(not w.changes(), 'nothing is changed')


@SPECS.spec(['keyczart._main_setuptools'], bounded='at most 4 arguments')
def installed_command(ctx):
  """The installed command runs main with the arguments after its own name."""
  I, w = setup(ctx, False)
  seen = []

  def main(I, f, a, k):
    need(len(a) == 1 and isinstance(a[0], PList) and not k, 'main')
    seen.append(list(a[0].items))
    return 7
  I.contracts['keyczart.main'] = main
  args = [value(ctx, 'arg%d' % i) for i in range(ctx.choose(5))]
  argv = I.getattr(I.get('keyczart.sys'), 'argv')
  argv.items[:] = [value(ctx, 'program')] + args
  r = I.call(I.get('keyczart._main_setuptools'), [])
  ctx.prove(len(seen) == 1 and len(seen[0]) == len(args) and all(x is y for x, y in zip(seen[0], args)),
            'main gets exactly the arguments')
