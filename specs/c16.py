"""C16 Key sets on disk."""
from specs.kit import *
from specs.absset import *
from specs.c09 import meta
SPECS = Registry()


def begin(ctx, faults=False, loc=None):
  I = interp(ctx)
  fs = I.world.fs(I)
  fs.faults = faults
  if loc is None:
    loc = symstr(ctx, 'loc')
    # a location is a non-empty path; with or without a trailing slash
    ctx.assume(tz(slen(loc)) >= 1)
  return I, fs, loc


def path(ctx, I, loc, name):
  return lib.pathjoin(I, loc, name)


def name_of(I, n):
  return I.str_(n)


def lookup(ctx, I, fs, p):
  """The content of the file (spec level), or None."""
  for q, c in fs.files:
    if ctx.quick_same(q, p) or ctx.str_eq_valid(q, p):
      return c
  return None


def others_untouched(ctx, fs, p, label):
  """Every change of the file system was to the file p."""
  for x in fs.log:
    if x[0] == 'fault':
      continue
    ctx.prove_streq(x[1], p, label)


def surfaced(ctx, I, fs, o, label='file errors surface as KeyczarError'):
  """True if the operation met a file error (which then must be a KeyczarError)."""
  if any(x[0] == 'fault' for x in fs.log):
    expect(ctx, I, o, 'KeyczarError', label)
    return True
  return False


class TextN(Native):
  """Metadata or a key: known by its text."""
  tname = 'text'

  def __init__(self, I, text):
    Native.__init__(self, I)
    self.text = text

  def m___str__(self, I):
    return self.text


class EncrypterN(Native):
  """An encrypter and the matching crypter: Decrypt inverts Encrypt."""
  tname = 'crypter'

  def __init__(self, I):
    Native.__init__(self, I)
    self.done = []

  def m_Encrypt(self, I, data, *a):
    ct = I.ctx.freshstr('ciphertext%d' % len(self.done), maxcode=127)
    self.done.append((data, ct))
    return ct

  def m_Decrypt(self, I, ct, *a):
    for d, c in self.done:
      if I.ctx.quick_same(c, ct) or I.ctx.str_eq_valid(c, ct):
        return d
    raise Unsupported('decryption of something else')


# ------------------------------------------------------------ files
@SPECS.spec(['util.WriteFile'])
def write_file(ctx):
  I, fs, loc = begin(ctx, faults=True)
  data = symstr(ctx, 'data')
  if ctx.choose(2):
    fs.files.append([loc, symstr(ctx, 'old')])
  o = outcome(I, lambda: I.call(I.get('util.WriteFile'), [data, loc]))
  others_untouched(ctx, fs, loc, 'no other file is changed')
  if surfaced(ctx, I, fs, o):
    return
  if o[0] == 'raise':
    return ctx.fail('written', clsname(o[1].exc.cls))
  c = lookup(ctx, I, fs, loc)
  if c is None:
    return ctx.fail('the file exists', 'no file')
  ctx.prove_streq(c, data, 'the file holds exactly the data')


@SPECS.spec(['util.ReadFile'])
def read_file(ctx):
  I, fs, loc = begin(ctx, faults=True)
  old = symstr(ctx, 'old')
  there = ctx.choose(2)
  if there:
    fs.files.append([loc, old])
  o = outcome(I, lambda: I.call(I.get('util.ReadFile'), [loc]))
  ctx.prove(all(x[0] == 'fault' for x in fs.log), 'reading changes nothing')
  if surfaced(ctx, I, fs, o):
    return
  if not there:
    return expect(ctx, I, o, 'KeyczarError', 'a missing file is a KeyczarError')
  if o[0] == 'raise':
    return ctx.fail('read', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], old, 'the content of the file')


FW, FR = 'writers.FileWriter', 'readers.FileReader'


@SPECS.spec([FW + '.__init__', FW + '.WriteMetadata', 'util.WriteFile'])
def write_metadata(ctx):
  I, fs, loc = begin(ctx, faults=bool(ctx.choose(2)))
  text = symstr(ctx, 'text')
  meta = path(ctx, I, loc, 'meta')
  there = ctx.choose(2)
  old = symstr(ctx, 'old')
  if there:
    fs.files.append([meta, old])
  w = I.call(I.get(FW), [loc])
  how = ctx.choose(4)
  a, k = [([], {}), ([True], {}), ([False], {}), ([], {'overwrite': False})][how]
  o = outcome(I, lambda: call(I, w, 'WriteMetadata', TextN(I, text), *a, **k))
  others_untouched(ctx, fs, meta, 'only the file named meta is changed')
  if how >= 2 and there:
    expect(ctx, I, o, 'KeyczarError', 'existing metadata is not overwritten')
    ctx.prove_streq(lookup(ctx, I, fs, meta) or '', old, 'existing metadata is kept')
    return
  if surfaced(ctx, I, fs, o):
    return
  if o[0] == 'raise':
    return ctx.fail('written', clsname(o[1].exc.cls))
  c = lookup(ctx, I, fs, meta)
  if c is None:
    return ctx.fail('the metadata file exists', 'no file')
  ctx.prove_streq(c, text, 'the metadata file holds the metadata')


def no_plaintext(ctx, fs, text, label):
  base = rope(text).segs[0].base
  for x in fs.log:
    if x[0] == 'write' and any(getattr(g, 'base', None) is base for g in rope(x[2]).segs):
      ctx.fail(label, repr(x))
  ctx.ok(label)


@SPECS.spec([FW + '.WriteKey', FR + '.GetKey', FR + '.GetMetadata', 'readers.EncryptedReader.GetKey',
             'readers.EncryptedReader.GetMetadata', 'util.WriteFile', 'util.ReadFile'], deadline=90)
def write_key_and_read_back(ctx):
  I, fs, loc = begin(ctx, faults=bool(ctx.choose(2)))
  text = symstr(ctx, 'text')
  ctx.assume(tz(slen(text)) >= 1)
  n = symint(ctx, 'n', 1)
  p = path(ctx, I, loc, name_of(I, n))
  if ctx.choose(2):
    fs.files.append([p, symstr(ctx, 'old')])
  w = I.call(I.get(FW), [loc])
  enc = EncrypterN(I) if ctx.choose(2) else None
  o = outcome(I, lambda: call(I, w, 'WriteKey', TextN(I, text), n, *([enc] if enc or ctx.choose(2) else [])))
  others_untouched(ctx, fs, p, 'only the file named by the version number is changed')
  if enc is not None:
    no_plaintext(ctx, fs, text, 'the plain key is never written')
  if surfaced(ctx, I, fs, o):
    return
  if o[0] == 'raise':
    return ctx.fail('written', clsname(o[1].exc.cls))
  c = lookup(ctx, I, fs, p)
  if c is None:
    return ctx.fail('the key file exists', 'no file')
  if enc is None:
    ctx.prove_streq(c, text, 'the file holds the key')
  else:
    ctx.prove(len(enc.done) == 1, 'encrypted once')
    ctx.prove_streq(enc.done[0][0], text, 'the whole key is encrypted')
    ctx.prove_streq(c, enc.done[0][1], 'the file holds the ciphertext')
  fs.faults = False
  r = I.call(I.get(FR), [loc])
  if enc is not None:
    r = I.call(I.get('readers.EncryptedReader'), [r, enc])
  ctx.prove_streq(call(I, r, 'GetKey', n), text, 'reading gives the key back')
  meta = symstr(ctx, 'meta')
  call(I, w, 'WriteMetadata', TextN(I, meta))
  ctx.prove_streq(call(I, r, 'GetMetadata'), meta, 'reading gives the metadata back')
  ctx.prove_streq(call(I, r, 'GetKey', n), text, 'and still the key')


@SPECS.spec([FW + '.Remove'])
def remove_key(ctx):
  I, fs, loc = begin(ctx, faults=bool(ctx.choose(2)))
  n = symint(ctx, 'n', 1)
  p = path(ctx, I, loc, name_of(I, n))
  there = ctx.choose(2)
  if there:
    fs.files.append([p, symstr(ctx, 'old')])
  w = I.call(I.get(FW), [loc])
  o = outcome(I, lambda: call(I, w, 'Remove', n))
  others_untouched(ctx, fs, p, 'no other file is changed')
  if surfaced(ctx, I, fs, o):
    return
  if not there:
    return expect(ctx, I, o, 'KeyczarError', 'removing a missing file is a KeyczarError')
  if o[0] == 'raise':
    return ctx.fail('removed', clsname(o[1].exc.cls))
  ctx.prove(lookup(ctx, I, fs, p) is None, 'the key file is gone')


@SPECS.spec([FR + '.GetKey', FR + '.GetMetadata'])
def read_errors(ctx):
  I, fs, loc = begin(ctx, faults=True)
  n = symint(ctx, 'n', 1)
  what = ctx.choose(2)
  p = path(ctx, I, loc, name_of(I, n) if what else 'meta')
  there = ctx.choose(2)
  old = symstr(ctx, 'old')
  if there:
    fs.files.append([p, old])
  r = I.call(I.get(FR), [loc])
  o = outcome(I, lambda: call(I, r, 'GetKey', n) if what else call(I, r, 'GetMetadata'))
  if surfaced(ctx, I, fs, o):
    return
  if not there:
    return expect(ctx, I, o, 'KeyczarError', 'a missing file is a KeyczarError')
  if o[0] == 'raise':
    return ctx.fail('read', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], old, 'the content of the file')


# ------------------------------------------------------------ whole key sets
class WriterN(Native):
  """A writer; checks every call against the abstract set.  The i-th key written has to be
  the key of the i-th version, so that count = number of versions means all were written."""
  tname = 'writer'

  def __init__(self, I, aset, k, enc):
    Native.__init__(self, I)
    self.aset, self.k, self.enc = aset, k, enc
    self.fields['count'] = 0
    self.fields['metas'] = 0

  def isinst(self, I, c):
    return clsname(c) in ('Writer', 'object')

  def m_WriteMetadata(self, I, md, overwrite=True):
    ctx = I.ctx
    ctx.prove(md is self.k.fields['metadata'], 'the metadata of the key set is written')
    ctx.prove(overwrite is True, 'and replaces the old')
    ctx.prove(I.getattr(md, 'encrypted') is (self.enc is not None), 'marked encrypted exactly if it is')
    I.setfield(self, 'metas', mkint(tadd(iterm(self.fields['metas']), 1)))

  def m_WriteKey(self, I, key, n, encrypter=None):
    ctx = I.ctx
    i = tz(iterm(self.fields['count']))
    ctx.prove(z3.And(i >= 0, i < self.aset.n), 'one key per version')
    e = self.aset.entry(i)
    ctx.prove(tz(iterm(n)) == self.aset.num_f(i), 'under the number of the version')
    ctx.prove(key is self.aset.key(e), 'the key of the version')
    ctx.prove(encrypter is self.enc, 'with the encrypter given')
    I.setfield(self, 'count', mkint(simp(i + 1)))

  def m_Close(self, I):
    pass


@SPECS.spec(['keyczar.GenericKeyczar.Write', 'keyczar.Keyczar.versions', 'keyczar.Keyczar.GetKey'])
def write_key_set(ctx):
  """Every version of a key set of any size is written, with its key and number."""
  I = interp(ctx)
  t = AbsSet(ctx, I)
  before = bool(ctx.choose(2))
  k = keyset(ctx, I, 'GenericKeyczar', t, 'SIGN_AND_VERIFY', 'HMAC_SHA1', 'maybe')
  k.fields['metadata'].fields['encrypted'] = before
  enc = EncrypterN(I) if ctx.choose(2) else None
  w = WriterN(I, t, k, enc)
  o = outcome(I, lambda: call(I, k, 'Write', w, *([enc] if enc or ctx.choose(2) else [])))
  if o[0] == 'raise':
    return ctx.fail('written', clsname(o[1].exc.cls))
  ctx.prove(tz(iterm(w.fields['count'])) == t.n, 'every key is written')
  ctx.prove(tz(iterm(w.fields['metas'])) == 1, 'the metadata is written once')
  ctx.prove(I.getattr(k.fields['metadata'], 'encrypted') is (enc is not None), 'marked')


@SPECS.spec(['writers.CreateWriter', 'readers.CreateReader', FW + '.CreateWriter', FR + '.CreateReader',
             'util.ImportBackends', 'util.ImportAll'])
def create_reader_and_writer(ctx):
  """For an existing location those of files; otherwise refused."""
  I, fs, _ = begin(ctx, loc='/keys/set')
  loc = '/keys/set'
  there = ctx.choose(2)
  if there:
    fs.dirs.append(loc)
  for q, cls in (('writers.CreateWriter', FW), ('readers.CreateReader', FR)):
    o = outcome(I, lambda: I.call(I.get(q), [loc]))
    if not there:
      expect(ctx, I, o, 'KeyczarError', 'a missing location is refused')
      continue
    if o[0] == 'raise':
      ctx.fail('created', clsname(o[1].exc.cls))
      continue
    ctx.prove(isinstance(o[1], Obj) and o[1].cls is I.get(cls), 'files')
    n = symint(ctx, 'n', 1)
    if cls == FW:
      call(I, o[1], 'WriteKey', TextN(I, 'key'), n)
      ctx.prove_streq(lookup(ctx, I, fs, path(ctx, I, loc, name_of(I, n))) or '', 'key', 'at the location')
    else:
      fs.files = [[path(ctx, I, loc, 'meta'), 'the metadata']]
      ctx.prove_streq(call(I, o[1], 'GetMetadata'), 'the metadata', 'from the location')


@SPECS.spec(['keyczar.GenericKeyczar.Write'])
def write_to_a_location(ctx):
  """The deprecated form: a path instead of a writer."""
  I, fs, loc = begin(ctx, loc='/keys/set')
  fs.dirs.append(loc)
  k = I.call(I.get('keyczar.GenericKeyczar'), [Reader(I, meta(
      ctx, I, 'SIGN_AND_VERIFY', 'HMAC_SHA1', False, []))])
  t = symstr(ctx, 'text')
  I.contracts['keydata.KeyMetadata.__str__'] = lambda I, f, a, kw: t
  call(I, k, 'Write', loc)
  ctx.prove_streq(lookup(ctx, I, fs, '/keys/set/meta') or '', t, 'the metadata is in the location')


@SPECS.spec(['keyczart.Create'])
def create_keeps_existing(ctx):
  I, fs, loc = begin(ctx, loc='/keys/set')
  fs.dirs.append(loc)
  old = symstr(ctx, 'old')
  there = ctx.choose(2)
  if there:
    fs.files.append(['/keys/set/meta', old])
  p = I.get('keyinfo.' + ('DECRYPT_AND_ENCRYPT', 'SIGN_AND_VERIFY')[ctx.choose(2)])
  asym = (None, 'rsa', 'dsa')[ctx.choose(3)]
  t = symstr(ctx, 'text')
  I.contracts['keydata.KeyMetadata.__str__'] = lambda I, f, a, kw: t
  o = outcome(I, lambda: I.call(I.get('keyczart.Create'), [loc, 'name', p, asym]))
  others_untouched(ctx, fs, '/keys/set/meta', 'only the metadata is written')
  if there:
    expect(ctx, I, o, 'KeyczarError', 'an existing key set is refused')
    return ctx.prove_streq(lookup(ctx, I, fs, '/keys/set/meta') or '', old, 'and kept')
  if o[0] == 'raise':
    return ctx.fail('created', clsname(o[1].exc.cls))
  ctx.prove_streq(lookup(ctx, I, fs, '/keys/set/meta') or '', t, 'the metadata is written')


@SPECS.spec(['keyczart.Revoke', FW + '.Remove', 'keyczar.GenericKeyczar.Revoke'])
def revoke_removes_file(ctx):
  """Revoking an inactive version of any key set: its file is removed, the rest is written."""
  I, fs, loc = begin(ctx, loc='/keys/set')
  fs.dirs.append(loc)
  t = AbsSet(ctx, I)
  k = keyset(ctx, I, 'GenericKeyczar', t, 'SIGN_AND_VERIFY', 'HMAC_SHA1', 'maybe')
  n = symint(ctx, 'n', 0)
  e = t.by_num(n)
  p = path(ctx, I, loc, name_of(I, n))
  fs.files.append([p, 'the key'])
  opened, written = [], []

  def create(I, f, a, kw):
    opened.append(a[0])
    return k

  def write(I, f, a, kw):
    written.append((a, e is None or k.fields['metadata'].fields['_KeyMetadata__versions'].removed))
  I.contracts['keyczart.CreateGenericKeyczar'] = create
  I.contracts['keyczar.GenericKeyczar.Write'] = write
  o = outcome(I, lambda: I.call(I.get('keyczart.Revoke'), [loc, n]))
  need(len(opened) == 1, 'keyczart.CreateGenericKeyczar')
  ctx.prove(opened[0] == loc, 'the key set at the location')
  if e is None or e[3] is not I.get('keyinfo.INACTIVE'):
    expect(ctx, I, o, 'KeyczarError', 'only inactive versions are revoked')
    ctx.prove(not written, 'the key set is not written')
    return ctx.prove_streq(lookup(ctx, I, fs, p) or '', 'the key', 'the key file is kept')
  if o[0] == 'raise':
    return ctx.fail('revoked', clsname(o[1].exc.cls))
  ctx.prove(len(written) == 1 and bool(written[0][1]), 'the reduced key set is written')
  ctx.prove(lookup(ctx, I, fs, p) is None, 'the key file is removed')


@SPECS.spec(['keyczar.GenericKeyczar.Write', 'keyczar.Keyczar.__init__', FW + '.WriteKey', FR + '.GetKey',
             'readers.EncryptedReader.GetKey'],
            bounded='at most 2 versions with arbitrary numbers, statuses and keys', deadline=120)
def write_and_read_back(ctx):
  """The whole way: key set, files, key set."""
  I = interp(ctx, 'util.Base64WSEncode', 'util.Base64WSDecode', 'util.Hash', 'util.IntToBytes')
  fs, loc = I.world.fs(I), '/keys/set'
  fs.dirs.append(loc)
  nv = ctx.choose(3)
  nums, sts, ks, kb = [], [], [], []
  for i in range(nv):
    n = symint(ctx, 'n%d' % i, 1)
    for x in nums:
      ctx.assume(n.t != x.t)
    nums.append(n)
    sts.append(('PRIMARY', 'ACTIVE', 'INACTIVE')[ctx.choose(3)])
    k, b = hmackey(ctx, I, 'k%d' % i, 32)
    ks.append(k)
    kb.append(b)
  if sts.count('PRIMARY') > 1:
    return ctx.ok('not a key set')
  if nv == 2:
    ctx.assume_strne(I.getattr(ks[0], 'hash_id'), I.getattr(ks[1], 'hash_id'))
  vs = [dict(versionNumber=n, status=s, exportable=False) for n, s in zip(nums, sts)]
  name = symstr(ctx, 'name')
  md = lib.json_dumps(I, lib.topv(I, dict(name=name, purpose='SIGN_AND_VERIFY', type='HMAC_SHA1',
                                          encrypted=False, versions=vs)))
  texts = [(n, I.str_(k)) for n, k in zip(nums, ks)]
  g = I.call(I.get('keyczar.GenericKeyczar'), [Reader(I, md, lambda I, n: [
      t for x, t in texts if ctx.decide(x.t == tz(iterm(n)))][0])])
  enc = EncrypterN(I) if ctx.choose(2) else None
  call(I, g, 'Write', I.call(I.get('writers.CreateWriter'), [loc]), enc)
  r = I.call(I.get('readers.CreateReader'), [loc])
  if enc is not None:
    expect(ctx, I, outcome(I, lambda: I.call(I.get('keyczar.GenericKeyczar'), [r])), 'KeyczarError',
           'encrypted keys need their crypter')
    r = I.call(I.get('readers.EncryptedReader'), [r, enc])
  o = outcome(I, lambda: I.call(I.get('keyczar.GenericKeyczar'), [r]))
  if o[0] == 'raise':
    return ctx.fail('opened', clsname(o[1].exc.cls))
  h = o[1]
  m = I.getattr(h, 'metadata')
  ctx.prove_streq(I.getattr(m, 'name'), name, 'name')
  ctx.prove(I.getattr(m, 'type') is I.get('keyinfo.HMAC_SHA1'), 'type')
  ctx.prove(I.getattr(m, 'purpose') is I.get('keyinfo.SIGN_AND_VERIFY'), 'purpose')
  ctx.prove(I.getattr(m, 'encrypted') is (enc is not None), 'encrypted')
  versions = I.getattr(h, 'versions')
  ctx.prove(len(versions.items) == nv, 'number of versions')
  for n, s, b in zip(nums, sts, kb):
    v = call(I, m, 'GetVersion', n)
    ctx.prove(I.getattr(v, 'status') is I.get('keyinfo.' + s), 'status')
    k = call(I, h, 'GetKey', v)
    ctx.prove_streq(I.getattr(k, 'key_string'), b64(I, b), 'key')
    ctx.prove((I.getattr(h, 'primary_version') is v) == (s == 'PRIMARY'), 'primary')
