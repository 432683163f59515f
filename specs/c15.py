"""C15 Streaming decryption.

Invariant of the stream between two calls of read, for a source with contents X of which
pos characters were delivered:
  S0  nothing was read yet
  S1  header and IV were read; the MAC stream has seen X[:c], the cipher X[21:c], 21 <= c,
      c-21 a multiple of 16, X[c:pos] is held back and at least 36 long unless c = 21;
      what was returned followed by the buffered plaintext is the decryption of X[21:c]
  S2  everything was read, the MAC was verified, what was returned followed by the buffer
      is the whole plaintext
Each spec starts in an arbitrary state of one kind, calls read(chars) once with an arbitrary
count on a source that delivers arbitrary pieces (or nothing yet), and proves the state after
it, the result, and when it may raise.  By induction that covers every sequence of reads."""
from specs.kit import *
from specs.absset import need, AbsSet, keyset
from specs.streams import Src, src_inv, RB
from specs.c01 import HM, crypt_lib, cbc, pkcs5, aes_header
SPECS = Registry()
R = 'keys.DecryptingStreamReader'
FN = [R + '.' + m for m in ('__init__', 'read', '_DecryptingStreamReader__ReadBytes',
                            '_DecryptingStreamReader__CreateKey',
                            '_DecryptingStreamReader__CreateCipher')] + [
    'keys.AesKey._NoPadBufferSize', 'keys.AesKey._UnPad', 'keys.HmacKeyStream.Update',
    'keys.HmacKeyStream.Sign', 'keys.HmacKey.VerifySignedData']
P = '_DecryptingStreamReader__'
C = HM + ('keys.HmacKey.VerifySignedData', RB)


class KeySet(Native):
  """The contract of _ParseHeader: the key named in the header, or refused."""
  tname = 'keyset'

  def __init__(self, I, key, hdr, refuse):
    Native.__init__(self, I)
    self.key, self.hdr, self.refuse = key, hdr, refuse
    self.refused = None

  def m__ParseHeader(self, I, h):
    ctx = I.ctx
    ctx.prove_streq(h, self.hdr, 'the key is looked up by the first 5 bytes')
    if self.refuse and ctx.choose(2):
      self.refused = I.exc(I.get('errors.KeyNotFoundError'), 'unknown')
      raise PyRaise(self.refused)
    return self.key


FIELDS = {'key_set', 'input_stream', 'buffer_size', 'key', 'cipher', 'encrypted_buffer',
          'decrypted_buffer', 'verified', 'closed'}


# the crypto library, the AES key size, whether the buffer size and the count are given
MODES = {'counted': (0, 16, True, True), 'whole': (1, 32, False, False)}


def begin(ctx, valid, mode):
  I = interp(ctx, *C)
  m = MODES[mode]
  crypt_lib(ctx, I, m[0])
  k, kb, hb = aeskey(ctx, I, sizes=(m[1],))
  o = Env0()
  o.bufsize, o.count = m[2:]
  o.I, o.k, o.kb, o.hb = I, k, kb, hb
  if valid:
    o.M = symstr(ctx, 'M')
    iv = symstr(ctx, 'iv', 16)
    o.pad = pkcs5(ctx, o.M)
    head = cat(ctx, aes_header(I, kb, hb), iv, cbc(I, kb, iv, o.pad, 1))
    o.X = cat(ctx, head, hmac_sha1(I, hb, head))
    o.hdr = aes_header(I, kb, hb)
  else:
    o.X = symstr(ctx, 'X')
    o.hdr = ctx.slice(o.X, 0, 5)
  o.n = tz(slen(o.X))
  return o


class Env0(object):
  pass


def reader(ctx, o, refuse=False, first=True):
  I = o.I
  o.src = Src(I, o.X)
  o.ks = KeySet(I, o.k, o.hdr, refuse)
  o.r = I.call(I.get(R), [o.ks, o.src] + ([symint(ctx, 'bufsize')] if o.bufsize and first else []))
  I.loopspec = src_inv(ctx, o.src)
  o.returned = 0
  return o.r


def get(o, name):
  return o.r.fields[P + name]


def s1(ctx, o, fresh):
  """Puts the reader in an arbitrary state of kind S1."""
  I, r = o.I, o.r
  need({x[len(P):] for x in r.fields} == FIELDS, 'DecryptingStreamReader')
  c, pos, ret = ctx.fresh('c'), ctx.fresh('pos'), ctx.fresh('ret')
  n = o.n
  ctx.assume(z3.And(21 <= c, (c - 21) % 16 == 0, c <= pos, pos <= n,
                    z3.Or(c == 21, pos - c >= 36), ret >= 0, ret <= c - 21))
  key = o.k
  sl = lambda a, b: ctx.slice(o.X, mkint(a), mkint(b))
  h = call(I, I.getattr(key, 'hmac_key'), 'CreateStreamable')
  call(I, h, 'Update', sl(0, c))
  ci = call(I, key, '_CreateCipher', I.getattr(key, 'key_bytes'), sl(5, 21))
  o.plain = None
  if fresh:
    ctx.assume(c == 21)
  else:
    ctx.assume(c > 21)
    o.plain = call(I, ci, 'decrypt', sl(21, c))
  dec = ctx.slice(o.plain if o.plain is not None else '', mkint(ret), None)
  for f, v in dict(key=key, cipher=ci, encrypted_buffer=sl(c, pos), decrypted_buffer=dec).items():
    I.setfield(r, P + f, v)
  I.setfield(r, P + 'hmac_stream', h)
  I.setfield(o.src, 'pos', mkint(pos))
  o.returned, o.c, o.pos = ret, c, pos


def macdata(I, h):
  return I.getattr(I.getattr(h, 'hmac'), 'data') if False else h.fields['hmac'].fields['data']


def whole_plain(ctx, o):
  """The plaintext stream of the body as far as it was decrypted (spec level)."""
  I = o.I
  if hasattr(o, 'M'):
    return o.pad
  for x in I.state.get('ciphers', []):
    if x.op == 0:
      return mkstr('str', [BS(x.o, 0, x.o.length)])
  return ''


def after(ctx, o, res, valid):
  """The state after a normal return with result res."""
  I, X, n = o.I, o.X, o.n
  if res is not None and strkind(res) != 'str':
    return ctx.fail('a string or None', repr(res))
  ret2 = simp(tz(o.returned) + tz(slen(res) if res is not None else 0))
  verified = get(o, 'verified')
  if isinstance(verified, SBool):
    verified = ctx.decide(verified.t)
  key = get(o, 'key')
  ctx.prove(key is o.k, 'the key of the header is used')
  pos = tz(iterm(o.src.fields['pos']))
  D, B = get(o, 'decrypted_buffer'), get(o, 'encrypted_buffer')
  P_ = whole_plain(ctx, o)
  if not verified:
    ctx.prove(res is None or z3.Not(tz(slen(res)) == 0), 'the end is not reported before the MAC was checked')
    c2 = simp(pos - tz(slen(B)))
    ctx.prove(z3.And(c2 >= 21, (c2 - 21) % 16 == 0), 'whole blocks consumed')
    ctx.prove(z3.Or(c2 == 21, pos - c2 >= 36), 'last block and MAC held back')
    ctx.prove_streq(B, ctx.slice(X, mkint(c2), mkint(pos)), 'held back: the rest of what was delivered')
    ctx.prove_streq(b2s(I, macdata(I, get(o, 'hmac_stream'))), ctx.slice(X, 0, mkint(c2)), 'MAC stream has seen all consumed')
    if res is not None:
      ctx.prove_streq(res, ctx.slice(P_, mkint(o.returned), mkint(ret2)), 'the next piece of the plaintext is returned')
    ctx.prove(ret2 + tz(slen(D)) == c2 - 21, 'buffer holds the rest')
    ctx.prove_streq(D, ctx.slice(P_, mkint(ret2), mkint(c2 - 21)), 'buffer continues the plaintext')
  else:
    ctx.prove(pos == n, 'everything was read')
    ctx.prove(n >= 41, 'room for header, IV and MAC')
    if valid:
      out = res if res is not None else ''
      ctx.prove_streq(cat(ctx, out, D), ctx.slice(o.M, mkint(o.returned), None), 'exactly the rest of the message')
    else:
      ctx.prove_streq(hmac_sha1(I, o.hb, ctx.slice(X, 0, mkint(n - 20))), ctx.slice(X, mkint(n - 20), None),
                      'the MAC of everything before it is right')
    ctx.prove_streq(B, '', 'nothing held back')
  if res is None:
    return
  chars = o.chars
  if chars is not None:
    ctx.prove(z3.Or(tz(iterm(chars)) < 0, tz(slen(res)) <= tz(iterm(chars))), 'no more than asked for')


def do_read(ctx, o):
  o.chars = symint(ctx, 'chars') if o.count else None
  return outcome(o.I, lambda: call(o.I, o.r, 'read', *([o.chars] if o.count else [])))


def step(ctx, valid, state, mode):
  o = begin(ctx, valid, mode)
  reader(ctx, o, refuse=not valid and state is None, first=state is None)
  if state:
    state(ctx, o)
  res = do_read(ctx, o)
  if res[0] == 'raise':
    if valid:
      return ctx.fail('reading a valid ciphertext never raises', clsname(res[1].exc.cls))
    if o.ks.refused is not None:
      ctx.prove(res[1].exc is o.ks.refused, 'refusal of the key set is passed on')
    return ctx.ok('an error is raised')
  if o.ks.refused is not None:
    return ctx.fail('unknown key is refused', 'no error')
  after(ctx, o, res[1], valid)


def steps():
  for mode in sorted(MODES):
    for kind, valid in (('valid', True), ('any_input', False)):
      for name, state in (('next', lambda ctx, o: s1(ctx, o, False)), ('first', None),
                          ('next_at_start', lambda ctx, o: s1(ctx, o, True))):
        def spec(ctx, valid=valid, state=state, mode=mode):
          step(ctx, valid, state, mode)
        spec.__name__ = '%s_read_%s_%s' % (name, kind, mode)
        SPECS.spec(FN, deadline=400)(spec)


steps()


def verified_state(ctx, o):
  """Puts the reader in an arbitrary state of kind S2."""
  I, r = o.I, o.r
  need({x[len(P):] for x in r.fields} == FIELDS, 'DecryptingStreamReader')
  key = o.k
  h = call(I, I.getattr(key, 'hmac_key'), 'CreateStreamable')
  call(I, h, 'Update', ctx.slice(o.X, 0, mkint(o.n - 20)))
  ci = call(I, key, '_CreateCipher', I.getattr(key, 'key_bytes'), ctx.slice(o.X, 5, 21))
  call(I, ci, 'decrypt', ctx.slice(o.X, 21, mkint(o.n - 20)))
  o.D = symstr(ctx, 'rest')
  for f, v in dict(key=key, cipher=ci, encrypted_buffer='', decrypted_buffer=o.D, verified=True).items():
    I.setfield(r, P + f, v)
  I.setfield(r, P + 'hmac_stream', h)
  I.setfield(o.src, 'pos', mkint(o.n))


@SPECS.spec(FN, deadline=120)
def reads_after_the_end(ctx):
  """The rest of the plaintext is handed out as asked for; then '' for ever."""
  o = begin(ctx, True, sorted(MODES)[ctx.choose(2)])
  reader(ctx, o, first=False)
  verified_state(ctx, o)
  res = do_read(ctx, o)
  if res[0] == 'raise':
    return ctx.fail('no error after the MAC was checked', clsname(res[1].exc.cls))
  n = tz(slen(o.D))
  if o.chars is None:
    k = n
  else:
    c = tz(iterm(o.chars))
    k = n if ctx.decide(z3.Or(c < 0, c >= n)) else c
  if strkind(res[1]) != 'str':
    return ctx.fail('data or the end', repr(res[1]))
  ctx.prove_streq(res[1], ctx.slice(o.D, 0, mkint(k)), 'the next characters, as many as asked for')
  ctx.prove_streq(get(o, 'decrypted_buffer'), ctx.slice(o.D, mkint(k), None), 'the rest is kept')
  ctx.prove(get(o, 'verified') is True, 'stays verified')
  ctx.prove_streq(get(o, 'encrypted_buffer'), '', 'nothing is held back')


@SPECS.spec([R + '.close', R + '.read'])
def closed_stream(ctx):
  I = interp(ctx)
  src = Src(I, symstr(ctx, 'X'))
  r = I.call(I.get(R), [None, src])
  call(I, r, 'close')
  expect(ctx, I, outcome(I, lambda: call(I, r, 'read', *([symint(ctx, 'chars')] if ctx.choose(2) else []))),
         'ValueError', 'a closed stream is refused')
  ctx.prove(tz(iterm(src.fields['pos'])) == 0, 'nothing was read')


@SPECS.spec(['keyczar.Crypter.CreateDecryptingStreamReader', R + '.__init__'])
def created_by_key_set(ctx):
  """The reader looks keys up in this key set and reads the given stream, through the
  Base64 stream reader unless told not to."""
  I = interp(ctx)
  t = AbsSet(ctx, I)
  c = keyset(ctx, I, 'Crypter', t, 'DECRYPT_AND_ENCRYPT', 'AES', 'maybe')
  src = Src(I, symstr(ctx, 'X'))
  how = ctx.choose(3)
  a = [[], [None], [None, symint(ctx, 'bufsize')]][how]
  r = call(I, c, 'CreateDecryptingStreamReader', src, *a)
  ctx.prove(clsname(r.cls) == 'DecryptingStreamReader', 'a decrypting stream')
  need(FIELDS <= {x[len(P):] for x in r.fields}, 'DecryptingStreamReader')
  ctx.prove(r.fields[P + 'key_set'] is c, 'keys come from this key set')
  s = r.fields[P + 'input_stream']
  if how == 0:
    ctx.prove(isinstance(s, Obj) and s.cls is I.get('util.IncrementalBase64WSStreamReader') and
              I.getattr(s, 'stream') is src, 'Base64 is decoded')
  else:
    ctx.prove(s is src, 'raw bytes')


@SPECS.spec(['keyczar.Keyczar._ParseHeader', 'keyczar.Keyczar.GetKey'])
def header_lookup(ctx):
  """The contract of _ParseHeader that the reads above rely on."""
  I = interp(ctx, 'util.Base64WSEncode', 'util.Base64WSDecode')
  t = AbsSet(ctx, I)
  c = keyset(ctx, I, 'Crypter', t, 'DECRYPT_AND_ENCRYPT', 'AES', 'maybe')
  h = symstr(ctx, 'h', 5)
  o = outcome(I, lambda: call(I, c, '_ParseHeader', h))
  if ctx.decide(tz(ctx.at(h, 0)) != 0):
    return expect(ctx, I, o, 'KeyczarError', 'wrong version')
  e = t.by_id(b64(I, ctx.slice(h, 1, 5)))
  if e is None:
    return expect(ctx, I, o, 'KeyczarError', 'unknown key')
  if o[0] == 'raise':
    return ctx.fail('the key', clsname(o[1].exc.cls))
  ctx.prove(o[1] is t.key(e), 'the key with that identifier')
