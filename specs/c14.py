"""C14 Streaming encryption.

Any sequence of writes is reduced to one write of the concatenation by induction: the
state and the output after write(A); write(B) are those after write(A+B), for all A, B,
and write('') changes nothing.  Then one write and flush give the one-shot format."""
from specs.kit import *
from specs.absset import *
from specs.c01 import HM, crypt_lib, cbc, pkcs5, aes_header, random_pieces
from specs.c10 import cuts
SPECS = Registry()
W = 'keys.EncryptingStreamWriter'
FN = [W + '.' + m for m in ('__init__', 'write', 'flush', 'close')] + [
    'keys.AesKey._NoPadBufferSize', 'keys.AesKey._Pad', 'keys.HmacKeyStream.Update',
    'keys.HmacKeyStream.Sign']


def begin(ctx):
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  k, kb, hb = aeskey(ctx, I)
  return I, k, kb, hb


def writer(ctx, I, k, iv):
  s = Sink(I)
  I.state['randqueue'] = [s2b(iv)]
  w = I.call(I.get(W), [k, s])
  ctx.prove(not I.state['randqueue'], 'one fresh IV from the random source')
  return w, s


def one_shot(ctx, I, kb, hb, iv, m):
  head = cat(ctx, aes_header(I, kb, hb), iv, cbc(I, kb, iv, pkcs5(ctx, m), 1))
  return cat(ctx, head, hmac_sha1(I, hb, head))


@SPECS.spec(FN, deadline=150)
def any_cutting(ctx):
  I, k, kb, hb = begin(ctx)
  iv = symstr(ctx, 'iv', 16)
  M = symstr(ctx, 'M')
  p, q = cuts(ctx, slen(M))
  A, B, C = (ctx.slice(M, 0, SInt(p)), ctx.slice(M, SInt(p), SInt(q)), ctx.slice(M, 0, SInt(q)))
  w3, s3 = writer(ctx, I, k, iv)
  w1, s1 = writer(ctx, I, k, iv)
  call(I, w3, 'write', C)
  call(I, w1, 'write', A)
  call(I, w1, 'write', B)
  ctx.prove_streq(s1.fields['data'], s3.fields['data'], 'pieces write what the whole writes')
  same_state(ctx, snapshot(ctx, I, w1), snapshot(ctx, I, w3),
             'state after pieces is the state after the whole')


@SPECS.spec(FN, deadline=150)
def pieces_then_flush(ctx):
  """Independent of the representation of the state: two pieces and flush."""
  I, k, kb, hb = begin(ctx)
  iv = symstr(ctx, 'iv', 16)
  M = symstr(ctx, 'M')
  p = ctx.fresh('p')
  ctx.assume(z3.And(p >= 0, p <= tz(slen(M))))
  w, s = writer(ctx, I, k, iv)
  want = one_shot(ctx, I, kb, hb, iv, M)
  call(I, w, 'write', ctx.slice(M, 0, SInt(p)))
  call(I, w, 'write', ctx.slice(M, SInt(p), None))
  call(I, w, 'flush')
  ctx.prove_streq(s.fields['data'], want, 'Header | IV | CBC(PKCS5(m)) | HMAC-SHA1 of everything before')


@SPECS.spec(FN)
def one_write_is_one_shot(ctx):
  I, k, kb, hb = begin(ctx)
  m = symstr(ctx, 'm')
  s = Sink(I)
  n0 = len(random_pieces(ctx))
  w = I.call(I.get(W), [k, s])
  iv = cat(ctx, '', *[b2s(I, e[2]) for e in random_pieces(ctx)[n0:]])
  ctx.prove(tz(slen(iv)) == 16, 'fresh 16-byte IV')
  call(I, w, 'write', m)
  call(I, w, 'flush')
  out = s.fields['data']
  ctx.prove_streq(out, one_shot(ctx, I, kb, hb, iv, m),
                  'Header | IV | CBC(PKCS5(m)) | HMAC-SHA1 of everything before')
  ctx.prove(s.flushes > 0, 'the output stream is flushed')
  ctx.prove(not s.fields['closed'], 'the output stream stays open')
  o = outcome(I, lambda: call(I, k, 'Decrypt', out))
  if o[0] == 'raise':
    return ctx.fail('one-shot decryption accepts it', clsname(o[1].exc.cls))
  ctx.prove_streq(o[1], m, 'one-shot decryption gives the message')


@SPECS.spec(FN)
def empty_writes(ctx):
  """No write at all is the empty message; write('') changes nothing."""
  I, k, kb, hb = begin(ctx)
  iv = symstr(ctx, 'iv', 16)
  w, s = writer(ctx, I, k, iv)
  before, out = snapshot(ctx, I, w), s.fields['data']
  if ctx.choose(2):
    call(I, w, 'write', '')
    ctx.prove_streq(s.fields['data'], out, "write('') writes nothing")
    same_state(ctx, snapshot(ctx, I, w), before, "write('') leaves the state")
  call(I, w, 'flush')
  ctx.prove_streq(s.fields['data'], one_shot(ctx, I, kb, hb, iv, ''), 'the empty message')


@SPECS.spec(FN)
def closed_stream(ctx):
  I, k, kb, hb = begin(ctx)
  w, s = writer(ctx, I, k, symstr(ctx, 'iv', 16))
  if ctx.choose(2):
    call(I, w, 'write', symstr(ctx, 'm'))
  if ctx.choose(2):
    call(I, w, 'flush')
  call(I, w, 'close')
  out = s.fields['data']
  for op, a in [('write', [symstr(ctx, 'x')]), ('flush', []), ('close', [])]:
    o = outcome(I, lambda: call(I, w, op, *a))
    expect(ctx, I, o, 'ValueError', op + ' on a closed stream is refused')
    ctx.prove_streq(s.fields['data'], out, op + ' writes nothing')


def b64_stream(ctx, I):
  """The contract of the Base64 stream writer that C10 proves (stream_writer_any_cutting):
  after flush, the stream has received the Base64 of everything written."""
  q = 'util.IncrementalBase64WSStreamWriter.'

  def encode(I, f, a, k):
    if len(a) < 2 or strkind(a[1]) != 'str':
      return NotImplemented
    a[0].ghost = ctx.concat(getattr(a[0], 'ghost', ''), a[1])
    return ('', mkint(slen(a[1])))

  def flush(I, f, a, k):
    st = I.getattr(a[0], 'stream')
    call(I, st, 'write', b64(I, getattr(a[0], 'ghost', '')))
    call(I, st, 'flush')
    a[0].ghost = ''
  I.contracts[q + 'encode'] = encode
  I.contracts[q + 'flush'] = flush


@SPECS.spec(['keyczar.Encrypter.CreateEncryptingStreamWriter'] + FN, deadline=120)
def created_by_key_set(ctx):
  """Uses the primary key of any key set, with and without the Base64 stream."""
  I = interp(ctx, *HM)
  crypt_lib(ctx, I)
  kk = {}

  def mk(I, hid):
    if hid is not None:
      raise Unsupported('key by identifier')
    k, kb, hb = aeskey(ctx, I, 'k%d' % len(kk))
    kk[id(k)] = (k, kb, hb)
    return k
  t = AbsSet(ctx, I, mk)
  cls, purp = (('Encrypter', 'ENCRYPT'), ('Encrypter', 'DECRYPT_AND_ENCRYPT'),
               ('Crypter', 'DECRYPT_AND_ENCRYPT'))[ctx.choose(3)]
  e = keyset(ctx, I, cls, t, purp, 'AES', 'maybe')
  b64_stream(ctx, I)
  s = Sink(I)
  iv = symstr(ctx, 'iv', 16)
  I.state['randqueue'] = [s2b(iv)]
  coded = ctx.choose(2)
  o = outcome(I, lambda: call(I, e, 'CreateEncryptingStreamWriter', s, *([] if coded else [None])))
  if t.pi is None:
    expect(ctx, I, o, 'NoPrimaryKeyError', 'no primary key')
    return ctx.prove_streq(s.fields['data'], '', 'nothing is written')
  if o[0] == 'raise':
    return ctx.fail('a stream is created', clsname(o[1].exc.cls))
  m = symstr(ctx, 'm')
  call(I, o[1], 'write', m)
  call(I, o[1], 'flush')
  k, kb, hb = kk[id(t.elems[0][2])]
  want = one_shot(ctx, I, kb, hb, iv, m)
  ctx.prove_streq(s.fields['data'], b64(I, want) if coded else want,
                  'the one-shot ciphertext under the primary key')
