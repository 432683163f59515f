"""C10 Web-safe Base64 codec, whole and incremental."""
from specs.kit import *
SPECS = Registry()
ENC, DEC = 'util.BufferedIncrementalBase64WSEncoder', 'util.BufferedIncrementalBase64WSDecoder'


@SPECS.spec(['util.Base64WSEncode'])
def encode_is_unpadded_websafe(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  r = I.call(I.get('util.Base64WSEncode'), [x])
  ctx.prove_streq(r, b64(I, x), 'unpadded web-safe Base64')
  n = tz(slen(x))
  ctx.prove(tz(slen(r)) == (4 * n + 2) / 3, 'length')
  i = ctx.fresh('i')
  ctx.add(z3.And(i >= 0, i < tz(slen(r))))
  if ctx.feasible():
    ctx.prove(tz(ctx.at(r, i)) != 61, 'no padding character')


@SPECS.spec(['util.Base64WSEncode', 'util.Base64WSDecode'])
def round_trip(ctx):
  I = interp(ctx)
  x = symstr(ctx, 'x')
  r = I.call(I.get('util.Base64WSEncode'), [x])
  ctx.prove_streq(I.call(I.get('util.Base64WSDecode'), [r]), x, 'Decode(Encode(x)) == x')


@SPECS.spec(['util.Encode', 'util.Decode'])
def older_names(ctx):
  I = interp(ctx)
  s = symstr(ctx, 's')
  ctx.prove_streq(I.call(I.get('util.Encode'), [s]), b64(I, s), 'Encode')
  ctx.prove_streq(I.call(I.get('util.Decode'), [b64(I, s)]), s, 'Decode')


@SPECS.spec(['util.Base64WSDecode'])
def white_space_is_ignored(ctx):
  """Decode(u + w + v) == Decode(u + v) for every u, v and every white-space character w
  (by induction: any white space anywhere)."""
  I = interp(ctx)
  u, v = symstr(ctx, 'u', maxcode=127), symstr(ctx, 'v', maxcode=127)
  w = (' ', '\n', '\r', '\r\n', '   ')[ctx.choose(5)]
  f = I.get('util.Base64WSDecode')
  a = outcome(I, lambda: I.call(f, [cat(ctx, u, v)]))
  b = outcome(I, lambda: I.call(f, [cat(ctx, u, w, v)]))
  if a[0] != b[0]:
    ctx.fail('same outcome with and without white space', '%s vs %s' % (a[0], b[0]))
  elif a[0] == 'value':
    ctx.prove_streq(a[1], b[1], 'same bytes with and without white space')
  else:
    expect(ctx, I, a, 'Base64DecodingError', 'refusal')
    expect(ctx, I, b, 'Base64DecodingError', 'refusal with white space')


@SPECS.spec(['util.Base64WSDecode'])
def length_one_mod_four_is_refused(ctx):
  I = interp(ctx)
  t = symstr(ctx, 't', maxcode=127, excl=frozenset([10, 11, 12, 13, 28, 29, 30, 32]))
  ctx.assume(tz(slen(t)) % 4 == 1)
  o = outcome(I, lambda: I.call(I.get('util.Base64WSDecode'), [t]))
  expect(ctx, I, o, 'Base64DecodingError', 'length 1 modulo 4')


@SPECS.spec(['util.Base64WSDecode'])
def only_base64_errors(ctx):
  """Every ASCII text decodes or raises Base64DecodingError."""
  I = interp(ctx)
  t = symstr(ctx, 't', maxcode=127)
  o = outcome(I, lambda: I.call(I.get('util.Base64WSDecode'), [t]))
  if o[0] == 'raise':
    expect(ctx, I, o, 'Base64DecodingError', 'refusal')
  else:
    ctx.prove(strkind(o[1]) == 'str', 'a byte string')


def cuts(ctx, n):
  """Three cut points 0 <= p <= q <= n."""
  p, q = ctx.fresh('p'), ctx.fresh('q')
  ctx.assume(z3.And(p >= 0, p <= q, q <= tz(n)))
  ctx.inputs['p'], ctx.inputs['q'] = SInt(p), SInt(q)
  return p, q


def canon(ctx, I, cls, meth, data):
  o = I.call(I.get(cls), [])
  out = call(I, o, meth, data)
  return o, out


@SPECS.spec([ENC + '.encode', ENC + '._buffer_encode', ENC + '.flush'], deadline=90)
def encoder_any_cutting(ctx):
  """Canonical-state induction: the encoder fed M[:p] and then M[p:q] is in the state
  (and has produced the output) of one fed M[:q] at once; flushing gives b64(M)."""
  I = interp(ctx)
  M = symstr(ctx, 'M')
  p, q = cuts(ctx, slen(M))
  A, B = ctx.slice(M, 0, SInt(p)), ctx.slice(M, SInt(p), SInt(q))
  C = ctx.slice(M, 0, SInt(q))
  fresh = snapshot(ctx, I, I.call(I.get(ENC), []))
  e0, r0 = canon(ctx, I, ENC, 'encode', '')
  ctx.prove_streq(r0[0], '', 'nothing for nothing')
  e1, r1 = canon(ctx, I, ENC, 'encode', A)
  r2 = call(I, e1, 'encode', B)
  e3, r3 = canon(ctx, I, ENC, 'encode', C)
  ctx.prove_streq(cat(ctx, r1[0], r2[0]), r3[0], 'pieces give the output of the whole')
  s1, s3 = snapshot(ctx, I, e1), snapshot(ctx, I, e3)
  f1, f3 = call(I, e1, 'flush'), call(I, e3, 'flush')
  ctx.prove_streq(cat(ctx, r3[0], f3), b64(I, C), 'flush completes the encoding')
  ctx.prove_streq(f1, f3, 'flush after pieces')
  ctx.prove_streq(call(I, e1, 'flush'), '', 'nothing is left after a flush')
  same_state(ctx, fresh, snapshot(ctx, I, I.call(I.get(ENC), [])), 'constructor is deterministic')
  same_state(ctx, s1, s3, 'state after pieces is the state after the whole')


@SPECS.spec([ENC + '.encode'])
def encoder_final_piece(ctx):
  I = interp(ctx)
  M = symstr(ctx, 'M')
  p = ctx.fresh('p')
  ctx.assume(z3.And(p >= 0, p <= tz(slen(M))))
  e, r = canon(ctx, I, ENC, 'encode', ctx.slice(M, 0, SInt(p)))
  r2 = call(I, e, 'encode', ctx.slice(M, SInt(p), None), True)
  ctx.prove_streq(cat(ctx, r[0], r2[0]), b64(I, M), 'final=True completes the encoding')


@SPECS.spec([DEC + '.decode', DEC + '._buffer_decode', DEC + '.flush'], deadline=90)
def decoder_any_cutting(ctx):
  I = interp(ctx)
  M = symstr(ctx, 'M')
  T = b64(I, M)
  p, q = cuts(ctx, slen(T))
  A, B = ctx.slice(T, 0, SInt(p)), ctx.slice(T, SInt(p), SInt(q))
  d1, r1 = canon(ctx, I, DEC, 'decode', A)
  r2 = call(I, d1, 'decode', B)
  d3, r3 = canon(ctx, I, DEC, 'decode', ctx.slice(T, 0, SInt(q)))
  ctx.prove_streq(cat(ctx, r1[0], r2[0]), r3[0], 'pieces give the output of the whole')
  same_state(ctx, snapshot(ctx, I, d1), snapshot(ctx, I, d3),
             'state after pieces is the state after the whole')


@SPECS.spec([DEC + '.decode', DEC + '.flush'])
def decoder_complete(ctx):
  I = interp(ctx)
  M = symstr(ctx, 'M')
  T = b64(I, M)
  d, r = canon(ctx, I, DEC, 'decode', T)
  f = call(I, d, 'flush')
  ctx.prove_streq(cat(ctx, r[0], f), M, 'decode and flush give the message')
  ctx.prove_streq(call(I, d, 'flush'), '', 'nothing is left after a flush')


@SPECS.spec([DEC + '.reset', DEC + '.__init__', ENC + '.encode'])
def used_again_after_reset(ctx):
  """Whatever was fed before, after reset the decoder and the encoder start anew."""
  I = interp(ctx)
  M, before = symstr(ctx, 'M'), symstr(ctx, 'before')
  p = ctx.fresh('p')
  T = b64(I, before)
  ctx.assume(z3.And(p >= 0, p <= tz(slen(T))))
  if ctx.choose(2):
    d, _ = canon(ctx, I, DEC, 'decode', ctx.slice(T, 0, SInt(p)))
    call(I, d, 'reset')
    r = call(I, d, 'decode', b64(I, M))
    ctx.prove_streq(cat(ctx, r[0], call(I, d, 'flush')), M, 'decoder after reset')
  else:
    e, _ = canon(ctx, I, ENC, 'encode', before)
    call(I, e, 'reset')
    r = call(I, e, 'encode', M)
    ctx.prove_streq(cat(ctx, r[0], call(I, e, 'flush')), b64(I, M), 'encoder after reset')


@SPECS.spec([DEC + '.decode'])
def decoder_white_space(ctx):
  """White space in a piece changes neither output nor state."""
  I = interp(ctx)
  M = symstr(ctx, 'M')
  T = b64(I, M)
  p, q = cuts(ctx, slen(T))
  A, B = ctx.slice(T, 0, SInt(p)), ctx.slice(T, SInt(p), SInt(q))
  w = (' ', '\n', '\r', '\r\n')[ctx.choose(4)]
  d1, r1 = canon(ctx, I, DEC, 'decode', cat(ctx, A, w, B))
  d2, r2 = canon(ctx, I, DEC, 'decode', ctx.slice(T, 0, SInt(q)))
  ctx.prove_streq(r1[0], r2[0], 'same output')
  same_state(ctx, snapshot(ctx, I, d1), snapshot(ctx, I, d2), 'same state')


SW = 'util.IncrementalBase64WSStreamWriter'


@SPECS.spec([SW + '.__init__', SW + '.encode', SW + '.flush', SW + '.close'], deadline=90)
def stream_writer_any_cutting(ctx):
  I = interp(ctx)
  M = symstr(ctx, 'M')
  p, q = cuts(ctx, slen(M))
  A, B, C = (ctx.slice(M, 0, SInt(p)), ctx.slice(M, SInt(p), SInt(q)), ctx.slice(M, 0, SInt(q)))
  k1, k3 = Sink(I), Sink(I)
  w1, w3 = I.call(I.get(SW), [k1]), I.call(I.get(SW), [k3])
  call(I, w1, 'write', A)
  call(I, w1, 'write', B)
  call(I, w3, 'write', C)
  ctx.prove_streq(k1.fields['data'], k3.fields['data'], 'pieces write what the whole writes')
  s1, s3 = snapshot(ctx, I, w1), snapshot(ctx, I, w3)
  if ctx.choose(2):
    before = slen(k1.fields['data'])
    call(I, w1, 'flush')
    ctx.prove_streq(k1.fields['data'], b64(I, C), 'flush completes the encoding')
    if not k1.flushes:
      ctx.prove(tz(slen(k1.fields['data'])) == tz(before), 'what a flush hands on is flushed')
    ctx.prove(not k1.fields['closed'], 'flush does not close')
    call(I, w1, ('flush', 'close')[ctx.choose(2)])
    ctx.prove_streq(k1.fields['data'], b64(I, C), 'nothing is left after a flush')
  else:
    call(I, w1, 'close')
    ctx.prove_streq(k1.fields['data'], b64(I, C), 'close completes the encoding')
    ctx.prove(bool(k1.fields['closed']), 'close closes the underlying stream')
  same_state(ctx, s1, s3, 'state after pieces is the state after the whole')


SR = 'util.IncrementalBase64WSStreamReader'
ASK = dict(all=(), size=('size',), size_and_chars=('size', 'chars'), chars=(None, 'chars'))


def reader_step(ctx, ask, end):
  """Canonical-state induction over reads of a source that delivers arbitrary pieces: from
  every state reached by taking in T[:p] and giving out M[:ret], any read gives the next
  piece of M and leaves such a state; '' is the end (or was asked for)."""
  from specs.streams import Src
  from specs.absset import need
  I = interp(ctx)
  M = symstr(ctx, 'M')
  T = b64(I, M)
  n, m = tz(slen(T)), tz(slen(M))
  src = Src(I, T)
  r = I.call(I.get(SR), [src])
  need({'bytebuffer', 'charbuffer', 'decoder', 'linebuffer'} <= set(r.fields), SR)
  d = r.fields['decoder']
  need('buffer' in d.fields, DEC)
  p, ret = ctx.fresh('p'), ctx.fresh('ret')
  ctx.inputs['p'], ctx.inputs['ret'] = SInt(p), SInt(ret)
  out = lambda x: 3 * (x / 4)
  if end:      # everything was given out
    ctx.assume(z3.And(p == n, ret == m))
    I.setfield(src, 'pos', mkint(p))
  else:
    ctx.assume(z3.And(p >= 0, p <= n, ret >= 0, ret <= out(p), out(p) <= m))
    got = call(I, d, 'decode', ctx.slice(T, 0, SInt(p)))[0]
    ctx.prove_streq(got, ctx.slice(M, 0, mkint(simp(out(p)))), 'whole groups are decoded')
    I.setfield(r, 'charbuffer', ctx.slice(M, SInt(ret), mkint(simp(out(p)))))
    I.setfield(src, 'pos', mkint(p))
  vals = [-1 if a is None else symint(ctx, a) for a in ask]
  zero = z3.Or(*[tz(iterm(v)) == 0 for v in vals]) if vals else False

  mine = lambda l, o, f: l[0] != 'h' or l == ('h', o.serial, f)

  def chars(env, l):
    if strkind(env.v0) != 'str' or not mine(l, r, 'charbuffer'):
      return None
    pos = tz(iterm(src.fields['pos']))
    ctx.assume(z3.And(out(pos) <= m, pos <= n))
    return ctx.slice(M, SInt(ret), mkint(simp(out(pos))))

  def held(env, l):
    if strkind(env.v0) != 'str' or not mine(l, d, 'buffer'):
      return None
    pos = tz(iterm(src.fields['pos']))
    return ctx.slice(T, mkint(simp(4 * (pos / 4))), mkint(pos))
  I.loopspec = loopinv(defs=[('decoded so far', 'str', chars), ('incomplete group', 'str', held),
                             ('empty', 'str', lambda env, l: '')],
                       preds=[('within', 'int', lambda env, v: z3.And(tz(iterm(v)) <= n, tz(iterm(v)) >= p)
                               if env.loc == ('h', src.serial, 'pos') else None)], rotate=True)
  o = outcome(I, lambda: call(I, r, 'read', *vals))
  if o[0] == 'raise':
    return ctx.fail('reading a valid text never raises', clsname(o[1].exc.cls))
  res = o[1]
  if res is not None and strkind(res) != 'str':
    return ctx.fail('a string or None', repr(res))
  pos = tz(iterm(src.fields['pos']))
  ctx.assume(z3.And(out(pos) <= m, pos <= n))
  piece = res if res is not None else ''
  ret2 = simp(ret + tz(slen(piece)))
  ctx.prove_streq(piece, ctx.slice(M, SInt(ret), mkint(ret2)), 'the next piece of the message')
  cb, buf = r.fields['charbuffer'], d.fields['buffer']
  if res is not None and not end and ctx.decide(tz(slen(res)) == 0):
    ctx.prove(z3.Or(zero, ret2 == m), 'the empty string only at the end or when nothing is asked for')
  ctx.prove_streq(r.fields['bytebuffer'], '', 'nothing undecoded')
  if end or ctx.entails(ret2 == m) or not ctx.entails(ret2 <= out(pos)):
    ctx.prove(ret2 == m, 'everything given out')
    ctx.prove(pos == n, 'everything taken in')
    ctx.prove_streq(cb, '', 'nothing buffered')
    return
  ctx.prove_streq(cb, ctx.slice(M, mkint(ret2), mkint(simp(out(pos)))), 'buffered: decoded but not given out')
  ctx.prove_streq(buf, ctx.slice(T, mkint(simp(4 * (pos / 4))), mkint(pos)), 'incomplete group held')


def _reader_specs():
  for name, ask in ASK.items():
    for end in (False, True):
      def spec(ctx, ask=ask, end=end):
        reader_step(ctx, ask, end)
      spec.__name__ = 'stream_reader_%s_%s' % ('at_end' if end else 'any_pieces', name)
      SPECS.spec([SR + '.__init__', SR + '.read', SR + '.decode', DEC + '.decode', DEC + '.flush'],
                 deadline=200)(spec)


_reader_specs()
