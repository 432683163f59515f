"""C13 PKCS8 and X.509 export and import.

DER and Base64 are exact uninterpreted functions with inverses (models in pyvc/lib), so
'equal text' below means the very same ASN.1 tree in the same order."""
from specs.kit import *
from specs import contracts
from specs.contracts import binstr
SPECS = Registry()
C = ['util.Base64WSEncode', 'util.Base64WSDecode', 'util.BytesToBin']
RSA = '1.2.840.113549.1.1.1'
DSA = '1.2.840.10040.4.1'
NULL = ('A', 'null', None)
RF = ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq']


def num(x):
  return ('A', 'int', x)


def seq(*a):
  return ('A', 'seq') + a


def oid(x):
  return ('A', 'oid', x)


def octets(I, tree):
  return ('A', 'oct', s2b(der(I, tree)))


def bits(I, tree):
  return ('A', 'bits', binstr(I, der(I, tree)))


def ints(ctx, names):
  # any integers: nothing in the format asks for positive ones
  return {n: symint(ctx, n) for n in names}


def pdict(ctx, d, order=None):
  return PDict([(k, d[k]) for k in (order or d)], ctx.newserial())


def text(I, tree):
  return b64(I, der(I, tree))


def rsa8(I, d, v=0, rv=0, alg=RSA):
  return seq(num(v), seq(oid(alg), NULL), octets(I, seq(num(rv), *[num(d[f]) for f in RF])))


def dsa8(I, d, v=0, alg=DSA):
  return seq(num(v), seq(oid(alg), seq(*[num(d[f]) for f in 'pqg'])), octets(I, num(d['x'])))


def rsax(I, d, alg=RSA):
  return seq(seq(oid(alg), NULL), bits(I, seq(num(d['n']), num(d['e']))))


def dsax(I, d, alg=DSA):
  return seq(seq(oid(alg), seq(*[num(d[f]) for f in 'pqg'])), bits(I, num(d['y'])))


CASES = [('ExportRsaPkcs8', 'ParsePkcs8', RF, rsa8), ('ExportDsaPkcs8', 'ParsePkcs8', 'pqgx', dsa8),
         ('ExportRsaX509', 'ParseX509', 'ne', rsax), ('ExportDsaX509', 'ParseX509', 'pqgy', dsax)]
FN = ['util.ExportRsaPkcs8', 'util.ExportDsaPkcs8', 'util.ExportRsaX509', 'util.ExportDsaX509',
      'util.ParsePkcs8', 'util.ParseX509', 'util.ASN1Sequence', 'util.ParseASN1Sequence']


def same_params(ctx, I, got, want, label):
  prove_tree(ctx, I, got, dict(want), label)


@SPECS.spec(FN)
def export_layout(ctx):
  """The exported text is the Base64 of the DER of exactly the prescribed structure."""
  exp, par, names, tree = CASES[ctx.choose(4)]
  I = interp(ctx, *C)
  d = ints(ctx, names)
  got = I.call(I.get('util.' + exp), [pdict(ctx, d)])
  ctx.prove_streq(got, text(I, tree(I, d)), exp + ': field order, identifiers and version')


@SPECS.spec(FN)
def parse_layout(ctx):
  """Every parameter of a text with the prescribed structure is read back, no other."""
  exp, par, names, tree = CASES[ctx.choose(4)]
  I = interp(ctx, *C)
  d = ints(ctx, names)
  got = I.call(I.get('util.' + par), [text(I, tree(I, d))])
  same_params(ctx, I, got, d, par + ' reads every parameter')


@SPECS.spec(FN)
def round_trip(ctx):
  exp, par, names, tree = CASES[ctx.choose(4)]
  I = interp(ctx, *C)
  d = ints(ctx, names)
  got = I.call(I.get('util.' + par), [I.call(I.get('util.' + exp), [pdict(ctx, d)])])
  same_params(ctx, I, got, d, '%s inverts %s' % (par, exp))


@SPECS.spec(FN)
def wrong_version(ctx):
  I = interp(ctx, *C)
  v = symint(ctx, 'v')
  ctx.assume(v.t != 0)
  c = ctx.choose(3)
  if c == 0:
    t = rsa8(I, ints(ctx, RF), v=v)
  elif c == 1:
    t = rsa8(I, ints(ctx, RF), rv=v)
  else:
    t = dsa8(I, ints(ctx, 'pqgx'), v=v)
  o = outcome(I, lambda: I.call(I.get('util.ParsePkcs8'), [text(I, t)]))
  expect(ctx, I, o, 'KeyczarError', 'unknown version is refused')


@SPECS.spec(FN)
def wrong_algorithm(ctx):
  """Any object identifier that is not the one of RSA or DSA."""
  I = interp(ctx, *C)
  exp, par, names, tree = CASES[ctx.choose(4)]
  alg = symstr(ctx, 'oid')
  ctx.assume_strne(alg, RSA)
  ctx.assume_strne(alg, DSA)
  t = tree(I, ints(ctx, names), alg=alg)
  o = outcome(I, lambda: I.call(I.get('util.' + par), [text(I, t)]))
  expect(ctx, I, o, 'KeyczarError', 'unknown algorithm identifier is refused')


@SPECS.spec(FN)
def far_too_many_fields(ctx):
  """Seven fields or more, of any kind (fewer: the next one)."""
  I = interp(ctx, *C)
  par = CASES[ctx.choose(4)][1]
  n = symint(ctx, 'fields')
  ctx.assume(n.t >= 7)
  o = outcome(I, lambda: I.call(I.get('util.' + par), [text(I, ('A', 'long', n))]))
  expect(ctx, I, o, 'KeyczarError', 'wrong number of fields is refused')


@SPECS.spec(FN)
def wrong_number_of_fields(ctx):
  """Up to six fields."""
  I = interp(ctx, *C)
  exp, par, names, tree = CASES[ctx.choose(4)]
  t = tree(I, ints(ctx, names))
  n = ctx.choose(7)
  ctx.assume(n != len(t) - 2)
  # the fields themselves are as in a good text, then anything
  f = list(t[2:])[:n]
  while len(f) < n:
    f.append([NULL, num(symint(ctx, 'x%d' % len(f)))][ctx.choose(2)])
  o = outcome(I, lambda: I.call(I.get('util.' + par), [text(I, seq(*f))]))
  expect(ctx, I, o, 'KeyczarError', 'wrong number of fields is refused')
