"""C21 the interop driver covers the whole test matrix.

Configurations are arbitrary: collections of unknown size (pyvc/many.py) of implementations,
operations, algorithms, sizes, options and ignore rules.  Each loop is checked for an arbitrary
element; what the driver yields or registers is compared, element by element, with what the
configuration asks for."""
from specs.kit import *
from specs.absset import need
from pyvc.many import *
SPECS = Registry()
FILES = dict(algorithms='config/interopAlgorithms.json', ignored='config/ignoredTests.json',
             operations='config/operations.json', implementations='config/implementations.json',
             options='config/keySetOptions.json')


class Token(Native):
  """Something the driver only passes on."""
  tname = 'opaque'


class Logger(Native):
  tname = 'logger'

  def m_Collect(self, I, a, b):
    self.n = getattr(self, 'n', 0) + 1

  def m_Output(self, I, s):
    pass
  m_Debug = m_Output

  def m_OutputCollection(self, I):
    pass


class World(object):
  def __init__(self, ctx, I, keytype=None):
    self.ctx, self.I = ctx, I
    self.algs = Mapping(I, 'algorithm', self.alg)
    self.ops = Mapping(I, 'operation', self.op)
    self.impls = Mapping(I, 'implementation', lambda I, k: PList([Token(I)], ctx.newserial()))
    self.rules = Many('rule', self.rule)
    self.kso = Mapping(I, 'ksoptions')
    self.keytype = keytype
    self.cfg = {FILES['algorithms']: self.algs, FILES['ignored']: self.rules,
                FILES['operations']: self.ops, FILES['implementations']: self.impls,
                FILES['options']: self.kso}
    I.contracts['interop.ReadFile'] = lambda I, f, a, k: a[0]
    js = I.module('interop').ns['json']
    m = ModV('json')
    m.ns.update(js.ns)
    m.ns['loads'] = NativeFn('loads', lambda I, a, k: self.loads(a[0]))
    m.ns['dumps'] = NativeFn('dumps', lambda I, a, k: self.dumps(a[0]))
    I.module('interop').ns['json'] = m
    self.texts = []
    self.optcalls = []
    self.asked = []

  def loads(self, x):
    if isinstance(x, str) and x in self.cfg:
      return self.cfg[x]
    for t, v in self.texts:
      if key(t) == key(x):
        return v
    raise Unsupported('json.loads of an unknown text')

  def dumps(self, v):
    t = self.ctx.freshstr('json')
    self.texts.append((t, v))
    return t

  def alg(self, I, k):
    ctx = self.ctx
    p = ['crypt', 'sign', None][ctx.choose(3)]
    if p is None:
      p = ctx.freshstr('purpose')
      ctx.assume(z3.And(tz(slen(p)) != 4, tz(slen(p)) != 5))
    return PDict([('purpose', p), ('asymmetric', bool(ctx.choose(2))),
                  ('keySizes', Many('size', lambda I: symint(ctx, 'size', lo=0))),
                  ('createFlags', PList([Token(I)], ctx.newserial())),
                  ('addKeyFlags', PList([Token(I)], ctx.newserial()))], ctx.newserial())

  def op(self, I, k):
    return PDict([('keytype', self.keytype or ['crypt', 'sign'][self.ctx.choose(2)])],
                 self.ctx.newserial())

  def rule(self, I):
    ctx = self.ctx
    def some(n):
      m = Many(n, lambda I: ctx.freshstr(n))
      m.texts = True
      return m
    return PDict([('implementation', some('impls')), ('operation', some('ops')),
                  ('algorithm', some('algs')), ('reason', ctx.freshstr('reason')),
                  ('options', Mapping(I, 'ropts', lambda I, k: some('rvals')))], ctx.newserial())

  def runner(self, macros=False):
    I = self.I
    c = I.contracts
    q = 'interop.Keyset.GetGenerateKeysets'
    old = c.get(q)
    if not macros:
      c[q] = lambda I, f, a, k: PList([], I.ctx.newserial())
    r = I.call(I.get('interop.InteropTestRunner'), [Logger(I)])
    if not macros:
      del c[q]
      if old:
        c[q] = old
    return r

  def options_contract(self):
    def f(I, fn, a, k):
      need(len(a) == 4 and not k, '_Options')
      m = Many('options', lambda I: Mapping(I, 'option'))
      self.optcalls.append((a[1], a[2], a[3], m))
      return m
    self.I.contracts['interop.InteropTestRunner._Options'] = f

  def exception_contract(self):
    """Whether a configuration is ignored: unknown, the same for the same configuration."""
    def f(I, fn, a, k):
      need(len(a) == 5 and not k, '_IsException')
      return self.ignored(*a[1:])
    self.I.contracts['interop.InteropTestRunner._IsException'] = f

  def ignored(self, impl, op, alg, opts):
    ps = tuple(id(p) for p in getattr(opts, 'parts', [opts]))
    for a in self.asked:
      if a[0] == (key(impl), key(op), ps) and self.I.truth(self.I.eq(a[1], alg)):
        return a[2]
    r = bool(self.ctx.choose(2))
    self.asked.append(((key(impl), key(op), ps), alg, r, opts))
    return r


def value(d, k):
  return [v for q, v in d.entries if q == k][0]


def is_keyset(I, ks, alg, size, purpose):
  g = lambda n: I.getattr(ks, n)
  return (I.truth(I.eq(g('algorithm'), alg)) and I.truth(I.eq(g('size'), size)) and
          I.truth(I.eq(g('purpose'), purpose)) and
          I.truth(I.eq(g('name'), text(I, alg, size))))


def name_of(I, alg, size):
  return I.ctx.concat(alg, I.str_(size))


def text(I, alg, size):
  return name_of(I, alg, size)


def nonempty(ctx, coll):
  if coll.empty is None:
    coll.empty = bool(ctx.choose(2))
  return not coll.empty


def same_leaves(ctx, I, got, want, eq, label):
  """got: flattened; want: [(colls, value description)]; each exactly once, under exactly its
  collections."""
  got = list(got)
  for colls, w in want:
    for j, (under, v) in enumerate(got):
      if ([c for c, _ in under] and sorted(id(c) for c, _ in under) == sorted(id(c) for c in colls)
          and eq(dict((id(c), e) for c, e in under), v, w)):
        del got[j]
        break
    else:
      ctx.fail(label, 'missing: %s' % (w,))
      return
  if got:
    ctx.fail(label, 'beyond what the configuration asks for: %r' % (got[0][1],))
  else:
    ctx.ok(label)


def kinds(purpose, asym):
  if purpose == 'crypt':
    return ['crypt', 'encrypt'] if asym else ['crypt']
  return ['sign']


@SPECS.spec(['interop.InteropTestRunner.__init__', 'interop.Keyset.GetGenerateKeysets'])
def generate_keysets(ctx):
  """Every algorithm of the purpose with every size, and the public variant for asymmetric
  crypting; the macro names every signing key set."""
  I = interp(ctx)
  w = World(ctx, I)
  purpose = ['crypt', 'sign'][ctx.choose(2)]
  macro = bool(ctx.choose(2))
  r = w.runner(macro)
  if macro:
    ks = I.getitem(I.getattr(r, 'macros'), 'ALL_SIGNING_KEYS')
    purpose = 'sign'
  else:
    ks = I.call(I.getattr(I.get('interop.Keyset'), 'GetGenerateKeysets'), [purpose, r])
  got = flatten(ks) if isinstance(ks, Bag) else flatten(I.listof(ks))
  want = []
  if nonempty(ctx, w.algs.keys):
    need(len(w.algs.keys.seen) == 1, 'GetGenerateKeysets')
    a = w.algs.keys.seen[0]
    d = w.algs.at(I, a)
    sizes = value(d, 'keySizes')
    if I.truth(I.eq(value(d, 'purpose'), purpose)) and nonempty(ctx, sizes):
      want = [((w.algs.keys, sizes), (a, p)) for p in kinds(purpose, value(d, 'asymmetric'))]

  def eq(env, v, x):
    s = env[id(sizes)]
    if macro:
      return I.truth(I.eq(v, name_of(I, x[0], s)))
    return is_keyset(I, v, x[0], s, x[1])
  same_leaves(ctx, I, got, want, eq, 'key sets')


@SPECS.spec(['interop.InteropTestRunner._GenerateAll'])
def generate_all(ctx):
  """Everything to be generated, and nothing else."""
  I = interp(ctx)
  w = World(ctx, I)
  w.options_contract()
  w.exception_contract()
  I.contracts['interop.Keyset.GetGenerateKeysets'] = lambda I, f, a, k: w.kss(a[-2], a[-1])
  made = []

  def kss(purpose, r):
    m = Many('keyset', lambda I: I.call(I.get('interop.Keyset'), [
        w.kso, ctx.freshstr('alg'), symint(ctx, 'size', lo=0), ctx.freshstr('purpose')]))
    made.append((purpose, m))
    return m
  w.kss = kss
  r = w.runner()
  res = call(I, r, '_GenerateAll')
  got = flatten(res) if isinstance(res, Bag) else flatten(I.listof(res))
  want = []
  if nonempty(ctx, w.impls.keys) and nonempty(ctx, w.ops.keys):
    need(len(w.impls.keys.seen) == 1 and len(w.ops.keys.seen) == 1, '_GenerateAll')
    i, o = w.impls.keys.seen[0], w.ops.keys.seen[0]
    p = value(w.ops.at(I, o), 'keytype')
    ms = [m for q, m in made if I.truth(I.eq(q, p))]
    ctx.prove((len(ms) == 1 and len(made) == 1), 'key sets of the purpose')
    m = ms[0]
    if nonempty(ctx, m):
      need(len(m.seen) == 1, '_GenerateAll')
      ks = m.seen[0]
      cs = [c for c in w.optcalls if key(c[0]) == key(o) and c[1] is ks and
            c[2] == 'generateOptions']
      ctx.prove((len(cs) == 1 and len(w.optcalls) == 1), 'options of the operation')
      om = cs[0][3]
      if nonempty(ctx, om):
        d = om.seen[-1]
        if not w.ignored(i, o, I.getattr(ks, 'name'), d):
          want = [((w.impls.keys, w.ops.keys, m, om), (i, o, ks, d))]

  def eq(env, v, x):
    v = I.listof(v)
    return len(v) == 4 and key(v[0]) == key(x[0]) and key(v[1]) == key(x[1]) and (
        v[2] is x[2]) and same_map(v[3], x[3])
  same_leaves(ctx, I, got, want, eq, 'generated')


def same_map(a, b):
  pa, pb = getattr(a, 'parts', [a]), getattr(b, 'parts', [b])
  return len(pa) == len(pb) and all(x is y for x, y in zip(pa, pb))


@SPECS.spec(['interop.InteropTestRunner._TestAll', 'interop.Keyset.GetTestKeysets',
             'interop.Keyset._SwitchPurpose'])
def test_all(ctx):
  """Every implementation tests with every applicable key set and option combination."""
  I = interp(ctx)
  w = World(ctx, I)
  w.options_contract()
  w.exception_contract()
  r = w.runner()
  a = ctx.freshstr('alg')
  size = symint(ctx, 'size', lo=0)
  purpose = ['crypt', 'encrypt', 'sign'][ctx.choose(3)]
  op = ctx.freshstr('op')
  w.algs.keys.seen = [a]
  ks = I.call(I.get('interop.Keyset'), [w.kso, a, size, purpose])
  g = Mapping(I, 'genoption')
  res = call(I, r, '_TestAll', op, ks, g)
  got = flatten(res) if isinstance(res, Bag) else flatten(I.listof(res))
  want = []
  if nonempty(ctx, w.impls.keys):
    need(len(w.impls.keys.seen) == 1, '_TestAll')
    i = w.impls.keys.seen[0]
    d = w.algs.at(I, a)
    ps = dict(crypt=['crypt'], encrypt=['crypt'],
              sign=['sign', 'verify'] if value(d, 'asymmetric') else ['sign'])[purpose]
    calls = list(w.optcalls)
    for p in ps:
      cs = [c for c in calls if key(c[0]) == key(op) and c[2] == 'testOptions' and
            is_keyset(I, c[1], a, size, p)]
      ctx.prove((len(cs) == 1), 'options of the %s key set' % p)
      calls.remove(cs[0])
      om = cs[0][3]
      if nonempty(ctx, om):
        need(len(om.seen) == 1, '_TestAll')
        o = om.seen[0]
        c = Mapping(I, 'both')
        c.parts = [o, g]
        if not w.ignored(i, op, name_of(I, a, size), c):
          want.append(((w.impls.keys, om), (i, o)))
    ctx.prove((not calls), 'no other key set')

  def eq(env, v, x):
    v = I.listof(v)
    return len(v) == 2 and key(v[0]) == key(x[0]) and same_map(v[1], x[1])
  same_leaves(ctx, I, got, want, eq, 'tested')


@SPECS.spec(['interop.InteropTestRunner._IsException'])
def is_exception(ctx):
  """Ignored exactly if some rule matches: implementation, operation and key set are listed (or
  *), and every option the rule names (other than *) has one of the listed values."""
  I = interp(ctx)
  w = World(ctx, I)
  r = w.runner()
  impl, op, alg = [ctx.freshstr(x) for x in ('impl', 'op', 'alg')]
  opts = Mapping(I, 'option')
  got = I.truth(call(I, r, '_IsException', impl, op, alg, opts))

  def lists(rule, f, v):
    m = value(rule, f)
    return I.truth(m.contains(I, v)) or I.truth(m.contains(I, '*'))

  def good(named, n):
    if I.truth(I.eq(n, '*')):
      return True
    return I.truth(opts.keys.contains(I, n)) and I.truth(
        named.at(I, n).contains(I, opts.at(I, n)))

  def applies(rule):
    return lists(rule, 'implementation', impl) and lists(rule, 'operation', op) and lists(
        rule, 'algorithm', alg)
  if not nonempty(ctx, w.rules):
    ctx.prove((not got), 'nothing ignored without rules')
    return
  if got:
    # some rule matches: one at which the answer was found, and for every option it names
    need(w.rules.witnesses, '_IsException')
    rule = w.rules.witnesses[-1]
    ctx.prove(applies(rule), 'ignored only by a rule for it')
    named = value(rule, 'options')
    if nonempty(ctx, named.keys):
      n = named.keys.universal[-1] if named.keys.universal else named.pick(I)
      ctx.prove(good(named, n), 'ignored only if every option the rule names matches')
    return
  # no rule matches: an arbitrary one does not, for an option it names
  rule = w.rules.universal[-1] if w.rules.universal else w.rules.elem_(I)
  if not applies(rule):
    return ctx.ok('not ignored: the rule is not for it')
  named = value(rule, 'options')
  if not nonempty(ctx, named.keys):
    return ctx.fail('ignored by a rule naming no options', 'not ignored')
  ns = named.keys.seen or [named.pick(I)]
  ctx.prove(not all([good(named, n) for n in ns]), 'not ignored: an option named by the rule does not match')


@SPECS.spec(['interop.InteropTestRunner._Options', 'interop.Keyset.Options'],
            bounded='at most 2 options of the key set and 2 of the operation (any number of '
            'values)')
def options(ctx):
  """The full product of the option values of key set and operation; macros are expanded."""
  I = interp(ctx)
  w = World(ctx, I)
  r = w.runner()
  what = ['generateOptions', 'testOptions'][ctx.choose(2)]
  other = {'generateOptions': 'testOptions', 'testOptions': 'generateOptions'}[what]
  macro = Many('macro', lambda I: ctx.freshstr('signing'))
  r.fields['macros'] = PDict([('ALL_SIGNING_KEYS', macro)], ctx.newserial())

  pool = [ctx.concat(c, symstr(ctx, 'name%d' % j)) for j, c in enumerate('abcd')]

  def opts(label, names):
    out = []
    for n in names[:ctx.choose(3)]:
      v = Many(label, lambda I: ctx.freshstr('value')) if ctx.choose(2) else 'ALL_SIGNING_KEYS'
      out.append((n, v))
    return out
  # the operation's options may have names of the key set's
  ko = opts('ko', pool[:2])
  oo = opts('oo', pool[2 - ctx.choose(3):])
  both = lambda l: PDict([(what, PDict(l, ctx.newserial())), (other, Token(I))], ctx.newserial())
  op, purpose = ctx.freshstr('op'), ctx.freshstr('purpose')
  w.ops.keys.seen.append(op)
  w.ops.got[key(op)] = both(oo)
  w.kso.keys.seen.append(purpose)
  w.kso.got[key(purpose)] = both(ko)
  ks = I.call(I.get('interop.Keyset'), [w.kso, ctx.freshstr('alg'), symint(ctx, 's', lo=0), purpose])
  res = call(I, r, '_Options', op, ks, what)
  got = flatten(res) if isinstance(res, Bag) else flatten(I.listof(res))
  final = []
  for n, v in ko + oo:
    for j, (m, _) in enumerate(final):
      if I.truth(I.eq(m, n)):
        final[j] = (m, v)
        break
    else:
      final.append((n, v))
  colls = [macro if v == 'ALL_SIGNING_KEYS' else v for _, v in final]
  if not final:
    ctx.prove((len(got) == 1 and got[0][0] == () and isinstance(got[0][1], PDict)
                         and not got[0][1].entries), 'no options: one empty combination')
    return
  if not all([nonempty(ctx, c) for c in colls]):
    ctx.prove((not got), 'an option without values: nothing')
    return
  ctx.prove((len(got) == 1), 'one combination for each choice of values')
  under, d = got[0]
  ctx.prove((sorted(id(c) for c, _ in under) == sorted(id(c) for c in colls)),
            'the full product')
  need(isinstance(d, PDict), '_Options')
  es = list(under)
  ok = len(d.entries) == len(final)
  for (n, _), c in zip(final, colls):
    vs = [v for k, v in d.entries if I.truth(I.eq(k, n))]
    hit = [u for u in es if u[0] is c and vs and key(u[1]) == key(vs[0])]
    ok = ok and len(vs) == 1 and len(hit) >= 1
    if hit:
      es.remove(hit[0])
  ctx.prove((ok), 'each option has its own value')


class CallLog(object):
  """Stand-in for the call of an implementation."""
  def __init__(self, I, w):
    self.calls = []
    self.w = w
    I.contracts['interop.InteropTestRunner._CallImplementation'] = self.apply

  def apply(self, I, f, a, k):
    need(len(a) == 3 and not k, '_CallImplementation')
    out = I.ctx.freshstr('output')
    self.w.texts.append((out, Token(I)))
    self.calls.append((tuple(I.state.get('binders', ())), a[1],
                       self.w.loads(a[2]), out))
    return out


def path_of(I, *names):
  return I.call(I.getattr(I.getattr(I.module('interop').ns['os'], 'path'), 'join'),
                ['keys'] + list(names))


def plain(ctx, I, v):
  """A name that is one component of a path (what configurations use)."""
  ctx.assume(tz(slen(v)) > 0)
  ctx.assume(tz(ctx.at(v, 0)) != 47)
  ctx.assume(tz(ctx.at(v, tsub(slen(v), 1))) != 47)
  return v


def same_tree(I, a, b):
  if isinstance(b, Mapping):
    return isinstance(a, Mapping) and same_map(a, b)
  if isinstance(b, dict):
    if not isinstance(a, PDict) or len(a.entries) != len(b):
      return False
    d = dict(a.entries)
    return set(d) == set(b) and all(same_tree(I, d[k], b[k]) for k in b)
  if isinstance(b, (list, tuple)):
    if not isinstance(a, (PList, tuple)):
      return False
    x = I.listof(a)
    return len(x) == len(b) and all(same_tree(I, p, q) for p, q in zip(x, b))
  if isinstance(b, Native):
    return a is b
  if isinstance(a, (PList, PDict, Native)):
    return False
  return I.truth(I.eq(a, b))


@SPECS.spec(['interop.InteropTestRunner.SetupInteropTests',
             'interop.InteropTestRunner.InteropTestGenerator', 'interop.InteropTestRunner._Generate',
             'interop.InteropTestRunner._Test'])
def setup(ctx):
  """Each case is generated once, each of its tests is registered under a name made of its parts
  and, when run, tests what was generated for it with its own parameters."""
  I = interp(ctx)
  w = World(ctx, I)
  r = w.runner()
  log = CallLog(I, w)
  alg, size = ctx.freshstr('alg'), symint(ctx, 'size', lo=0)
  mk = lambda I: (plain(ctx, I, ctx.freshstr('gimpl')), ctx.freshstr('op'), I.call(
      I.get('interop.Keyset'), [w.kso, alg, size, 'sign']), Mapping(I, 'gopt'))
  cases = Many('case', mk)
  tested = []

  def tests(I, f, a, k):
    need(len(a) == 4 and not k, '_TestAll')
    m = Many('test', lambda I: (plain(ctx, I, ctx.freshstr('timpl')), Mapping(I, 'topt')))
    tested.append((tuple(I.state.get('binders', ())), a[1:], m))
    return m
  I.contracts['interop.InteropTestRunner._GenerateAll'] = lambda I, f, a, k: cases
  I.contracts['interop.InteropTestRunner._TestAll'] = tests
  call(I, r, 'SetupInteropTests')
  regs = I.state.get('symattrs', [])
  if not nonempty(ctx, cases):
    ctx.prove(not log.calls and not regs, 'nothing to generate')
    return
  need(len(cases.seen) == 1, 'SetupInteropTests')
  gi, op, ks, go = case = cases.seen[0]
  name = name_of(I, alg, size)
  ctx.prove(len(log.calls) == 1 and [c for c, _ in log.calls[0][0]] == [cases], 'generated once')
  under, impl, tree, out = log.calls[0]
  common = dict(operation=op, keyPath=path_of(I, gi), algorithm=name, generateOptions=go,
                testData='This is some test data.')
  ctx.prove(key(impl) == key(gi), 'by its implementation')
  ctx.prove(same_tree(I, tree, dict(common, command='generate')), 'generated as configured')
  ctx.prove(len(tested) == 1 and key(tested[0][1][0]) == key(op) and tested[0][1][1] is ks and
            same_map(tested[0][1][2], go), 'tests of this case')
  m = tested[0][2]
  if not nonempty(ctx, m):
    ctx.prove(not regs, 'no tests')
    return
  need(len(m.seen) == 1, 'SetupInteropTests')
  ti, to = m.seen[0]
  ctx.prove(len(regs) == 1, 'registered once')
  cls, tname, fn = regs[0]
  ctx.prove(cls is I.getattr(r, 'InteropTest'), 'in the test case class')
  j = lambda d: d.m_values(I).join(I, '_')
  want = ''
  for q in ('test_', ti, '_generated_by_', gi, '_', op, '_', name, '_', j(go), '_', j(to)):
    want = ctx.concat(want, q)
  ctx.prove(I.truth(I.eq(tname, want)), 'named after its parts')
  del log.calls[:]
  I.call(fn, [Token(I)])
  ctx.prove(len(log.calls) == 1, 'one call when run')
  under, impl, tree, _ = log.calls[0]
  ctx.prove(key(impl) == key(ti), 'tested by its implementation')
  ctx.prove(same_tree(I, tree, dict(common, command='test', testOptions=to, output=w.loads(out))),
            'tested with its own parameters')


@SPECS.spec(['interop.InteropTestRunner._Create', 'interop.InteropTestRunner._CreateEncrypted',
             'interop.InteropTestRunner._GetCreateFlags', 'interop.InteropTestRunner._GetAddKeyFlags',
             'interop.InteropTestRunner._GetPubKeyFlags', 'interop.InteropTestRunner._GetKeyDir',
             'interop.InteropTestRunner._GetKeyPath'])
def create(ctx):
  """The commands that create a key set match it."""
  I = interp(ctx)
  w = World(ctx, I)
  r = w.runner()
  log = CallLog(I, w)
  dirs = []
  I.contracts['interop.InteropTestRunner._MakeDirs'] = lambda I, f, a, k: dirs.append(a[1])
  impl, alg, size = (plain(ctx, I, ctx.freshstr('impl')), plain(ctx, I, ctx.freshstr('alg')),
                     symint(ctx, 'size', lo=0))
  w.algs.keys.seen = [alg]
  d = w.algs.at(I, alg)
  asym = value(d, 'asymmetric')
  enc = bool(ctx.choose(2))
  name = name_of(I, alg, size)
  cat = ctx.concat
  if enc:
    cr = plain(ctx, I, ctx.freshstr('crypter'))
    call(I, r, '_CreateEncrypted', impl, alg, size, cr, asym)
    loc = path_of(I, impl, cat(name, cr))
  else:
    call(I, r, '_Create', impl, alg, size, asym)
    loc = path_of(I, impl, name)
  add = ['addkey', '--status=primary', cat('--size=', I.str_(size)), cat('--location=', loc)]
  if enc:
    add.append(cat('--crypter=', path_of(I, impl, cr)))
  add += value(d, 'addKeyFlags').items
  new = ['create', cat('--name=', name), cat('--location=', loc)] + value(d, 'createFlags').items
  cmds = [new, add] + ([] if enc else [add])
  want_dirs = [loc]
  if asym and not enc:
    pub = cat(loc, 'public')
    cmds.append(['pubkey', cat('--destination=', pub), cat('--location=', loc)])
    want_dirs.append(pub)
  ctx.prove(len(log.calls) == 1 and key(log.calls[0][1]) == key(impl), 'one call')
  tree = log.calls[0][2]
  need(isinstance(tree, PDict) and len(tree.entries) == 2, 'create parameters')
  ctx.prove(I.truth(I.eq(value(tree, 'command'), 'create')), 'create')
  got = [I.listof(c) for c in I.listof(value(tree, 'keyczartCommands'))]
  ok = len(got) == len(cmds)
  for g, c in zip(got, cmds):
    # the order of flags is irrelevant
    ok = ok and len(g) == len(c) and same_tree(I, g[0], c[0])
    left = list(c[1:])
    for x in g[1:]:
      hit = [y for y in left if same_tree(I, x, y)]
      ok = ok and bool(hit)
      if hit:
        left.remove(hit[0])
  ctx.prove(ok, 'commands match the key set')
  ctx.prove(len(dirs) == len(want_dirs) and all(
      any(I.truth(I.eq(x, y)) for x in dirs) for y in want_dirs), 'directories made')


@SPECS.spec(['interop.InteropTestRunner.CreateKeys'])
def create_keys(ctx):
  """Every key set is created for every implementation, the plain ones (which hold the key set
  that encrypts) before the encrypted ones."""
  I = interp(ctx)
  w = World(ctx, I)
  r = w.runner()
  log = []
  rec = lambda what: lambda I, f, a, k: log.append((what, tuple(I.state['binders']), a[1:], k))
  I.contracts['interop.InteropTestRunner._Create'] = rec('plain')
  I.contracts['interop.InteropTestRunner._CreateEncrypted'] = rec('encrypted')
  call(I, r, 'CreateKeys')
  if not (nonempty(ctx, w.impls.keys) and nonempty(ctx, w.algs.keys)):
    ctx.prove(not log, 'nothing to create')
    return
  for what in ('plain', 'encrypted'):
    mine = [e for e in log if e[0] == what]
    need(len(mine) <= 1 and all(not e[3] for e in mine), 'CreateKeys')
    if not mine:
      # only if the algorithm this loop looked at has no sizes
      ds = list(w.algs.got.values())
      ctx.prove(any(value(d, 'keySizes').empty for d in ds), '%s key sets created' % what)
      continue
    _, under, a, _ = mine[0]
    cs = dict((id(c), e) for c, e in under)
    ctx.prove(id(w.impls.keys) in cs and id(w.algs.keys) in cs and len(under) == 3,
              '%s: for every implementation, algorithm and size' % what)
    alg = cs[id(w.algs.keys)]
    d = w.algs.at(I, alg)
    ctx.prove(id(value(d, 'keySizes')) in cs, '%s: sizes of the algorithm' % what)
    need(len(a) == (4 if what == 'plain' else 5), 'CreateKeys')
    ctx.prove(key(a[0]) == key(cs[id(w.impls.keys)]) and key(a[1]) == key(alg) and
              key(a[2]) == key(cs[id(value(d, 'keySizes'))]) and
              a[-1] is value(d, 'asymmetric'), '%s: its own parameters' % what)
    if what == 'encrypted':
      ctx.prove(I.truth(I.eq(a[3], 'aes128')), 'encrypted with aes128')
  ctx.prove([e[0] for e in log] == sorted([e[0] for e in log], reverse=True),
            'the encrypting key set exists first')


@SPECS.spec(['interop.InteropTestRunner._CallImplementation'])
def call_implementation(ctx):
  """The implementation's own command line with the parameters; failure is an exception."""
  I = interp(ctx)
  w = World(ctx, I)
  r = w.runner()
  impl = ctx.freshstr('impl')
  w.impls.keys.seen = [impl]
  cmd = w.impls.at(I, impl)
  before = list(cmd.items)
  fails = bool(ctx.choose(2))
  out, par = ctx.freshstr('out'), ctx.freshstr('params')
  calls = []

  def check_output(I, a, k):
    calls.append((I.listof(a[0]), k))
    if fails:
      e = I.exc(lib.CalledProcessError, 1, 'cmd')
      e.fields['output'] = out
      raise PyRaise(e)
    return out
  sp = I.module('interop').ns['subprocess']
  m = ModV('subprocess')
  m.ns.update(sp.ns)
  m.ns['check_output'] = NativeFn('check_output', check_output)
  m.ns['list2cmdline'] = NativeFn('list2cmdline', lambda I, a, k: I.ctx.freshstr('cmdline'))
  I.module('interop').ns['subprocess'] = m
  o = outcome(I, lambda: call(I, r, '_CallImplementation', impl, par))
  ctx.prove(len(calls) == 1 and same_tree(I, PList(calls[0][0]), before + [par]), 'command line')
  ctx.prove(cmd.items == before, 'configuration unchanged')
  if fails:
    ctx.prove(o[0] == 'raise', 'failure reported')
  else:
    ctx.prove(o[0] == 'value' and I.truth(I.eq(o[1], out)), 'output returned')


class RunnerN(Native):
  """A test runner that records what is asked of it."""
  tname = 'InteropTestRunner'

  def __init__(self, I, log, logger):
    Native.__init__(self, I)
    self.log, self.logger = log, logger

  def did(name):
    def m(self, I):
      self.log.append((name, self))
    return m
  for _n in ('CreateKeys', 'SetupInteropTests', 'RunTests', 'DisplayTests', 'DisplayOptions'):
    locals()['m_' + _n] = did(_n)


@SPECS.spec(['interop.main', 'interop.InteropLogger.__init__', 'interop.InteropLogger.Debug'])
def command_line(ctx):
  """Keys are created unless --create=n, then all tests are set up and run; display and options
  only show; anything else runs nothing."""
  I = interp(ctx)
  log = []

  def runner(I, f, a, k):
    need(len(a) in (1, 2) and not k, 'InteropTestRunner')
    log.append(('new', a[-1]))
    return RunnerN(I, log, a[-1])
  I.contracts['interop.InteropTestRunner'] = runner
  create, verbose = ctx.freshstr('create', maxcode=127, excl=frozenset([61])), ctx.freshstr(
      'verbose', maxcode=127, excl=frozenset([61]))
  ctx.inputs['create'], ctx.inputs['verbose'] = create, verbose
  case = ctx.choose(9)
  c, v = ctx.concat('--create=', create), ctx.concat('--verbose=', verbose)
  argv = [[], [c], [v], [c, v], [v, c], ['display'], ['options'], ['--help'], None][case]
  if argv is None:
    argv = [ctx.freshstr('other', maxcode=127)]
    for x in ('display', 'options'):
      ctx.assume_strne(argv[0], x)
    if ctx.choose(2):
      argv[0] = ctx.concat('--', ctx.freshstr('flag', maxcode=127, excl=frozenset([61])))
    else:
      ctx.assume(z3.Not(z3.And(tz(slen(argv[0])) >= 2, ctx.at(argv[0], 0) == 45, ctx.at(argv[0], 1) == 45)))
  o = outcome(I, lambda: I.call(I.get('interop.main'), [PList(argv, ctx.newserial())]))
  if o[0] == 'raise':
    return ctx.fail('no exception', clsname(o[1].exc.cls))
  did = [e[0] for e in log]
  if case in (5, 6):
    ctx.prove(did == ['new', ('DisplayTests', 'DisplayOptions')[case - 5]], 'only shown')
    return
  yn = lambda x: 'y' if ctx.decide_streq(x, 'y') else 'n' if ctx.decide_streq(x, 'n') else None
  cv = yn(create) if case in (1, 3, 4) else 'y'
  vv = yn(verbose) if case in (2, 3, 4) else 'n'
  if case >= 7 or cv is None or vv is None:
    ctx.prove(not did, 'nothing is run')
    return
  ctx.prove(did == ['new'] + ['CreateKeys'] * (cv == 'y') + ['SetupInteropTests', 'RunTests'],
            'keys, then tests, then run')
  before = len([e for e in ctx.events if e[0] == 'print'])
  call(I, log[0][1], 'Debug', 'detail')
  after = len([e for e in ctx.events if e[0] == 'print'])
  ctx.prove(after - before == (vv == 'y'), 'details shown when asked for')
