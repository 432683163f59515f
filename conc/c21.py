"""C21 the interop driver."""
import common as c
from common import *
import contextlib, shutil, subprocess, tempfile, unittest, itertools

NAMES = dict(algorithms='interopAlgorithms', ignored='ignoredTests', operations='operations', implementations='implementations', options='keySetOptions')


class Popen(object):
    """Stand-in for subprocess.Popen: records the call, starts nothing."""
    calls = []
    answer = staticmethod(lambda args: (0, '{"output": "x"}'))

    def __init__(self, args, *a, **kw):
        self.args = args
        Popen.calls.append(list(args))
        self.returncode, out = Popen.answer(list(args))
        self.text = any(kw.get(k) for k in ('universal_newlines', 'text', 'encoding', 'errors'))
        self.out = out if self.text else out.encode()
        f = io.StringIO if self.text else io.BytesIO
        self.stdout, self.stderr, self.stdin = f(self.out), f(), None
        self.pid = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def communicate(self, input=None, timeout=None):
        return self.out, None

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def kill(self):
        pass


class Logger(object):
    def __init__(self, verbose=False):
        self.out = []

    def Output(self, s):
        self.out.append(s)

    def Debug(self, s):
        pass

    def Collect(self, m, d):
        pass

    def OutputCollection(self):
        pass


@contextlib.contextmanager
def site(cfg):
    """A scratch directory holding the configuration, entered."""
    d = tempfile.mkdtemp(prefix='pyvc21')
    old = os.getcwd()
    oldp = subprocess.Popen
    try:
        os.mkdir(os.path.join(d, 'config'))
        for k, f in NAMES.items():
            with open(os.path.join(d, 'config', f + '.json'), 'w') as h:
                json.dump(cfg[k], h)
        os.chdir(d)
        subprocess.Popen = Popen
        Popen.calls = []
        Popen.answer = staticmethod(lambda args: (0, json.dumps(dict(output='out of ' + sha1(repr(args)).encode('latin-1').hex()))))
        yield d
    finally:
        subprocess.Popen = oldp
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def shipped():
    d = os.path.join(REPO, 'interop', 'config')
    return {k: json.load(open(os.path.join(d, f + '.json'))) for k, f in NAMES.items()}


def rnd(t):
    r = t.rng
    algs = {}
    for i in range(r.randrange(1, 5)):
        p = r.choice(['crypt', 'sign'])
        algs['alg%d-%s' % (i, p)] = dict(purpose=p, asymmetric=r.random() < .5, keySizes=r.sample([128, 192, 256, 1024, 2048, 4096, 7], r.randrange(1, 4)),
                                        createFlags=r.sample(['--purpose=' + p, '--asymmetric=rsa', '--cf=%d' % i], r.randrange(0, 4)), addKeyFlags=r.sample(['--af=1', '--af2=x'], r.randrange(0, 3)))
    impls = {n: [n + '-cmd'] + r.sample(['-x', '-y'], r.randrange(0, 3)) for n in r.sample(['python', 'java', 'cpp', 'go'], r.randrange(1, 4))}

    def opts(names):
        out = {}
        for n in names:
            if r.random() < .6:
                out[n] = ['%s%d' % (n, i) for i in range(r.randrange(1, 4))]
        return out
    ops = {}
    for i in range(r.randrange(1, 4)):
        g = opts(['ga', 'gb'])
        if r.random() < .4:
            g['signer'] = 'ALL_SIGNING_KEYS'
        ops['op%d' % i] = dict(keytype=r.choice(['crypt', 'sign']), generateOptions=g, testOptions=opts(['ta']))
    ko = {}
    for p in ('crypt', 'sign', 'verify', 'encrypt'):
        g, te = opts(['kg', 'kh']), opts(['kt', 'ku'])
        # keep the variants apart so that distinct cases have distinct names
        g['gp'] = ['g' + p]
        te['tp'] = ['t' + p]
        for o in (g, te):
            if r.random() < .15:
                o['ks'] = 'ALL_SIGNING_KEYS'
        ko[p] = dict(generateOptions=g, testOptions=te)
    names = [a + str(s) for a in algs for s in algs[a]['keySizes']]
    ign = []
    for i in range(r.randrange(0, 4)):
        o = {}
        kind = r.random()
        if kind < .35:
            o = {'*': '*'}
        else:
            for n in r.sample(['ga', 'gb', 'ta', 'kg', 'kt', 'ku', 'tp', 'gp', 'signer'], r.randrange(0, 3)):
                o[n] = r.sample(['%s%d' % (n, j) for j in range(3)] + ['tverify', 'gencrypt', 'tsign', 'gcrypt'] + names[:2], r.randrange(1, 4))
            if kind < .5:
                o['*'] = '*'
        pick = lambda xs: ['*'] if r.random() < .3 else r.sample(list(xs), r.randrange(1, len(xs) + 1))
        ign.append(dict(implementation=pick(impls), operation=pick(ops), algorithm=pick(names), options=o, reason='r%d' % i))
    return dict(algorithms=algs, ignored=ign, operations=ops, implementations=impls, options=ko)


# -- the oracle -------------------------------------------------------------------
def ignored(cfg, impl, op, alg, options):
    for r in cfg['ignored']:
        if not (impl in r['implementation'] or '*' in r['implementation']):
            continue
        if not (op in r['operation'] or '*' in r['operation']):
            continue
        if not (alg in r['algorithm'] or '*' in r['algorithm']):
            continue
        if all(n == '*' or (n in options and options[n] in vs) for n, vs in r['options'].items()):
            return True
    return False


def combos(cfg, *dicts):
    signing = [a + str(s) for a in cfg['algorithms'] if cfg['algorithms'][a]['purpose'] == 'sign' for s in cfg['algorithms'][a]['keySizes']]
    d = {}
    for x in dicts:
        d.update(x)
    names = sorted(d)
    vals = [signing if isinstance(d[n], str) else d[n] for n in names]
    return [dict(zip(names, v)) for v in itertools.product(*vals)]


def matrix(cfg):
    """-> [(implementation, operation, algorithm+size, generate options, [(test implementation, test options)])]"""
    out = []
    for impl in cfg['implementations']:
        for op, od in cfg['operations'].items():
            for a, ad in cfg['algorithms'].items():
                if ad['purpose'] != od['keytype']:
                    continue
                for s in ad['keySizes']:
                    if od['keytype'] == 'crypt':
                        kinds = [('crypt', ['crypt'])] + ([('encrypt', ['crypt'])] if ad['asymmetric'] else [])
                    else:
                        kinds = [('sign', ['sign', 'verify'] if ad['asymmetric'] else ['sign'])]
                    for g, tests in kinds:
                        for go in combos(cfg, cfg['options'][g]['generateOptions'], od['generateOptions']):
                            name = a + str(s)
                            if ignored(cfg, impl, op, name, go):
                                continue
                            ts = []
                            for ti in cfg['implementations']:
                                for tk in tests:
                                    for to in combos(cfg, cfg['options'][tk]['testOptions'], od['testOptions']):
                                        if not ignored(cfg, ti, op, name, dict(to, **go)):
                                            ts.append((ti, to))
                            out.append((impl, op, name, go, ts))
    return out


def key(x):
    return json.dumps(x, sort_keys=True)


def reset(I):
    cl = I.InteropTestRunner.InteropTest
    for n in list(vars(cl)):
        if n.startswith('test_'):
            delattr(cl, n)


def check(t, I, cfg, label):
    want = matrix(cfg)
    with site(cfg):
        reset(I)
        r = t.call('InteropTestRunner', I.InteropTestRunner, Logger())
        with contextlib.redirect_stdout(io.StringIO()):
            t.call('SetupInteropTests', r.SetupInteropTests, config=cfg)
        gen = Popen.calls
        Popen.calls = []
        exp_gen = {}
        for impl, op, name, go, ts in want:
            args = cfg['implementations'][impl] + [dict(command='generate', operation=op, keyPath=os.path.join('keys', impl), algorithm=name, generateOptions=go, testData='This is some test data.')]
            exp_gen[key(args)] = (impl, op, name, go, ts)
        got = [key(list(a[:-1]) + [json.loads(a[-1])]) for a in gen]
        t.eq(sorted(got), sorted(exp_gen), 'what is generated', config=label)
        tests = {n: f for n, f in vars(r.InteropTest).items() if n.startswith('test_')}
        exp_test = []
        exp_names = []
        outs = {}
        for a in gen:
            outs[key(list(a[:-1]) + [json.loads(a[-1])])] = json.loads(Popen.answer(a)[1])
        for k, (impl, op, name, go, ts) in exp_gen.items():
            for ti, to in ts:
                exp_test.append(key(cfg['implementations'][ti] + [dict(command='test', operation=op, keyPath=os.path.join('keys', impl), algorithm=name, generateOptions=go, testOptions=to, output=outs.get(k), testData='This is some test data.')]))
        t.eq(len(tests), len(exp_test), 'number of tests', config=label)
        for n in tests:
            Popen.calls = []
            t.call('run test', tests[n], None)
            t.eq(len(Popen.calls), 1, 'one call per test', name=n)
            a = Popen.calls[0]
            exp_names.append(key(list(a[:-1]) + [json.loads(a[-1])]))
            j = json.loads(a[-1])
            t.ok(j['operation'] in n and j['algorithm'] in n, 'name tells the case', name=n)
        t.eq(sorted(exp_names), sorted(exp_test), 'every test has its own parameters', config=label)
        # the runnable suite holds the same tests
        suite = unittest.TestLoader().loadTestsFromTestCase(r.InteropTest)
        t.eq(suite.countTestCases(), len(exp_test), 'suite', config=label)
        # display
        lg = Logger()
        r2 = I.InteropTestRunner(lg)
        t.call('DisplayTests', r2.DisplayTests)
        t.eq(len(lg.out), len(exp_test), 'displayed tests', config=label)
        # an implementation that fails makes the test fail
        if tests:
            Popen.answer = staticmethod(lambda args: (1, 'boom'))
            n = sorted(tests)[t.rng.randrange(len(tests))]
            t.raises(Exception, 'failing implementation', tests[n], None)
        reset(I)


def keys_(t, I, cfg, label):
    """creation commands"""
    with site(cfg) as d:
        r = I.InteropTestRunner(Logger())
        with contextlib.redirect_stdout(io.StringIO()):
            t.call('CreateKeys', r.CreateKeys)
        got = [list(a[:-1]) + [json.loads(a[-1])] for a in Popen.calls]
        norm = lambda a: key(a[:-1] + [a[-1]['command']] + [[x[0]] + sorted(x[1:]) for x in a[-1]['keyczartCommands']])
        exp = []
        for impl in cfg['implementations']:
            for enc in (False, True):
                for a, ad in cfg['algorithms'].items():
                    for s in ad['keySizes']:
                        loc = os.path.join('keys', impl, a + str(s)) + ('aes128' if enc else '')
                        add = ['addkey', '--status=primary', '--size=%d' % s, '--location=' + loc] + (['--crypter=' + os.path.join('keys', impl, 'aes128')] if enc else []) + ad['addKeyFlags']
                        cmds = [['create', '--name=' + a + str(s), '--location=' + loc] + ad['createFlags']] + [add] * (1 if enc else 2)
                        if ad['asymmetric'] and not enc:
                            cmds.append(['pubkey', '--destination=' + loc + 'public', '--location=' + loc])
                        exp.append(norm(cfg['implementations'][impl] + [dict(command='create', keyczartCommands=cmds)]))
                        t.ok(os.path.isdir(os.path.join(d, loc)), 'directory made', loc=loc)
                        if ad['asymmetric'] and not enc:
                            t.ok(os.path.isdir(os.path.join(d, loc + 'public')), 'directory made', loc=loc + 'public')
        g = [norm(a) for a in got]
        t.eq(sorted(g), sorted(exp), 'creation commands', config=label)
        # the crypting set exists before sets encrypted with it
        plain = [i for i, a in enumerate(got) if not any('--crypter' in f for x in a[-1]['keyczartCommands'] for f in x)]
        enc = [i for i, a in enumerate(got) if i not in plain]
        for i in enc:
            cr = [f for x in got[i][-1]['keyczartCommands'] for f in x if f.startswith('--crypter=')][0][10:]
            need = [j for j in plain if any('--location=' + cr in x for x in got[j][-1]['keyczartCommands'])]
            t.ok(all(j < i for j in need), 'crypting set created first', config=label)
        # again: leaves are emptied
        p = os.path.join(d, 'keys', list(cfg['implementations'])[0])
        sub = os.path.join(p, sorted(os.listdir(p))[0])
        with open(os.path.join(sub, 'stale'), 'w') as f:
            f.write('x')
        with contextlib.redirect_stdout(io.StringIO()):
            t.call('CreateKeys again', r.CreateKeys)
        t.eq(os.listdir(sub), [], 'stale files removed')


def body(t):
    import interop as I
    assert os.path.realpath(I.__file__).startswith(os.path.realpath(REPO)), I.__file__
    cfg = shipped()
    check(t, I, cfg, 'shipped')
    keys_(t, I, cfg, 'shipped')
    for i in range(150 if t.thorough else 40):
        if t.left() < 5:
            break
        cfg = rnd(t)
        check(t, I, cfg, cfg)
        keys_(t, I, cfg, cfg)


def special(t):
    import interop as I
    base = dict(algorithms={'a': dict(purpose='sign', asymmetric=True, keySizes=[1, 2], createFlags=[], addKeyFlags=[])}, ignored=[], operations={'o': dict(keytype='sign', generateOptions={}, testOptions={})},
                implementations={'i': ['i'], 'j': ['j', 'k']}, options={p: dict(generateOptions={}, testOptions={'p': [p]}) for p in ('crypt', 'sign', 'verify', 'encrypt')})
    check(t, I, base, 'no options')
    for o in ({'*': '*'}, {}, {'p': ['verify']}, {'p': ['sign', 'verify']}, {'p': ['nope']}, {'q': ['verify']}, {'*': '*', 'p': ['sign']}, {'*': '*', 'q': ['x']}):
        for im in (['*'], ['i'], ['j'], ['i', 'j'], []):
            for al in (['*'], ['a1'], ['a']):
                check(t, I, dict(base, ignored=[dict(implementation=im, operation=['o'], algorithm=al, options=o, reason='z')]), 'rule %r %r %r' % (o, im, al))
    # several rules, only a later one matches
    check(t, I, dict(base, ignored=[dict(implementation=['*'], operation=['x'], algorithm=['*'], options={'*': '*'}, reason='1'), dict(implementation=['j'], operation=['o'], algorithm=['a2'], options={'p': ['sign']}, reason='2')]), 'two rules')


class Runner(object):
    """Stand-in for InteropTestRunner: records what is asked of it."""
    did = []

    def __init__(self, logger=None):
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            logger.Debug('detail')
        Runner.did.append(('new', bool(f.getvalue())))

    for _n in ('CreateKeys', 'SetupInteropTests', 'RunTests', 'DisplayTests', 'DisplayOptions'):
        locals()[_n] = (lambda n: lambda self: Runner.did.append(n))(_n)


def command_line(t):
    """Which steps the command line asks for."""
    import interop as I
    old = I.InteropTestRunner
    I.InteropTestRunner = Runner
    try:
        for argv, create, verbose in [([], 1, 0), (['--create=y'], 1, 0), (['--create=n'], 0, 0), (['--verbose=y'], 1, 1), (['--verbose=n'], 1, 0),
                                      (['--create=n', '--verbose=y'], 0, 1), (['--verbose=y', '--create=n'], 0, 1), (['--create=y', '--verbose=y'], 1, 1),
                                      (['--verbose=n', '--create=n'], 0, 0), (['--create=n', '--create=y'], 1, 0)]:
            Runner.did = []
            with contextlib.redirect_stdout(io.StringIO()):
                t.call('main %r' % argv, lambda: I.main(list(argv)))
            t.eq(Runner.did, [('new', bool(verbose))] + ['CreateKeys'] * create + ['SetupInteropTests', 'RunTests'], 'steps of %r' % argv)
        for argv, what in [(['display'], 'DisplayTests'), (['options'], 'DisplayOptions'), (['--create=n', 'display'], 'DisplayTests'), (['--verbose=y', 'options'], 'DisplayOptions')]:
            Runner.did = []
            with contextlib.redirect_stdout(io.StringIO()):
                t.call('main %r' % argv, lambda: I.main(list(argv)))
            t.eq([x for x in Runner.did if not isinstance(x, tuple)], [what], 'steps of %r' % argv)
        for argv in (['--create=maybe'], ['--verbose='], ['--create'], ['--other=y'], ['--create=y=n'], ['--help'], ['--h'], ['run'], [''], ['--']):
            Runner.did = []
            with contextlib.redirect_stdout(io.StringIO()):
                t.call('main %r' % argv, lambda: I.main(list(argv)))
            t.eq([x for x in Runner.did if not isinstance(x, tuple)], [], 'steps of %r' % argv)
    finally:
        I.InteropTestRunner = old


GROUPS = [special, command_line, body]
