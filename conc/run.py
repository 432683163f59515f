"""run.py <ID> [seed tier budget]: runs the executable contracts of one property
on the real code and prints one JSON object."""
import importlib, json, os, sys, traceback, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')


def contain():
    """Everything the code under test writes or deletes stays in a scratch directory:
    any other attempt is refused before it happens."""
    import atexit, shutil, tempfile
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='pyvc-conc-'))
    tempfile.tempdir = scratch
    os.chdir(scratch)
    ok = (scratch + os.sep, '/dev/')
    W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

    def inside(p):
        if p is None or isinstance(p, int):
            return True
        p = os.fsdecode(p)
        q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return q == scratch or (q + os.sep).startswith(ok)

    def hook(ev, args):
        if ev == 'open':
            if (args[2] or 0) & W and not inside(args[0]):
                raise PermissionError('contained: open %r' % (args[0],))
        elif ev in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'shutil.rmtree', 'os.utime'):
            if not inside(args[0]):
                raise PermissionError('contained: %s %r' % (ev, args[0]))
        elif ev in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile'):
            if not inside(args[0]) or not inside(args[1]):
                raise PermissionError('contained: %s' % ev)
        elif ev in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty', 'os.kill', 'os.killpg', 'socket.connect', 'socket.bind'):
            raise PermissionError('contained: %s' % ev)
    sys.addaudithook(hook)
    return lambda: shutil.rmtree(scratch, ignore_errors=True)


real_exit = os._exit


def no_exit(code):
    raise RuntimeError('os._exit(%r) called' % (code,))


os._exit = no_exit


class NonTermination(BaseException):
    pass


def watchdog(cpu):
    import resource, signal

    def boom(sig, frame):
        raise NonTermination('no result after %d s of CPU time' % cpu)
    signal.signal(signal.SIGPROF, boom)
    signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def main():
    pid = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
    budget = float(sys.argv[4]) if len(sys.argv) > 4 else 100.0
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import common
    cleanup = contain()
    t = common.T(seed, tier, budget)
    status = 'ok'
    err = None
    watchdog(150 if tier == 'quick' else 3000)
    try:
        if pid != 'C21':
            common.lib()
            f = sys.modules['keyczar.util'].__file__
            assert os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep), f
        m = importlib.import_module(pid.lower())
        extra = None
        if os.environ.get('PYVC_EXTRA'):
            extra = json.load(open(os.environ['PYVC_EXTRA']))
        t.extra = extra or []
        for fn in m.GROUPS:
            try:
                fn(t)
            except common.Skip:
                pass
    except common.Abort:
        pass
    except (Exception, SystemExit, NonTermination):
        err = traceback.format_exc()
        tb = sys.exc_info()[2]
        files = []
        while tb:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        inrepo = any(os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep) for f in files)
        if inrepo:
            # the code under test raised where its contract promises a result
            t.fails.append(dict(what='unexpected exception from the code under test',
                                input=dict(traceback=err[-3000:])))
        else:
            status = 'error'
    import signal
    signal.setitimer(signal.ITIMER_PROF, 0)
    if t.fails:
        status = 'fail'
    json.dump(dict(property=pid, status=status, error=err, evaluations=t.n,
                   distinct=len(t.distinct), failures=t.fails, samples=t.samples,
                   wall=time.time() - t.t0, seed=seed, tier=tier), out)
    out.flush()
    os.chdir('/')
    cleanup()
    real_exit(0)


main()
