"""Common driver of the checks: builds bic, runs a Hypothesis search over worker
processes, confirms and records failures, writes the evidence file."""
import hashlib, json, multiprocessing as mp, os, resource, shutil, signal, subprocess, sys
import tempfile, time, traceback, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    """The property does not hold for this case."""


class Invalid(Exception):
    """The case is outside the domain (e.g. the oracle's compiler rejects it)."""


class Env:
    """What a check function gets: binaries and a scratch directory per process."""

    def __init__(self, root):
        self.root = root
        self.bins = {}
        self.scratch = None
        self.n = 0
        self.replaying = False

    def build(self, variant):
        out = os.path.join(self.root, 'build-' + variant)
        r = subprocess.run(['bash', os.path.join(VERIF, 'lib', 'build.sh'), REPO, out, variant],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stdout.buffer.write(r.stdout[-4000:])
            print('ERROR: could not build bic (%s)' % variant)
            sys.exit(3)
        shutil.rmtree(os.path.join(out, 'obj'), ignore_errors=True)
        self.bins[variant] = os.path.join(out, 'bic')

    def fork_scratch(self, name):
        self.scratch = os.path.join(self.root, name)
        os.makedirs(self.scratch, exist_ok=True)

    # -- running things -------------------------------------------------
    def run(self, argv, stdin=b'', env=None, timeout=None, cwd=None):
        """Returns (rc, stdout, stderr); rc is None on time out, negative on a signal."""
        if timeout is None:
            timeout = 30 if self.replaying else 10
        e = {'PATH': os.environ['PATH'], 'HOME': '/nonexistent', 'LC_ALL': 'C', 'TMPDIR': self.scratch,
             'TERM': 'dumb', 'INPUTRC': '/dev/null',
             # fresh and freed memory never looks like zeros by luck
             'MALLOC_PERTURB_': '153'}
        if env:
            e.update(env)
            e = {k: v for k, v in e.items() if v is not None}
        if isinstance(stdin, str):
            stdin = stdin.encode('latin-1')
        # Output goes to files, so that runaway output can't exhaust memory.
        self.n += 1
        po, pe = (os.path.join(self.scratch, 'std%s' % x) for x in ('out', 'err'))
        with open(po, 'wb') as fo, open(pe, 'wb') as fe:
            p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=fo, stderr=fe,
                                 env=e, cwd=cwd or self.scratch, start_new_session=True)
            try:
                p.communicate(stdin, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                rc = None
            except BrokenPipeError:
                p.wait()
                rc = p.returncode
        with open(po, 'rb') as f:
            out = f.read(1 << 23)
        with open(pe, 'rb') as f:
            err = f.read(1 << 23)
        return rc, out, err

    def write(self, name, data):
        p = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('latin-1'))
        return p

    def bic(self, src=None, name='t.c', opts=(), args=(), variant='plain', **kw):
        """Run a script."""
        if src is not None:
            self.write(name, src)
        env = dict(kw.pop('env', None) or {})
        if variant.startswith('asan'):
            env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:detect_stack_use_after_return=0:exitcode=99')
        return self.run([self.bins[variant]] + list(opts) + ['-s', name] + list(args), env=env, **kw)

    def repl(self, lines, opts=(), variant='plain', nofile=None, **kw):
        """A session at the prompt; nofile limits the number of open files, so that a leak shows early."""
        if variant.startswith('asan'):
            kw['env'] = dict(kw.get('env') or {})
            kw['env'].setdefault('ASAN_OPTIONS', 'detect_leaks=0:detect_stack_use_after_return=0:exitcode=99')
        text = lines if isinstance(lines, (str, bytes)) else ''.join(l + '\n' for l in lines)
        argv = [self.bins[variant]] + list(opts)
        if nofile:
            argv = ['/bin/sh', '-c', 'ulimit -Sn %d; exec "$0" "$@"' % nofile] + argv
        return self.run(argv, stdin=text, **kw)

    def make_runner(self):
        r = os.path.join(self.root, 'runner')
        subprocess.check_call(['gcc', '-O1', '-w', '-rdynamic', '-o', r, os.path.join(VERIF, 'lib', 'runner.c'), '-ldl', '-lm'])
        self.runner = r
        self.cc1 = subprocess.check_output(['gcc', '-print-prog-name=cc1']).decode().strip()

    def _compile_so(self, src, base, opts=()):
        """src -> base.so without the gcc driver (which is several times slower)."""
        self.write(base + '.c', src)
        cmd = ('%s -quiet -imultiarch x86_64-linux-gnu -w -O0 -fwrapv -fPIC -std=gnu11 %s.c -o %s.s '
               '&& as -o %s.o %s.s && ld -shared -Bsymbolic -o %s.so %s.o %s'
               % (self.cc1, base, base, base, base, base, base, ' '.join(opts)))
        return self.run(['/bin/sh', '-c', cmd], timeout=120)

    def gcc(self, src, name='o', opts=(), args=(), stdin=b'', **kw):
        """Compile and run the same program: the reference."""
        rc, out, err = self._compile_so(src, name, opts)
        if rc != 0:
            raise Invalid('gcc: ' + err.decode('latin-1')[:400])
        r = self.run([self.runner, './%s.so' % name] + list(args), stdin=stdin, **kw)
        if r[0] == 125 and r[2].startswith(b'runner:'):
            raise Invalid('gcc: ' + r[2].decode('latin-1')[:400])
        return r

    def lib(self, src, name='libt'):
        """Compile a shared library into the scratch directory; ./name.so"""
        rc, out, err = self._compile_so(src, name)
        if rc != 0:
            raise Invalid('gcc: ' + err.decode('latin-1')[:400])
        return './%s.so' % name


def show(res):
    rc, out, err = res
    return 'exit=%s stdout=%r stderr=%r' % (rc, out[-1500:], err[-600:])


def expect_same(ref, got, what='bic'):
    """Same stdout and same exit status."""
    if ref[0] is None or ref[0] < 0:
        raise Invalid('reference program failed: ' + show(ref))
    if got[0] != ref[0] or got[1] != ref[1]:
        raise Violation('%s differs from the reference\n reference: %s\n %s: %s'
                        % (what, show(ref), what, show(got)))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _worker(mod, env, idx, n, seed, stop, q, deadline):
    import random
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 30
    env.fork_scratch('w%d' % idx)
    st = {'evaluations': 0, 'invalid': 0, 'seen': set(), 'nontrivial': set(), 'samples': [],
          'features': {}, 'fail': None, 'error': None, 'late': 0, 'invalid_msg': None}

    def one(case):
        if stop.is_set() and st['fail'] is None:
            return
        if time.time() > deadline and st['fail'] is None:
            st['late'] += 1
            return
        try:
            st['evaluations'] += 1
            feats = mod.check(env, case)
        except Invalid as e:
            st['invalid'] += 1
            st['invalid_msg'] = str(e)
            hypothesis.reject()
        except Violation as e:
            st['fail'] = (case, str(e))
            stop.set()
            raise
        h = digest(case)
        if h not in st['seen']:
            st['seen'].add(h)
            if feats is None or feats is True:
                feats = ['nontrivial']
            for f in feats or ():
                st['features'][f] = st['features'].get(f, 0) + 1
            if feats:
                st['nontrivial'].add(h)
                if len(st['samples']) < 2:
                    st['samples'].append(case)

    test = given(mod.cases())(one)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate] if os.environ.get('VERIF_NOSHRINK') else
                    [Phase.generate, Phase.shrink])(test)
    test = hseed(seed * 1000003 + idx)(test)
    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Unsatisfiable as e:
        st['error'] = 'unsatisfiable: ' + str(st['invalid_msg'])
    except BaseException as e:
        if st['fail'] is None:
            st['error'] = traceback.format_exc()
    st['seen'] = len(st['seen'])
    st['nontrivial'] = list(st['nontrivial'])
    q.put((idx, st))


def known_findings(prop):
    """(kind, id, text) of the entries of known_findings.txt that concern this property."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                fid, text = rest.split(' ', 1)
                res.append((fid.split('=', 1)[1], text))
    return res


def confirm(mod, env, case):
    """Replay a failing case on fresh processes; the message if it fails 3 times of 3."""
    msg = None
    env.replaying = True
    for _ in range(3):
        try:
            mod.check(env, case)
        except Violation as e:
            msg = str(e)
            continue
        except Invalid:
            pass
        return None
    return msg


def main(mod, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
        if a.startswith('--replay='):
            replay = a.split('=', 1)[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = mod.PROP
    root = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    main_pid = os.getpid()
    atexit.register(lambda: os.getpid() == main_pid and shutil.rmtree(root, ignore_errors=True))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    try:
        # An ordinary core limit; runaway recursion is expected to end quickly.
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    os.environ['TMPDIR'] = root
    env = Env(root)
    env.tier = tier
    env.seed = seed
    for v in getattr(mod, 'VARIANTS', ['plain']):
        env.build(v)
    env.make_runner()
    env.fork_scratch('main')
    if hasattr(mod, 'setup'):
        mod.setup(env)

    if replay:
        case = json.load(open(replay))['case']
        try:
            mod.check(env, case)
        except Violation as e:
            print(e)
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            sys.exit(1)
        print('property %s holds for %s' % (prop, replay))
        sys.exit(0)

    n = mod.COUNTS[tier]
    n = int(os.environ.get('VERIF_N', n))
    limit = float(os.environ.get('VERIF_LIMIT', 420 if tier == 'quick' else 780))
    ctx = mp.get_context('fork')
    stop, q = ctx.Event(), ctx.Queue()
    per = [n // WORKERS + (1 if i < n % WORKERS else 0) for i in range(WORKERS)]
    procs = [ctx.Process(target=_worker, args=(mod, env, i, per[i], seed, stop, q, t0 + limit))
             for i in range(WORKERS) if per[i]]
    for p in procs:
        p.start()
    res = []
    for _ in procs:
        res.append(q.get())
    for p in procs:
        p.join()
    res = [s for _, s in sorted(res, key=lambda r: r[0])]

    violations = []
    fails = sorted((s['fail'] for s in res if s['fail']), key=lambda f: len(json.dumps(f[0])))
    unconfirmed = 0
    # Fixed cases that reproduce earlier failures (regression corpus) and probes.
    extra = list(getattr(mod, 'REGRESSIONS', []))
    for case in extra:
        try:
            mod.check(env, case)
        except Violation as e:
            fails.insert(0, (case, str(e)))
        except Invalid:
            pass
    for case, msg in fails:
        m = confirm(mod, env, case)
        if m is None:
            unconfirmed += 1
            continue
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop, digest(case)[:10]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'message': m, 'case': case}, f, indent=1)
        print('--- %s: property violated by:' % prop)
        text = (mod.render(case) if hasattr(mod, 'render') else
                (case['src'] if isinstance(case, dict) and 'src' in case else json.dumps(case, indent=1)))
        print(text if len(text) < 6000 else text[:3000] + '\n[...]\n' + text[-1500:])
        print(m[:6000])
        violations.append(path)
        break

    kf_out = []
    for fid, text in known_findings(prop):
        probe = getattr(mod, 'FINDINGS', {}).get(fid)
        if probe is None:
            continue
        try:
            mod.check(env, probe)
        except Violation:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
            kf_out.append(fid)
        except Invalid:
            pass

    errors = [s['error'] for s in res if s['error']]
    feats = {}
    for s in res:
        for k, v in s['features'].items():
            feats[k] = feats.get(k, 0) + v
    nontriv = set()
    for s in res:
        nontriv.update(s['nontrivial'])
    ev = sum(s['evaluations'] for s in res)
    invalid = sum(s['invalid'] for s in res)
    samples = [x for s in res for x in s['samples']][:4]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': samples,
            'classes': dict(sorted(feats.items())),
            'outside_domain': invalid,
            'not_run_time_limit': sum(s['late'] for s in res),
            'unconfirmed_failures': unconfirmed,
            'known_findings_still_failing': kf_out,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d outside domain, %.1fs'
          % (prop, tier, seed, ev, len(nontriv), invalid, time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(dict(sorted(feats.items()))))
        for s in res:
            if s['invalid_msg']:
                print('invalid:', s['invalid_msg']); break
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]))
        sys.exit(1)
    if errors:
        print(errors[0])
        print('ERROR: the check itself failed')
        sys.exit(2)
    if ev and invalid > ev / 2 and not unconfirmed:
        print('ERROR: more than half of the generated cases are invalid')
        sys.exit(2)
    sys.exit(0)
