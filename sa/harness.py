"""Command-line driver shared by all checks: obligation ledger -> verdict, evidence, replay, exit status."""
import json, os, pickle, signal, subprocess, sys, time, traceback
import expr as E
import model as M
import query as Q
from model import AnchorError

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_JOBS', '8'))

CHECKS = {}
START = float(os.environ.get('VERIF_START') or time.time())
FIRST, LAST = 430, 730      # seconds: end of the symbolic analysis, end of everything


class OutOfTime(BaseException):
    pass


def deadline(end):
    """OutOfTime is raised in this process at time end"""
    def h(*a):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, max(end - time.time(), 0.01) if end else 0)


def run_end():
    return float(os.environ.get('VERIF_END') or START + FIRST)


def subrun(args, env, end):
    """run a check as a subprocess with its own end of time; the whole process group goes when it is late"""
    env = dict(env, VERIF_START=str(START), VERIF_END=str(end))
    p = subprocess.Popen(args, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        return p.communicate(timeout=max(end - time.time(), 0) + 15)[1].decode(errors='replace')
    except BaseException as e:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        if isinstance(e, subprocess.TimeoutExpired):
            return 'time limit'
        raise


class Meta:
    pass


SIZES = ('3,3,3', '4,3,5', '2,4,3')


def check(pid, explanation, technique, assumptions=(), sizes=SIZES):
    def deco(fn):
        m = Meta()
        m.pid, m.fn, m.explanation, m.technique, m.assumptions = pid, fn, explanation, technique, list(assumptions)
        m.sizes = sizes
        CHECKS[pid] = m
        return fn
    return deco


def parallel(R, items, fn, nproc=None):
    """run fn(R_child, item) for every item in forked workers (the abstract state is shared copy-on-write);
    the children's ledgers are merged into R"""
    items = list(items)
    n = min(nproc or NPROC, len(items))
    if n <= 1:
        for it in items:
            fn(R, it)
        return
    kids = []
    sys.stdout.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                sub = Q.Report(R.pid, R.tier, R.seed)
                err = None
                try:
                    deadline(run_end())
                    for it in items[k::n]:
                        fn(sub, it)
                    deadline(None)
                except OutOfTime:
                    err = ('time', 'analysis stopped at its time limit')
                except AnchorError as e:
                    err = ('anchor', str(e))
                except BaseException:
                    err = ('error', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((sub.dump(), err), f)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    errs = []
    for i, (pid, r) in enumerate(kids):
        data = b''
        try:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
        except OutOfTime:
            for p, _ in kids[i:]:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            raise
        if not data:
            errs.append(('error', 'worker died'))
            continue
        d, err = pickle.loads(data)
        R.merge(d)
        if err:
            errs.append(err)
    if errs:
        # a definite violation outranks a worker that met something it does not understand
        for e in errs:
            if e[0] == 'anchor':
                raise AnchorError(e[1])
        for e in errs:
            if e[0] != 'time':
                raise RuntimeError(e[1])
        R.undecided('time', 'analysis', '%d workers stopped at their time limit' % len(errs))


def refine(R, m, pid, tier):
    """obligations the symbolic domain left open are re-examined with the grid sizes fixed (every loop over the grid
    is then unrolled): a definite difference found there is a violation"""
    import tempfile
    out = []
    end = START + LAST
    with tempfile.TemporaryDirectory() as d:
        runs = [(sz, '') for sz in m.sizes]
        try:
            import globs
            src = M.Source.get(REPO)
            if globs.Globs(src.mod).users(globs.library(src.mod, REPO)):
                # static objects: a fresh process, and one in which earlier calls have left their marks
                runs = [('', 'A'), ('', 'B')] + runs
        except Exception:
            pass
        for sz, gl in runs:
            if end - time.time() < 30:
                out.append({'sizes': sz, 'error': 'not run: time budget'})
                continue
            f = os.path.join(d, 'dump')
            env = dict(os.environ, VERIF_SIZES=sz, VERIF_GLOBALS=gl, VERIF_DUMP=f)
            try:
                subrun([sys.executable, os.path.join(VERIF, 'check.py'), pid, tier], env, min(end, time.time() + 200))
                dump, err = pickle.load(open(f, 'rb'))
                os.remove(f)
            except Exception as e:
                out.append({'sizes': sz, 'error': str(e)[:300]})
                continue
            out.append({'sizes': sz, 'obligations': dump['obs'], 'held': dump['held'], 'violated': dump['nviol'],
                        'statics': gl, 'error': err[-300:] if err else None})
            if dump['nviol']:
                for v in dump['viol']:
                    v['case'] = '%s (%s)' % (v['case'], 'grid ' + sz if sz else 'in a fresh process' if gl == 'A' else 'after earlier calls')
                    R.viol.append(v)
                R.nviol += dump['nviol']
                R.obs += dump['nviol']
                for n, r in dump['rules'].items():
                    R.rule(n, r['text'])
                    R.rules[n]['violated'] += r['violated']
                    R.rules[n]['obligations'] += r['violated']
                break
    return out


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):])
    return out


def key_of(v):
    return '%s @ %s: %s' % (v['rule'], v['where'].split(':')[0], v['what'])


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid not in CHECKS:
        print('unknown property', pid)
        return 2
    m = CHECKS[pid]
    E.set_seed(seed)
    t0 = time.time()
    R = Q.Report(pid, tier, seed)
    err = None
    try:
        deadline(run_end() + 8)
        m.fn(R, tier)
        deadline(None)
        if not R.obs:
            raise AnchorError('no obligation was generated')
    except OutOfTime:
        R.undecided('time', 'analysis', 'stopped at its time limit')
    except AnchorError as e:
        err = 'ANCHOR: %s' % e
    except Exception:
        err = traceback.format_exc()
    if os.environ.get('VERIF_DUMP'):
        pickle.dump((R.dump(), err), open(os.environ['VERIF_DUMP'], 'wb'))
        return 0
    fixed = []
    if err is None and not R.nviol and R.obs > R.held and m.sizes is not None:
        fixed = refine(R, m, pid, tier)
    wall = time.time() - t0
    kn = known(pid)
    fresh, old = [], []
    for v in R.viol:
        (old if key_of(v) in kn else fresh).append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fns = sorted(k for k in R.analysed if not k.startswith('#'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': m.explanation,
            'obligations': R.obs, 'discharged': R.held, 'undecided': R.obs - R.held - R.nviol,
            'rules': R.rules, 'functions_analysed': {k: R.analysed[k] for k in fns},
            'analysis_counters': {k[1:]: v for k, v in R.analysed.items() if k.startswith('#')},
            'undecided_list': R.und[:60], 'samples': R.samples, 'notes': R.notes[:40],
            'checker_cmd': 'python3 /verif/check.py %s %s' % (pid, tier),
            'trusted_base': ['clang 18 front end and mem2reg (LLVM IR of /repo/src/*.cpp)', 'the analyser in /verif/sa',
                             'models of the C and C++ library calls in sa/libmodel.py'],
        },
        'assumptions': m.assumptions, 'wall_s': round(wall, 3), 'violations': len(fresh),
    }
    if fixed:
        ev['coverage']['fixed_size_runs'] = fixed
    if err:
        ev['coverage']['error'] = err[-3000:]
        ev['coverage']['undecided'] += 1
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % pid))
    print('%s %s: %d obligations, %d held, %d undecided, %d violated, %.1f s' % (
        pid, tier, R.obs, R.held, R.obs - R.held - R.nviol, R.nviol, wall))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, key_of(v)))
    rp = os.path.join(VERIF, 'evidence', '%s.violations.txt' % pid)
    if not fresh and os.path.exists(rp):
        os.remove(rp)
    if fresh:
        rp = os.path.join(VERIF, 'evidence', '%s.violations.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s\nre-run: VERIF_SEED=%d python3 /verif/check.py %s %s\n\n' % (pid, seed, pid, tier))
            for v in fresh:
                f.write('rule      %s (%s)\nwhere     %s\nwhat      %s\ncase      %s\nexpected  %s\ngot       %s\n\n' % (
                    v['rule'], R.rules[v['rule']]['text'], v['where'], v['what'], v['case'], v['expected'], v['got']))
        for v in fresh[:5]:
            print('  %s at %s: %s [%s]' % (v['rule'], v['where'], v['what'], v['case']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        # the analysed construct is gone or outside the domain: nothing is claimed about it, and no alarm is raised
        print('UNDECIDED property=%s (no verdict for part of the obligations): %s' % (pid, err.strip().splitlines()[-1]))
    return 0
