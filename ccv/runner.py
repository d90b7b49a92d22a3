"""Runs one check: the proof (functions under contract, in parallel) and the
concrete falsifier over the same real sources, and turns both into a verdict."""
import json, os, re, sys, time, traceback, tempfile, subprocess, shutil, hashlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCV_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
INC = ['-I%s/palm/include' % REPO, '-I%s/copra' % REPO, '-I%s/cocogen' % REPO, '-I%s/cocogen/ccngen' % REPO]
FLAGS = ['-DNDEBUG'] + INC

class Unit:
    """functions of one translation unit (plus the units its inlined callees live in)"""
    def __init__(self, name, sources, contracts, functions=None, flags=None, engine=None, thorough_only=False,
                 budget=240, vacuity=True):
        self.name = name
        self.sources = sources
        self.contracts = contracts      # () -> dict
        self.functions = functions      # None: all of contracts that are not trusted
        self.flags = flags or FLAGS
        self.engine = engine or {}      # kwargs for Engine, or callable(tus) -> kwargs
        self.budget = budget
        self.vacuity = vacuity

def _prove_one(args):
    unit, fn = args
    from . import front, solve
    from .exec import Engine
    t0 = time.time()
    res = {'unit': unit.name, 'fn': fn, 'status': 'ok', 'obligations': 0, 'discharged': 0, 'failed': [], 'backends': {},
           'solver_s': 0.0, 'notes': [], 'inlined': [], 'trusted': [], 'loops': [], 'contracts': []}
    try:
        tus = [front.load(s if s.startswith('/') else os.path.join(REPO, s), unit.flags) for s in unit.sources]
        C = unit.contracts(tus) if unit.contracts.__code__.co_argcount else unit.contracts()
        kw = unit.engine(tus) if callable(unit.engine) else dict(unit.engine)
        attempt = 0
        while True:
            eng = Engine(tus, C, **kw)
            if attempt:
                eng.opts = dict(eng.opts); eng.opts['houdini_timeout'] = 4000
            eng.deadline = t0 + unit.budget
            obs = eng.verify(fn)
            failed = []
            for ob in obs:
                b = (4000, 4000) if not attempt else (12000, 6000)
                solve.discharge(eng, ob, b)
                if ob.status != 'proved':
                    failed.append(ob)
                    if not attempt:
                        break
                if time.time() - t0 > unit.budget * (1 if not attempt else 2):
                    break
            if not failed or attempt or time.time() - t0 > unit.budget:
                break
            attempt += 1
        res['attempts'] = attempt + 1
        st = eng.stat
        res['obligations'] = st['obligations'] + len(obs)
        res['discharged'] = st['discharged'] + sum(1 for o in obs if o.status == 'proved')
        be = dict(st['backends'])
        for o in obs:
            if o.status == 'proved':
                be[o.backend] = be.get(o.backend, 0) + 1
        res['backends'] = be
        res['solver_s'] = st['solver_s'] + sum(o.time for o in obs)
        res['failed'] = [{'obligation': o.label, 'kind': o.kind, 'detail': o.detail} for o in failed]
        left = [o for o in obs if o.status is None]
        if left and not failed:
            res['status'] = 'undecided'
            res['why'] = 'time budget: %d obligations not attempted' % len(left)
        elif failed:
            res['status'] = 'failed'
        elif unit.vacuity:
            # the preconditions together with the path conditions of at least one exit must be satisfiable
            # (as far as the back end can refute)
            ok = any(solve.vacuity(eng, s.pc) for s in eng.retstates) if eng.retstates else True
            if not ok:
                res['status'] = 'failed'
                res['failed'] = [{'obligation': 'contract is not vacuous (some exit is reachable)', 'kind': 'vacuity', 'detail': ''}]
        res['notes'] = sorted(eng.notes); res['inlined'] = sorted(eng.inlined)
        res['trusted'] = sorted(eng.trusted_used); res['contracts'] = sorted(eng.used_contracts)
        res['loops'] = [[n, l] for (n, l) in getattr(eng, 'looplog', [])]
    except front.Unsupported as e:
        res['status'] = 'undecided'; res['why'] = 'outside the verifier: %s' % e
    except front.FrontError as e:
        res['status'] = 'undecided'; res['why'] = str(e)
    except RecursionError as e:
        res['status'] = 'undecided'; res['why'] = 'recursion depth'
    except Exception as e:
        if os.environ.get('CCV_DEBUG'):
            traceback.print_exc()
        res['status'] = 'undecided'; res['why'] = 'verifier error: %s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3:-1])
    res['wall'] = time.time() - t0
    return res

def _child(job, path):
    sys.setrecursionlimit(20000)
    r = _prove_one(job)
    with open(path + '.tmp', 'w') as f:
        json.dump(r, f)
    os.rename(path + '.tmp', path)

def _blank(j, why):
    return {'unit': j[0].name, 'fn': j[1], 'status': 'undecided', 'why': why, 'obligations': 0, 'discharged': 0, 'failed': [],
            'backends': {}, 'solver_s': 0, 'notes': [], 'inlined': [], 'trusted': [], 'loops': [], 'wall': 0}

def prove(units, only=None, jobs=8, hard=420, stop=None):
    """each function in its own process; a process past `hard` seconds is stopped -> undecided"""
    jobs_l = []
    for u in units:
        fns = u.functions
        if fns is None:
            fns = [n for n, c in u.contracts().items() if not c.trusted]
        for fn in fns:
            if only and fn not in only:
                continue
            jobs_l.append((u, fn))
    tmp = tempfile.mkdtemp(prefix='ccv')
    results = []
    run = []
    pend = list(enumerate(jobs_l))
    ctx = mp.get_context('fork')
    try:
        while pend or run:
            while pend and len(run) < jobs:
                i, j = pend.pop(0)
                path = os.path.join(tmp, str(i))
                p = ctx.Process(target=_child, args=(j, path))
                p.start()
                run.append((p, j, path, time.time()))
            nxt = []
            halt = stop() if stop else False
            if halt:
                for (i, j) in pend:
                    results.append(_blank(j, 'not attempted: a concrete failing input was found'))
                pend = []
            for (p, j, path, t0) in run:
                if os.path.exists(path):
                    p.join()
                    results.append(json.load(open(path)))
                elif not p.is_alive():
                    p.join()
                    if os.path.exists(path):
                        results.append(json.load(open(path)))
                    else:
                        results.append({'unit': j[0].name, 'fn': j[1], 'status': 'undecided', 'why': 'prover process ended (%s)' % p.exitcode,
                                        'obligations': 0, 'discharged': 0, 'failed': [], 'backends': {}, 'solver_s': 0, 'notes': [],
                                        'inlined': [], 'trusted': [], 'loops': [], 'wall': time.time() - t0})
                elif halt:
                    p.kill(); p.join()
                    results.append(_blank(j, 'stopped: a concrete failing input was found'))
                elif time.time() - t0 > max(hard, j[0].budget * 2 + 60):
                    p.kill(); p.join()
                    results.append({'unit': j[0].name, 'fn': j[1], 'status': 'undecided', 'why': 'time limit', 'obligations': 0,
                                    'discharged': 0, 'failed': [], 'backends': {}, 'solver_s': 0, 'notes': [], 'inlined': [],
                                    'trusted': [], 'loops': [], 'wall': time.time() - t0})
                else:
                    nxt.append((p, j, path, t0))
            run = nxt
            time.sleep(0.02)
    finally:
        for (p, *_r) in run:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return results

# ---------------------------------------------------------------- falsifier
class Fals:
    """collects what the concrete (bounded) side did"""
    def __init__(self, pid, scratch):
        self.pid = pid; self.scratch = scratch
        self.violations = []      # (key, text)
        self.cases = 0
        self.coverage = {}
        self.errors = []
    def violation(self, key, text):
        self.violations.append((key, text))

ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-g', '-O1']
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',
       'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=78', 'LC_ALL': 'C', 'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
       'HOME': '/nonexistent'}

def cc(out, sources, flags=(), cc='gcc', san=True, timeout=300, link=()):
    cmd = [cc] + (ASAN if san else ['-O1', '-g']) + ['-w', '-DNDEBUG'] + INC + list(flags) + list(sources) + ['-o', out] + list(link)
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError('compile failed: ' + ' '.join(cmd[:3]) + ' ..\n' + p.stderr[-3000:])
    return out

def cc_many(outdir, sources, flags=(), compiler='gcc', san=True, jobs=8):
    """compile each source to an object, in parallel"""
    os.makedirs(outdir, exist_ok=True)
    objs = []
    run = []
    errs = []
    def reap(block):
        nonlocal run
        while run and (block or len(run) >= jobs):
            p, c = run.pop(0)
            o, e = p.communicate()
            if p.returncode != 0:
                errs.append(' '.join(c) + '\n' + e.decode()[-2000:])
    for i, s in enumerate(sources):
        o = os.path.join(outdir, '%03d_%s.o' % (i, os.path.basename(s)))
        c = [compiler] + (ASAN if san else ['-O1', '-g']) + ['-w', '-DNDEBUG'] + INC + list(flags) + ['-c', s, '-o', o]
        reap(False)
        run.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE), c))
        objs.append(o)
    reap(True)
    if errs:
        raise RuntimeError('compile failed: ' + errs[0])
    return objs

def run(cmd, timeout=120, cwd=None, stdin=None, env=None):
    e = dict(ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, cwd=cwd, input=stdin, env=e)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode('utf8', 'replace'), (ex.stderr or b'').decode('utf8', 'replace')

def harness(F, exe, args=(), timeout=200, what=''):
    """A harness prints 'CASES n', and for a failing case 'FAIL key | text'; a crash or a
    sanitizer report is a failure of the case it announced last with 'AT text'."""
    rc, out, err = run([exe] + [str(a) for a in args], timeout)
    at = ''
    for ln in out.split('\n'):
        if ln.startswith('CASES '):
            p = ln.split()
            F.cases += int(p[1])
            if len(p) > 2:
                F.coverage[what + p[2]] = F.coverage.get(what + p[2], 0) + int(p[1])
        elif ln.startswith('FAIL '):
            key, _, text = ln[5:].partition(' | ')
            F.violation(key.strip(), 'harness %s %s\n%s' % (os.path.basename(exe), ' '.join(map(str, args)), text))
        elif ln.startswith('AT '):
            at = ln[3:]
    if rc == 'timeout':
        F.violation('hang', 'harness %s %s did not end in %ss; last case: %s' % (os.path.basename(exe), ' '.join(map(str, args)), timeout, at))
    elif rc != 0 and not any(l.startswith('FAIL ') for l in out.split('\n')):
        F.violation('crash', 'harness %s %s ended with %s; last case: %s\n%s' % (os.path.basename(exe), ' '.join(map(str, args)), rc, at, err[-3500:]))
    return rc, out, err

def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    known = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                d = dict(x.split('=', 1) for x in ln[8:].strip().split(' | ')[0].split() if '=' in x)
                known.append((d.get('property'), d.get('key'), ln.split(' | ', 1)[1] if ' | ' in ln else ''))
    return known

def main(prop, tier=None):
    """prop: module with ID, LEVEL, UNITS, falsify(F, tier), TRUSTED, ASSUMPTIONS, BOUNDED"""
    t0 = time.time()
    tier = tier or TIER
    pid = prop.ID
    scratch = tempfile.mkdtemp(prefix='ccv_%s_' % pid)
    out_dir = os.path.join(VERIF, 'out')
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    F = Fals(pid, scratch)
    known = [k for k in load_known() if k[0] == pid]
    try:
        nounits = []
        try:
            units = prop.units(scratch) if hasattr(prop, 'units') else getattr(prop, 'UNITS', [])
        except Exception as e:
            if os.environ.get('CCV_DEBUG'):
                traceback.print_exc()
            # the concrete side still runs, and decides if it finds a failing input
            units = []
            nounits.append(('all units', '-', '%s: %s' % (type(e).__name__, str(e)[-1500:])))
        ferr = []
        def fals():
            try:
                if hasattr(prop, 'falsify'):
                    prop.falsify(F, tier)
            except Exception as e:
                ferr.append('%s: %s' % (type(e).__name__, e))
                if os.environ.get('CCV_DEBUG'):
                    traceback.print_exc()
        # the falsifier runs as a child process so that proof workers can be forked safely
        rfile = os.path.join(scratch, 'fals.json')
        ctx = mp.get_context('fork')
        def fchild():
            fals()
            json.dump({'v': F.violations, 'cases': F.cases, 'cov': F.coverage, 'err': ferr + F.errors}, open(rfile, 'w'))
        fp = ctx.Process(target=fchild)
        fp.start()
        seen = []
        def stop():
            # a concrete violation decides; give the proofs 45 s more to name the obligation
            if not seen and os.path.exists(rfile) and not fp.is_alive():
                d = json.load(open(rfile))
                if [v for v in d['v'] if (pid, v[0]) not in [(k[0], k[1]) for k in known]]:
                    seen.append(time.time())
            return bool(seen) and time.time() - seen[0] > 45
        results = prove(units, jobs=int(os.environ.get('CCV_JOBS', '7')), stop=stop)
        fp.join(600)
        if fp.is_alive():
            fp.kill(); fp.join()
            ferr.append('falsifier time limit')
        if os.path.exists(rfile):
            d = json.load(open(rfile))
            F.violations = [tuple(v) for v in d['v']]; F.cases = d['cases']; F.coverage = d['cov']; ferr = d['err']
        elif not ferr:
            ferr.append('falsifier ended early')
    finally:
        if not os.environ.get('CCV_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
    failed = [(r['unit'], r['fn'], f) for r in results for f in r['failed'] if r['status'] == 'failed']
    undecided = [(r['unit'], r['fn'], r.get('why', '')) for r in results if r['status'] == 'undecided'] + nounits
    # known findings
    kf = []
    def is_known(key):
        for (_, k, txt) in known:
            if k == key:
                kf.append((k, txt)); return True
        return False
    viol = [v for v in F.violations if not is_known(v[0])]
    failed = [f for f in failed if not is_known('%s:%s' % (f[1], f[2]['obligation']))]
    for (k, txt) in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    rc = 0
    if viol or failed:
        rc = 1
        path = os.path.join(out_dir, '%s-replay.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: %s\n' % (pid, getattr(prop, 'TITLE', '')))
            f.write('re-run: cd %s && VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s\n\n' % (VERIF, SEED, tier, pid))
            for (k, t) in viol[:20]:
                f.write('FAILING INPUT [%s]\n%s\n\n' % (k, t))
            for (u, fn, o) in failed[:60]:
                f.write('FAILED OBLIGATION %s / %s: [%s] %s\n    %s\n' % (u, fn, o['kind'], o['obligation'], o['detail']))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if viol else ' no-failing-input-found'))
        for (k, t) in viol[:3]:
            print('  input: [%s] %s' % (k, t[:400].replace('\n', ' / ')))
        for (u, fn, o) in failed[:8]:
            print('  obligation: %s: %s (%s)' % (fn, o['obligation'], o['detail'][:120]))
    proved = [r for r in results if r['status'] == 'ok']
    be = {}
    for r in results:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
    ob = sum(r['obligations'] for r in results); di = sum(r['discharged'] for r in results)
    trusted = {t for r in results for t in r['trusted']}
    gen = {t for t in trusted if re.match(r'EVAL[a-z]+_', t)}
    trusted = list(getattr(prop, 'TRUSTED', [])) + sorted(trusted - gen) + (['the %d generated equation prototypes EVAL* (user code)' % len(gen)] if gen else [])
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'python3-vt /verif/check.py %s (ccv VC generator; back ends z3 5.3.2, cvc5 1.1.2)' % pid,
        'trusted_base': trusted or ['none'],
        'functions_under_contract': ['%s: %s' % (r['unit'], r['fn']) for r in proved],
        'functions_inlined': sorted({i for r in proved for i in r['inlined']}),
        'functions_undecided_bounded_only': ['%s: %s (%s)' % u for u in undecided] + list(getattr(prop, 'BOUNDED', [])),
        'backends': be, 'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
        'loop_invariants': {r['fn']: r['loops'] for r in proved if r['loops']},
        'bounded_falsifier_cases': F.cases, 'bounded_falsifier': F.coverage,
        'evaluations': F.cases, 'distinct_nontrivial': F.cases,
        'rule': getattr(prop, 'RULE', 'seeded generation against an executable specification; every case executes the real functions'),
        'samples': getattr(prop, 'SAMPLES', []) or ['see harness/'],
        'explanation': getattr(prop, 'EXPLAIN', ''),
        'programs': F.coverage.get('programs', 0), 'disagreements_checked': F.cases,
    }
    if not units:
        cov.pop('obligations'); cov.pop('discharged')
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': prop.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])) + sorted({n for r in results for n in r['notes']}) +
          (['falsifier could not run: ' + '; '.join(ferr)[:600]] if ferr else []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(failed)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions proved, %d undecided, %d/%d obligations discharged, %d concrete cases, %.1f s' %
          (pid, len(proved), len(undecided), di, ob, F.cases, time.time() - t0))
    for u in undecided:
        print('  undecided %s: %s (%s)' % u)
    if ferr:
        print('  falsifier: ' + '; '.join(ferr)[:2000])
    if rc == 0 and nounits and ferr:
        return 2                                                 # nothing could be decided at all
    return rc
