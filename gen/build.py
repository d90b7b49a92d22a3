"""builds cocogen from /repo and the program generated for a specification"""
import os, subprocess, concurrent.futures as cf
from ccv import runner
from . import spec as S, emit as E

REPO = runner.REPO

def cocogen(scratch, build_type='Debug'):
    """cocogen from the current tree (AddressSanitizer build); returns path"""
    b = os.path.join(scratch, 'cocogen_' + build_type)
    os.makedirs(b, exist_ok=True)
    # the repository's build files are used as they are; the build happens outside /repo
    for cmd in (['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=' + build_type], ['ninja', '-C', b, 'cocogen']):
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise RuntimeError('building cocogen failed: ' + (p.stdout + p.stderr)[-2500:])
    return os.path.join(b, 'cocogen', 'cocogen')

ENV = dict(runner.ENV)

def generate(cg, d, text, name='a.ccn', timeout=60):
    """runs cocogen in d; (exit status or 'timeout', stdout, stderr)"""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name), 'w') as f:
        f.write(text)
    return runner.run([cg, '--gen-dir', 'out', name], timeout, cwd=d)

def cflags(d):
    o = os.path.join(d, 'out')
    return ['-Werror=implicit-function-declaration', '-Werror=int-conversion', '-I' + o, '-I' + REPO + '/palm/include', '-I' + REPO + '/copra', '-I' + runner.VERIF + '/harness', '-I' + d]

WRAP = '-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc'

def palm(scratch):
    d = os.path.join(scratch, 'palmobj')
    return runner.cc_many(d, [REPO + '/palm/src/' + f for f in sorted(os.listdir(REPO + '/palm/src')) if f.endswith('.c')])

def compile_spec(d, palmobjs, ndebug, real_pd, san=True):
    o = os.path.join(d, 'out')
    src = [os.path.join(o, f) for f in sorted(os.listdir(o)) if f.endswith('.c')]
    src += [REPO + '/copra/src/' + f for f in sorted(os.listdir(REPO + '/copra/src')) if f.endswith('.c') and (real_pd or f != 'phase_driver.c')]
    src += [os.path.join(d, 'meta.c'), runner.VERIF + '/harness/gen_driver.c']
    exe = os.path.join(d, 'driver_pd' if real_pd else 'driver')
    objs = []
    od = os.path.join(d, 'obj_pd' if real_pd else 'obj')
    os.makedirs(od, exist_ok=True)
    for i, s in enumerate(src):
        ob = os.path.join(od, '%02d_%s.o' % (i, os.path.basename(s)))
        c = ['gcc'] + (runner.ASAN if san else ['-g']) + ['-O0', '-w'] + (['-DNDEBUG'] if ndebug else []) + (['-DREAL_PD'] if real_pd else []) + cflags(d) + ['-c', s, '-o', ob]
        p = subprocess.run(c, capture_output=True, text=True, timeout=120)
        if p.returncode:
            return None, '%s\n%s' % (os.path.basename(s), p.stderr[-1500:])
        objs.append(ob)
    p = subprocess.run(['gcc'] + (runner.ASAN if san else ['-g']) + objs + palmobjs + ['-o', exe, WRAP, '-lm'], capture_output=True, text=True, timeout=120)
    if p.returncode:
        return None, 'link\n' + p.stderr[-1500:]
    return exe, ''

class Campaign:
    """specs x modes; every failure becomes a violation that carries the specification"""
    def __init__(self, F, specs, modes, cases, real_pd=False, jobs=8, key_ok=None):
        self.F, self.specs, self.modes, self.cases, self.real_pd, self.jobs, self.key_ok = F, specs, modes, cases, real_pd, jobs, key_ok
    def one(self, i, sp):
        out = []
        d = os.path.join(self.F.scratch, 'spec%d' % i)
        text = S.to_ccn(sp, sp.seed, inline=sp.seed % 2 == 0)
        rc, so, se = generate(self.cg, d, text)
        if rc != 0:
            return [('rejected', 'a specification without errors is not accepted (exit %s)\n%s\n--- stderr\n%s' % (rc, text, se[-1500:]))], 0, {}
        open(os.path.join(d, 'meta.c'), 'w').write(E.emit(sp))
        exe, err = compile_spec(d, self.palm, i % 2 == 1, self.real_pd)
        if not exe:
            return [('compile', 'the generated code does not compile: %s\n--- specification\n%s' % (err, text))], 0, {}
        n, cov = 0, {}
        for mode in self.modes:
            rc, so, se = runner.run([exe, mode, str(runner.SEED), str(self.cases)], 150)
            at, fl = '', False
            for ln in so.split('\n'):
                if ln.startswith('CASES '):
                    n += int(ln.split()[1]); cov[mode] = cov.get(mode, 0) + int(ln.split()[1])
                elif ln.startswith('FAIL '):
                    fl = True
                    k, _, t = ln[5:].partition(' | ')
                    out.append((k.strip(), '%s\n--- driver %s seed %d, specification\n%s' % (t, mode, runner.SEED, text)))
                elif ln.startswith('AT '):
                    at = ln
            if rc == 'timeout' or (rc != 0 and not fl):
                out.append(('crash' if rc != 'timeout' else 'hang', 'driver %s ended with %s (%s)\n%s\n--- specification\n%s' % (mode, rc, at, se[-2500:], text)))
        return out, n, cov
    def run(self):
        self.cg = cocogen(self.F.scratch)
        self.palm = palm(self.F.scratch)
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            for out, n, cov in ex.map(lambda x: self.one(*x), enumerate(self.specs)):
                self.F.cases += n
                self.F.coverage['programs'] = self.F.coverage.get('programs', 0) + 1
                for k, v in cov.items():
                    self.F.coverage[k] = self.F.coverage.get(k, 0) + v
                for k, t in out:
                    if self.key_ok is None or self.key_ok(k):
                        self.F.violation(k, t)
