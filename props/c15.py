"""C15 attribute grammars"""
import os, random, shutil, multiprocessing as mp, concurrent.futures as cf
from ccv import runner
from gen import ag, build
import contracts.agprog as ap
ID, LEVEL, TITLE = 'C15', 'translation_validation', 'attribute evaluation gives every attribute the value its equation defines'
TECHNIQUE = 'contracts on the generated visit functions, derived from the equations and proved for every tree (ccv VCs, z3/cvc5), per grammar of a corpus regenerated by the current cocogen'
NOTE = 'For each grammar of a corpus, regenerated on every run, every generated visit function is proved, for all trees: what it stores in an attribute is the value the equations define (for any solution of the equations), with the right variant of the equation function for absent children and its arguments in order; an attribute is read after it was stored and marked; visits of a node come in order; after the last visit of a node each of its attributes is evaluated and each child had all its visits, so CCNevaluateAttributes evaluates the whole tree. Concrete: random grammars and trees against a demand-driven evaluator; incomplete, ambiguous and cyclic grammars have to be rejected. Trusted: our VC generator, z3, the corpus.'
TRUSTED = ['the equation functions are functions of their arguments (user code)']
ASSUMPTIONS = ['trees are finite, children are nodes of declared types and mandatory children are there (C12)', 'a data block belongs to one node (C11)', 'the corpus of grammars stands for all grammars: random ones whose equations use attributes of lower rank, so that they have exactly one solution; per grammar the proof is for all trees']
BOUNDED = ['random grammars, also circular ones: accepted ones evaluated on random trees and compared with a demand-driven evaluator', 'rejection of incomplete, ambiguous and circular grammars']
SAMPLES = ['CCNvisit_ndp_1: "attribute ata gets the value its equation defines"', '"after the last visit of Ndp: its attribute atg is evaluated"']

def quick():
    return runner.TIER == 'quick'
def corpus():
    """grammars with something to evaluate; they can all be ordered"""
    out, i = [], 0
    n = 12 if quick() else 100
    while len(out) < n:
        g = ag.rand_ag(i, False, True, 1 + i % 5)
        if ag.evaluated(g):
            out.append(g)
        i += 1
    return out + [ag.plan_ag(i) for i in (PLANS if quick() else sorted(set(PLANS) | set(range(60))))] + [ag.chain_ag(i) for i in (CHAINS if quick() else sorted(set(CHAINS) | set(range(60)) - UNORDERED))]
PLANS = (148, 170, 93, 118, 110, 89, 1, 4, 5, 6, 7, 8)
CHAINS = (0, 1, 2, 3, 88, 141, 145, 254)
UNORDERED = {40}
def _infer(g, scratch, q):
    try:
        d, vt, rc, msg = ap.program(g, scratch)
        q.put((g.seed, ap.infer(g, d, vt)))
    except Exception as e:
        q.put((g.seed, 'failed: %r' % e))
def units(scratch):
    gs = []
    build.cocogen(scratch)
    for g in corpus():
        d, vt, rc, msg = ap.program(g, scratch)
        if vt:
            gs.append((g, d, vt))
    ctx = mp.get_context('fork')
    res, todo, run = {}, list(gs), []
    q = ctx.Queue()
    while todo or run:
        while todo and len(run) < 8:
            g = todo.pop(0)[0]
            p = ctx.Process(target=_infer, args=(g, scratch, q)); p.start(); run.append(p)
        try:
            s, r = q.get(timeout=0.2)
            res[s] = r
        except Exception:
            pass
        run = [p for p in run if p.is_alive()]
    while not q.empty():
        s, r = q.get(); res[s] = r
    us = []
    for (g, d, vt) in gs:
        us.append(ap.unit(g, d, vt, res.get(g.seed)))
    return us

def falsify(F, tier):
    cg, palm = build.cocogen(F.scratch), build.palm(F.scratch)
    drv = runner.VERIF + '/harness/ag_driver.c'
    jobs = [('corpus', g) for g in corpus()]
    jobs += [('acyclic', ag.rand_ag(i, False, True, 1 + i % 6)) for i in range(20000, 20000 + (110 if tier == 'quick' else 1500))]
    jobs += [('several visits', ag.chain_ag(i)) for i in range(1000, 1140 if tier == 'quick' else 4000)]
    jobs += [('planned', ag.plan_ag(i)) for i in range(1000, 1240 if tier == 'quick' else 4000)]
    jobs += [('any', ag.rand_ag(i, True, True, 1 + i % 4)) for i in range(30000, 30000 + (50 if tier == 'quick' else 1000))]
    rng = random.Random(runner.SEED)
    bad = []
    for i in range(200 if tier == 'quick' else 2500):
        b = ag.broken(ag.rand_ag(40000 + i, False, True, 1 + i % 4), rng)
        if b:
            bad.append(b)
    def one(j):
        i, (kind, g) = j
        d = os.path.join(F.scratch, 'r%d' % i)
        t = ag.to_ccn(g)
        try:
            rc, so, se = build.generate(cg, d, t)
            if rc == 1 and kind != 'corpus':
                return None, 0, 'rejected'
            if rc:
                return ('rejected' if rc == 1 else 'crash', 'cocogen ended with %s\n%s\n%s' % (rc, t, se[-1500:])), 0, ''
            if not ag.evaluated(g):
                return None, 0, 'nothing to evaluate'
            open(d + '/user.c', 'w').write(ag.emit(g, ag.protos(d)))
            o = d + '/out'
            import subprocess
            p = subprocess.run(['gcc', '-w', '-g', '-O0'] + runner.ASAN + (['-DNDEBUG'] if i % 2 else []) + build.cflags(d) + [o + '/ast.c', o + '/ag.c', o + '/visit.c', d + '/user.c', drv] + palm + ['-o', d + '/exe', '-lm'], capture_output=True, text=True)
            if p.returncode:
                return ('compile', 'the generated code does not compile: %s\n--- grammar\n%s' % (p.stderr[-1500:], t)), 0, ''
            rc, so, se = runner.run([d + '/exe', str(runner.SEED), '150' if tier == 'quick' else '500'], 100)
            n = sum(int(x.split()[1]) for x in so.split('\n') if x.startswith('CASES'))
            if 'FAIL ' in so:
                k, _, m = so[so.index('FAIL ') + 5:].partition(' | ')
                return (k, '%s\n--- grammar\n%s' % (m, t)), n, ''
            if rc:
                return ('crash', 'the evaluation ended with %s\n%s\n--- grammar\n%s' % (rc, (so + se)[-2500:], t)), n, ''
            return None, n, 'evaluated'
        finally:
            shutil.rmtree(d, ignore_errors=True)
    def neg(j):
        i, (what, t) = j
        d = os.path.join(F.scratch, 'n%d' % i)
        rc, so, se = build.generate(cg, d, t)
        shutil.rmtree(d, ignore_errors=True)
        if rc != 1 or 'error' not in se + so:
            return '%s: cocogen ended with %s\n%s\n%s' % (what, rc, t, se[-1200:])
    with cf.ThreadPoolExecutor(8) as ex:
        for (kind, g), (v, n, cov) in zip(jobs, ex.map(one, enumerate(jobs))):
            F.cases += n
            if cov:
                k = '%s grammars %s' % (kind, cov); F.coverage[k] = F.coverage.get(k, 0) + 1
            if v:
                F.violation(*v)
        for (what, t), r in zip(bad, ex.map(neg, enumerate(bad))):
            F.cases += 1
            F.coverage[what] = F.coverage.get(what, 0) + 1
            if r:
                F.violation('accepted: ' + what, r)
