"""C16 dependency graphs"""
import os, random, concurrent.futures as cf
from ccv import runner
from gen import build
import contracts.graph as gr
ID, LEVEL, TITLE = 'C16', 'proof', 'Dependency graphs report closure and cycles exactly'
units = gr.units
NOTE = 'Proved for every graph and every history of insertions: adding nodes and edges, lookups, dependency lists and transitive closure (soundness against every transitive relation that contains the edges, completeness, cycles real and reported exactly, new dependencies inside a node handed out exactly). The hash tables are the maps C01 proves; that the attribute map compares node and attribute, with equal hashes for equal keys, is proved here. Concrete: random histories on three interleaved graphs against a matrix closure, and attribute grammars through the real compiler. Trusted: our VC generator and z3.'
TRUSTED = ['HTnew/HTnew_Ptr/HTlookup/HTinsert: finite maps keyed by node and attribute or by pointer (C01)', 'MEMmalloc: fresh object (C18)']
ASSUMPTIONS = ['a graph is used through these functions only (its nodes are not changed from outside)', 'termination of the closure is not proved (each round adds an edge; the tests end)']
BOUNDED = ['GRdelete, GRcopy: harness under AddressSanitizer only (GRcopy is unused)', 'that the scheduler adds the right dependencies: grammars with one node through the compiler']
SAMPLES = ['this.a = {args = {this.a}} -> reported as a cycle', 'edges 0->1, 1->2, 2->0, then closing -> cycle reported, all edges follow from added ones']
def ag(rng):
    """a grammar with one node: accepted exactly when its equations are acyclic"""
    n = rng.randint(1, 7)
    deps = [sorted({rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 3]))}) for _ in range(n)]
    if rng.random() < 0.6:
        o = list(range(n)); rng.shuffle(o)
        deps = [[d for d in ds if o[d] < o[i]] for i, ds in enumerate(deps)]
        if rng.random() < 0.4:
            i = rng.randrange(n); deps[i] = deps[i] + [rng.randrange(n)]
    deps = [list(dict.fromkeys(ds)) for ds in deps]               # repeated arguments are an error
    seen = {}
    def cyc(i):
        if seen.get(i) == 1: return True
        if seen.get(i) == 2: return False
        seen[i] = 1
        r = any(cyc(d) for d in deps[i])
        seen[i] = 2
        return r
    bad = any(cyc(i) for i in range(n))
    order = list(range(n)); rng.shuffle(order)
    t = 'start phase go { actions { pass nothing; } };\nroot node leaf {\n  attributes { %s },\n  equations { %s }\n};\n' % (
        ', '.join('int a%d {synthesized}' % i for i in range(n)),
        ', '.join('this.a%d = {%s}' % (i, 'args = {%s}' % ', '.join('this.a%d' % d for d in deps[i]) if deps[i] else '') for i in order))
    return t, bad
def falsify(F, tier):
    R = runner.REPO
    exe = runner.cc(F.scratch + '/c16', [runner.VERIF + '/harness/c16.c', R + '/cocogen/frontend/attribute_scheduler/graph.c'] + [R + '/palm/src/' + f for f in ('hash_table.c', 'memory.c', 'str.c', 'ctinfo.c', 'dbug.c')])
    runner.harness(F, exe, [runner.SEED, 4000 if tier == 'quick' else 100000])
    cg = build.cocogen(F.scratch)
    rng = random.Random(runner.SEED)
    jobs = [(i,) + ag(rng) for i in range(200 if tier == 'quick' else 3000)]
    def one(j):
        i, t, bad = j
        import shutil
        d = os.path.join(F.scratch, 'ag%d' % i)
        rc, so, se = build.generate(cg, d, t)
        shutil.rmtree(d, ignore_errors=True)
        if (rc == 0) == bad or rc not in (0, 1):
            return 'grammar whose equations are %s: exit %s\n%s\n%s' % ('cyclic' if bad else 'acyclic', rc, t, se[-800:])
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            F.cases += 1
            k = 'cyclic grammars' if j[2] else 'acyclic grammars'
            F.coverage[k] = F.coverage.get(k, 0) + 1
            if r:
                F.violation(k, r)
