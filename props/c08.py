"""C08 accept / reject"""
import os, concurrent.futures as cf
from ccv import runner
from gen import spec, build, mutate
import contracts.frontend as fr
ID, TITLE = 'C08', 'only well-formed specifications are accepted'

units = fr.units
LEVEL = 'proof'
NOTE = 'Proved for every specification tree and every name: the two operations on name tables (lookup ignoring case, extension), and, per handler of the three checking traversals, that an error is counted exactly when its name is bound already, or its reference is not bound or of the wrong kind, that names are bound afterwards, that the check goes on in the children, and that both traversals return only without errors. Concrete: ~1600 specifications with one error each (or harmless look-alikes) through the real compiler: verdict, diagnostics, no output. Trusted: the generated accessors are distinct fields, traversal of children as induction hypothesis, our VC generator and z3.'
TRUSTED = ['MEMmalloc: fresh object', 'accessors of the compiler\'s own tree are distinct fields (C11 proves this for generated code of the corpus)', 'STReq compares contents (C02)', 'CTI/CTIobj count errors and CTIabortOnError stops if there are any (C17)',
           'TRAVchildren and the TRAV<child> functions run the handlers of the children: induction hypothesis = the postconditions of the handlers (C03 proves the dispatch)', 'id_to_info, CCNfree, TRAVstart(.., TRAV_free): no effect on the tables in use']
ASSUMPTIONS = ['the tree is as the parser builds it: names of definitions are there, references are there where a type is named', 'strings of names are not changed in place', 'the lists of reserved words keep their initial values', 'list of enum values is finite']
BOUNDED = ['lifetime targets and set expressions of wrong kind, misplaced targets, no output files and diagnostics: one-error specifications only', 'the parser']
SAMPLES = ['a phase with the node n1 as an action -> exit 1, "Not a phase, pass or traversal", no file written']
def files(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(d, 'out')) for f in fs if f.endswith(('.c', '.h'))]
def falsify(F, tier):
    cg = build.cocogen(F.scratch)
    n = 1600 if tier == 'quick' else 20000
    def one(i):
        sp, m, d, good = mutate.case(80000 + i)
        w = os.path.join(F.scratch, 'm%d' % i)
        text = spec.to_ccn(sp, sp.seed, inline=i % 2 == 0)
        rc, so, se = build.generate(cg, w, text)
        out = files(w)
        import shutil
        shutil.rmtree(w, ignore_errors=True)
        t = '%s\n--- specification\n%s--- exit %s, %d files, stderr\n%s' % (d, text, rc, len(out), se[-1200:])
        if rc == 'timeout' or 'Sanitizer' in se or (isinstance(rc, int) and (rc < 0 or rc >= 128)):
            return m, ('crash', 'cocogen breaks down on: ' + t)
        if good:
            return m, None if rc == 0 and out else ('rejected', 'a specification without errors is not accepted: ' + t)
        if rc == 0:
            return m, ('accepted', 'a specification with an error is accepted: ' + t)
        if not se.strip():
            return m, ('silent', 'rejected without a diagnostic: ' + t)
        if out:
            return m, ('files', 'generated code is written for a rejected specification (%s): %s' % (os.path.relpath(out[0], w), t))
        return m, None
    with cf.ThreadPoolExecutor(8) as ex:
        for m, r in ex.map(one, range(n)):
            F.cases += 1
            F.coverage[m] = F.coverage.get(m, 0) + 1
            if r:
                F.violation(r[0] + ' ' + m, r[1])
