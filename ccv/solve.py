"""Discharging obligations: z3 (E-matching), z3 (with MBQI), cvc5."""
import subprocess, tempfile, os, time
import z3

RL_PER_MS = 6000          # solver effort is limited by z3's deterministic resource counter;
                          # the wall-clock limit is only a safety net

_nv = {}
def nbound(f):
    """largest number of variables bound by one quantifier in f"""
    i = f.get_id()
    r = _nv.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    v = 0
    if z3.is_quantifier(f):
        v = max(f.num_vars(), nbound(f.body())) if not f.is_lambda() else 1
    else:
        for c in f.children():
            v = max(v, nbound(c))
    _nv[i] = (f, v)
    return v

def light(hyps):
    return [h for h in hyps if nbound(h) < 2]

def z3_check(axioms, hyps, goal, timeout, mbqi, seed=0):
    s = z3.SimpleSolver()
    s.set('timeout', timeout * 6 + 2000)
    s.set('rlimit', timeout * RL_PER_MS)
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    if seed:
        s.set("random_seed", seed)
    for a in axioms:
        s.add(a)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s

def cvc5_check(s, timeout):
    text = s.to_smt2()
    text = '(set-logic ALL)\n' + text
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(text); f.close()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        return p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)

def discharge(eng, ob, budgets=(4000, 8000), use_cvc5=True):
    t0 = time.time()
    lh = light(ob.hyps) if eng.opts.get('light', True) else ob.hyps
    r = z3.unknown
    if len(lh) < len(ob.hyps):
        r, s = z3_check(eng.axioms, lh, ob.goal, 400, False)
    if r != z3.unsat:
        r, s = z3_check(eng.axioms, ob.hyps, ob.goal, budgets[0], False)
    if r == z3.unsat:
        ob.status, ob.backend = 'proved', 'z3'
    else:
        r2, s2 = z3_check(eng.axioms, ob.hyps, ob.goal, budgets[1], True)
        if r2 == z3.unsat:
            ob.status, ob.backend = 'proved', 'z3-mbqi'
        elif use_cvc5 and r2 != z3.sat and cvc5_check(s, 8000) == 'unsat':
            ob.status, ob.backend = 'proved', 'cvc5'
        else:
            ob.status = 'failed'
            ob.backend = 'z3'
            ob.detail = 'z3: %s' % r2
            if r2 == z3.sat:
                try:
                    m = s2.model()
                    ob.detail += ' model: ' + ', '.join(
                        '%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and str(m[d]).lstrip('-').isdigit())[:1500]
                except Exception:
                    pass
            else:
                ob.detail += ' (%s)' % s2.reason_unknown()
    ob.time = time.time() - t0
    return ob

def vacuity(eng, hyps, timeout=1500):
    """True when the hypotheses are NOT contradictory as far as the back end can tell"""
    r, s = z3_check(eng.axioms, hyps, z3.BoolVal(False), timeout, False)
    return r != z3.unsat
