"""C04, C05, C06: the phase driver (copra/src/phase_driver.c).

The declared structure (actions, phases, action tables) is immutable.  END(T) is the
length of a terminated action table, GET the action of an id, SIZE(a) the number of
actions in the sub-structure of a (itself included).  Code of actions, of gates and of
the generated tree check may use the documented API (signal, change the configuration),
except that it does not change the breakpoint and does not start another run.

ghosts   N   notifications so far         PE  phase errors signalled so far
         NODE result of the last step     PH  what happened in this activation"""
import z3
from ccv import runner
from ccv.exec import *
from contracts.bytemem import *
import contracts.bytemem as bm

PD = z3.Int('&phase_driver')
def F(n): return 'phase_driver.' + n
def pd(h, n): return h.f(F(n), PD)
GET = z3.Function('action_of_id', I, I)
END = z3.Function('table_end', I, I)
SIZE = z3.Function('action_size', I, I)
PS = z3.Function('prefix_size', I, I, I)
EQCI = z3.Function('eqci', I, I, z3.BoolSort())
TYPE0, TAB0, MEMT0 = z3.Const('ccn_action.type@0', AII), z3.Const('ccn_phase.action_table@0', AII), z3.Const('mem:i32u@0', AII)
N, PE, NODE, PH, POS, RND, GATE, FREED, SP, CHK, RN, BH = ['ghost:' + x for x in ('notify', 'phase_errors', 'node', 'ph', 'pos', 'rounds', 'gate', 'freed', 'started', 'check', 'round_notify', 'handled')]
GH = [N, PE, NODE, PH, POS, RND, GATE, FREED, SP, CHK, RN, BH]
a_, T_, k_ = z3.Ints('a!x T!x k!x')

def enums():
    import re, os
    t = open(os.path.join(runner.REPO, 'copra/ccn/action_types.h')).read()
    names = re.findall(r'\w+', re.search(r'enum\s+ccn_action_type\s*{([^}]*)}', t).group(1))
    return {n: i for i, n in enumerate(names)}
_E = enums()
PASS, PHASE, TRAVERSAL = _E['CCN_ACTION_PASS'], _E['CCN_ACTION_PHASE'], _E['CCN_ACTION_TRAVERSAL']
NULLID = z3.Int('CCNAC_ID_NULL')

AXIOMS = [
    z3.ForAll([T_], END(T_) >= 0, patterns=[END(T_)]),
    z3.ForAll([k_], z3.And(GET(k_) > 0, z3.Select(TYPE0, GET(k_)) >= 0, z3.Or([z3.Select(TYPE0, GET(k_)) == v for v in (PASS, PHASE, TRAVERSAL)])), patterns=[GET(k_)]),
    z3.ForAll([a_], SIZE(a_) == z3.If(z3.Select(TYPE0, a_) == PHASE, 1 + PS(z3.Select(TAB0, a_), END(z3.Select(TAB0, a_))), 1), patterns=[SIZE(a_)]),
    z3.ForAll([T_], PS(T_, 0) == 0, patterns=[END(T_)]),
    z3.ForAll([T_, k_], z3.Implies(k_ >= 0, PS(T_, k_) >= 0), patterns=[PS(T_, k_)]),
]

def instance(eng, s, T, idx):
    """the definition of END and PS at one position of a table"""
    eng.assume(s, inst(T, idx))

def inst(T, idx):
    v = z3.Select(MEMT0, T + idx)
    return (z3.And(z3.Implies(z3.And(0 <= idx, idx < END(T)), v != NULLID), z3.Implies(idx == END(T), v == NULLID),
                         z3.Implies(0 <= idx, PS(T, idx + 1) == PS(T, idx) + SIZE(GET(v)))))

def on_load(eng, s, key, addr):
    if key == 'mem:i32u':
        ph = eng.frames[0]['ctx'].args[0]
        T = z3.Select(TAB0, ph)
        instance(eng, s, T, z3.simplify(addr - T))

def g(h, k): return z3.Select(h[k], 0)
def setg(eng, s, k, v): s.heap[k] = z3.Store(eng.harr(s, k), 0, v)

USER = ['max_cycles', 'verbosity', 'tree_check']          # configuration that code may change
SIGNAL = ['fixed_point', 'action_error', 'phase_error']
KEPT = ['level', 'action_id', 'cycle_iter', 'current_phase', 'breakpoint', 'breakpoint_id']

def hav(eng, s, fields, ghosts=()):
    for f in fields:
        s.heap[F(f)] = z3.Store(eng.harr(s, F(f)), PD, eng.fresh('pd_' + f))
    for k in ghosts:
        setg(eng, s, k, eng.fresh(k))

def signals(pre, post):
    """relation kept by everything that runs inside a phase"""
    return z3.And(g(post, N) >= g(pre, N), g(post, PE) >= g(pre, PE),
                  (pd(post, 'fixed_point') != 0) == z3.And(pd(pre, 'fixed_point') != 0, g(post, N) == g(pre, N)),
                  (pd(post, 'phase_error') != 0) == z3.Or(pd(pre, 'phase_error') != 0, g(post, PE) > g(pre, PE)))

def user_code(eng, s):
    """code of an action, gate or check: any use of the API"""
    pre = HV(eng, s.copy())
    hav(eng, s, USER + SIGNAL, [N, PE, 'g:errors'])
    post = HV(eng, s)
    eng.assume(s, signals(pre, post))
    eng.assume(s, z3.Implies(pd(pre, 'action_error') != 0, pd(post, 'action_error') != 0))
    eng.assume(s, g(post, 'g:errors') >= g(pre, 'g:errors'))
    for f in ('fixed_point', 'action_error', 'phase_error', 'tree_check'):
        eng.assume(s, z3.And(pd(post, f) >= 0, pd(post, f) <= 1))
    eng.assume(s, z3.And(pd(post, 'max_cycles') >= 0, pd(post, 'max_cycles') < 2**64))
    return pre, post

def fname(eng):
    return eng.frames[0]['name']

def acheck(eng, s):
    """obligations on the tree check: dispatch only, once, before anything else, on the tree so far"""

def trav_pass(kind):
    def b(eng, st, args, rt, hint, n):
        s = st.copy()
        tu = eng.tu_of()
        h = HV(eng, s)
        fn = fname(eng)
        cx = eng.frames[0]['ctx']
        r = eng.fresh('tree')
        ischeck = args[1] == tu.enums['TRAV_check'] if kind == 'trav' else z3.BoolVal(False)
        isfree = args[1] == tu.enums['TRAV_free'] if kind == 'trav' else z3.BoolVal(False)
        if fn == 'CCNdispatchAction':
            act = cx.args[0]
            ty = h.f('ccn_action.type', act)
            mine = z3.And(ty == TRAVERSAL, args[1] == h.f('ccn_traversal.trav_type', act)) if kind == 'trav' else z3.And(ty == PASS, args[1] == h.f('ccn_pass.pass_type', act))
            first = z3.And(ischeck, g(h, CHK) == 0, g(h, PH) == 0)
            # with the check off, or after it, the traversal must be the action itself
            eng.obligation(s, args[0] == g(h, NODE), '[4] %s gets the tree returned by the previous step' % kind, 'safety')
            chk = z3.And(pd(cx.pre, 'tree_check') != 0, g(h, CHK) == 0)
            eng.obligation(s, z3.If(chk, ischeck, z3.And(mine, g(h, PH) == 0)), '[4] %s: the tree check runs first exactly when enabled, then the declared action, once' % kind, 'safety')
            eng.obligation(s, z3.Implies(z3.Not(chk), z3.Or(pd(cx.pre, 'tree_check') == 0, g(h, 'g:errors') == g(cx.pre, 'g:errors'))), '[6] no action runs after a failed tree check', 'safety')
            setg(eng, s, CHK, z3.If(chk, 1, g(h, CHK)))
            setg(eng, s, PH, z3.If(chk, g(h, PH), 1))
        elif fn == 'CCNrun':
            eng.obligation(s, z3.And(isfree, g(h, FREED) == 0, g(h, PH) == 1, args[0] == g(h, NODE)), '[4] the resulting tree is freed, once, after the run', 'safety')
            setg(eng, s, FREED, IntV(1))
        else:
            eng.obligation(s, z3.BoolVal(False), '[4] actions are run by the dispatcher', 'safety')
        user_code(eng, s)
        if fn == 'CCNdispatchAction':
            eng.assume(s, z3.Implies(chk, r == args[0]))        # the generated check does not change the tree (C12)
            setg(eng, s, NODE, r)
        return [(s, r)]
    return b

def indirect(eng, st, ft, f, args, rt, callee):
    """call of a gate"""
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    if fname(eng) == 'StartPhase':
        eng.obligation(s, z3.And(f == h.f('ccn_phase.gate_func', cx.args[0]), f != 0, g(h, GATE) == 0, g(h, POS) == 0), '[4] the gate of the phase is asked, once, before its first action', 'safety')
    else:
        eng.obligation(s, z3.BoolVal(False), '[4] only phases have gates', 'safety')
    user_code(eng, s)
    r = eng.fresh('gate')
    eng.assume(s, z3.And(r >= 0, r <= 1))
    setg(eng, s, GATE, z3.If(r != 0, 1, 2))
    return [(s, r)]

def gate_open(h, phase):
    return z3.If(h.f('ccn_phase.gate_func', phase) == 0, g(h, GATE) == 0, g(h, GATE) == 1)

def b_dispatch(eng, st, args, rt, hint, n):
    """CCNdispatchAction as called: protocol of the caller, then its contract"""
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    fn = fname(eng)
    if fn == 'StartPhase':
        ph = cx.args[0]
        T = h.f('ccn_phase.action_table', ph)
        eng.obligation(s, gate_open(h, ph), '[4] actions run only when the gate is open', 'safety')
        pos = g(h, POS)
        end = END(T)
        again = pos == end
        npos = z3.If(again, 0, pos)
        instance(eng, s, T, npos)
        instance(eng, s, T, pos)
        rounds = z3.If(again, g(h, RND) + 1, g(h, RND))
        eng.obligation(s, args[0] == GET(z3.Select(h['mem:i32u'], T + npos)), '[4] actions run in the declared order', 'safety')
        eng.obligation(s, npos < end, '[4] no action after the end of the list', 'safety')
        eng.obligation(s, args[2] == g(h, NODE), '[4] an action gets the tree returned by the previous one', 'safety')
        eng.obligation(s, z3.Implies(again, h.f('ccn_phase.is_cycle', ph) != 0), '[5] only cycles repeat', 'safety')
        eng.obligation(s, z3.Implies(again, g(h, N) > g(h, RN)), '[5] a further round runs only after a notification in the last round', 'safety')
        eng.obligation(s, z3.Implies(again, rounds < pd(h, 'max_cycles')), '[5] at most the configured number of rounds', 'safety')
        rn = z3.If(z3.Or(again, npos == 0), g(h, N), g(h, RN))
        setg(eng, s, RN, rn)
        eng.obligation(s, (pd(h, 'fixed_point') != 0) == (g(h, N) == rn), '[5] the round starts without pending notifications and keeps those it gets', 'safety')
        eng.obligation(s, pd(h, 'action_id') == pd(cx.pre, 'action_id') + PS(T, npos), '[4] the action number is the declared position', 'safety')
        b0 = pd(cx.pre, 'breakpoint')
        sfx = BPSUF(b0, cx.args[1])
        eng.obligation(s, pd(h, 'breakpoint') == z3.If(b0 == 0, 0, z3.If(sfx != 0, sfx, b0)), '[6] inside a phase the breakpoint is relative to it', 'safety')
        setg(eng, s, POS, npos + 1)
        setg(eng, s, RND, rounds)
    elif fn == 'CCNrun':
        tu = eng.tu_of()
        eng.obligation(s, z3.And(args[0] == GET(root(tu)), args[2] == cx.args[0], g(h, PH) == 0), '[4] the start phase runs once, on the given tree', 'safety')
        eng.obligation(s, pd(h, 'action_id') == 0, '[4] numbering starts anew', 'safety')
        eng.obligation(s, z3.And(pd(h, 'action_error') == 0, pd(h, 'phase_error') == 0), '[6] a run starts without pending errors', 'safety')
        eng.obligation(s, z3.And(pd(h, 'level') == 0, pd(h, 'cycle_iter') == 0), '[5] a run starts outside of any cycle', 'safety')
        setg(eng, s, PH, IntV(1))
    else:
        eng.obligation(s, z3.BoolVal(False), '[4] actions are dispatched by phases', 'safety')
    keep = {k: eng.harr(s, k) for k in (POS, RND, GATE, FREED, RN, PH, SP, CHK, BH)}
    out = []
    for (s2, r) in eng.call_contract(s, eng.contracts['CCNdispatchAction'], args, rt):
        for k, v in keep.items():
            s2.heap[k] = v
        setg(eng, s2, NODE, r)
        out.append((s2, r))
    return out

def root(tu):
    import re, os
    t = open(os.path.join(runner.REPO, 'cocogen/ccngen/ccngen/action_handling.h')).read()
    return tu.enums[re.search(r'define\s+CCN_ROOT_ACTION\s+(\w+)', t).group(1)]

def b_startphase(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    if fname(eng) == 'CCNdispatchAction':
        act = cx.args[0]
        eng.obligation(s, z3.And(h.f('ccn_action.type', act) == PHASE, args[0] == act, g(h, PH) == 0, z3.Or(pd(cx.pre, 'tree_check') == 0, g(h, CHK) == 1)), '[4] the tree check runs first exactly when enabled, then the declared phase, once', 'safety')
        eng.obligation(s, z3.Or(pd(cx.pre, 'tree_check') == 0, g(h, 'g:errors') == g(cx.pre, 'g:errors')), '[6] no phase runs after a failed tree check', 'safety')
        eng.obligation(s, args[1] == h.f('ccn_action.name', act), '[6] a phase is started under its name', 'safety')
        eng.obligation(s, args[2] == g(h, NODE), '[4] a phase gets the tree returned by the previous step', 'safety')
        setg(eng, s, PH, IntV(1))
    keep = {k: eng.harr(s, k) for k in (POS, RND, GATE, FREED, RN, PH, SP, CHK, BH)}
    out = []
    for (s2, r) in eng.call_contract(s, eng.contracts['StartPhase'], args, rt):
        for k, v in keep.items():
            s2.heap[k] = v
        setg(eng, s2, NODE, r)
        out.append((s2, r))
    return out

BPSUF = z3.Function('rest_of_breakpoint', I, I, I)     # what follows "<phase>." in a breakpoint, NULL if it does not start so

def b_handler(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    eng.obligation(s, z3.And(args[0] == g(h, NODE), g(h, PH) == 1, g(h, BH) == 0, fname(eng) == 'CCNdispatchAction'), '[6] the breakpoint handler gets the tree right after the action, once', 'safety')
    setg(eng, s, BH, IntV(1))
    hav(eng, s, ['verbosity'])
    return [(s, eng.fresh('void'))]

def hit(c, h):
    act = c.args[0]
    bp = pd(c.pre, 'breakpoint')
    return z3.Or(z3.And(bp != 0, EQCI(bp, h.f('ccn_action.name', act))), z3.And(pd(c.pre, 'breakpoint_id') > 0, pd(c.pre, 'breakpoint_id') == pd(c.pre, 'action_id') + 1))

def b_exit(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    if fname(eng) == 'CCNdispatchAction':
        eng.obligation(s, z3.And(args[0] % 256 == 0, g(h, BH) == 1, hit(cx, h)), '[6] the program ends early with success only after the handler of the breakpoint', 'abort')
    else:
        eng.obligation(s, z3.BoolVal(False), '[6] only breakpoints end the program', 'abort')
    return []

def b_abort(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    fn = fname(eng)
    if fn == 'CCNdispatchAction':
        eng.obligation(s, z3.And(pd(h, 'action_error') != 0, g(h, PH) == 1), '[6] compilation stops after an action only when it signalled an action error', 'abort')
    elif fn == 'StartPhase':
        eng.obligation(s, z3.And(gate_open(h, cx.args[0]), finished(cx, h), g(h, PE) > g(cx.pre, PE)), '[6] a phase error stops compilation at the end of the phase it was signalled in', 'abort')
    else:
        eng.obligation(s, z3.BoolVal(False), '[6] unexpected stop', 'abort')
    return []

def b_abort_on_error(eng, st, args, rt, hint, n):
    s = st.copy()
    h = HV(eng, s)
    cx = eng.frames[0]['ctx']
    # may stop (when there are errors): only allowed when the check reported one
    eng.obligation(s, z3.Or(g(h, 'g:errors') == 0, z3.And(g(h, 'g:errors') != g(cx.pre, 'g:errors'), g(h, CHK) == 1, g(h, PH) == 0)) if fname(eng) == 'CCNdispatchAction' else g(h, 'g:errors') == 0, '[6] stops on errors only when the tree check reported one', 'abort')
    eng.assume(s, g(h, 'g:errors') == 0)
    return [] if eng.infeasible(s) else [(s, IntV(0))]

def b_eqci(eng, st, args, rt, hint, n):
    s = st.copy()
    r = eng.fresh('eqci')
    eng.assume(s, z3.And(r >= 0, r <= 1, (r != 0) == EQCI(args[0], args[1])))
    return [(s, r)]

def b_get(eng, st, args, rt, hint, n):
    return [(st, GET(args[0]))]

def b_errors(eng, st, args, rt, hint, n):
    return [(st, g(HV(eng, st), 'g:errors'))]

def finished(c, h):
    """the phase has run its list as often as required"""
    ph = c.args[0]
    T = h.f('ccn_phase.action_table', ph)
    return z3.And(g(h, POS) == END(T), z3.Or(h.f('ccn_phase.is_cycle', ph) == 0, g(h, N) == g(h, RN), END(T) == 0, g(h, RND) + 1 >= pd(h, 'max_cycles')))

def kept(c, names):
    return z3.And([pd(c.post, f) == pd(c.pre, f) for f in names])

def mods(c):
    d = {F(f): None for f in USER + SIGNAL + KEPT}
    for k in GH + ['g:errors']:
        d[k] = None
    return d

def common_req(c):
    h = c.pre
    return [('flags', flags(h)), ('configuration', ranges(h)),
            ('errors', g(h, 'g:errors') >= 0), ('null id', NULLID == c.eng.tus[0].enums['CCNAC_ID_NULL'])]

def ranges(h):
    return z3.And([pd(h, f) >= 0 for f in ('level', 'action_id', 'breakpoint_id', 'cycle_iter')])

def d_req(c):
    h = c.pre
    r = common_req(c) + [('a declared action', z3.And(c.args[0] > 0, z3.Or([h.f('ccn_action.type', c.args[0]) == v for v in (PASS, PHASE, TRAVERSAL)])))]
    if c.eng.frames[0].get('ctx') is not None and c.eng.frames[0]['ctx'].args is c.args:     # verifying the function itself: its activation's ghosts
        r += [('ghost', z3.And(g(h, PH) == 0, g(h, CHK) == 0, g(h, BH) == 0, g(h, NODE) == c.args[2]))]
    return r

def d_ens(c):
    act = c.args[0]
    return [('[4] the action was run and its tree is the result', z3.And(own(c, z3.And(g(c.post, PH) == 1, c.ret == g(c.post, NODE), g(c.post, CHK) == z3.If(pd(c.pre, 'tree_check') != 0, 1, 0))))),
            ('[4] the action number advances by the actions of this one', pd(c.post, 'action_id') == pd(c.pre, 'action_id') + SIZE(act)),
            ('[5] notifications reach the enclosing cycle', (pd(c.post, 'fixed_point') != 0) == z3.And(pd(c.pre, 'fixed_point') != 0, g(c.post, N) == g(c.pre, N))),
            ('[5] notifications', g(c.post, N) >= g(c.pre, N)),
            ('[6] phase errors', g(c.post, PE) >= g(c.pre, PE)),
            ('[6] phase errors are kept for the end of the phase', (pd(c.post, 'phase_error') != 0) == z3.Or(pd(c.pre, 'phase_error') != 0, g(c.post, PE) > g(c.pre, PE))),
            ('[6] returns only without action error', pd(c.post, 'action_error') == 0),
            ('[6] returns only if no breakpoint was hit', own(c, z3.And(z3.Not(hit(c, c.post)), g(c.post, BH) == 0))),
            ('[5] rounds of the enclosing cycle are kept', pd(c.post, 'cycle_iter') == pd(c.pre, 'cycle_iter')),
            ('[6] the breakpoint is kept', z3.And(pd(c.post, 'breakpoint') == pd(c.pre, 'breakpoint'), pd(c.post, 'breakpoint_id') == pd(c.pre, 'breakpoint_id'))),
            ('phase state is restored', kept(c, ['level', 'current_phase'])),
            ('errors', g(c.post, 'g:errors') >= g(c.pre, 'g:errors')), ('flags', flags(c.post))]

def flags(h):
    return z3.And([z3.And(pd(h, f) >= 0, pd(h, f) <= 1) for f in SIGNAL + ['tree_check']] + [pd(h, 'max_cycles') >= 0])

def own(c, f):
    """facts about the ghosts of the activation itself: not visible to the caller"""
    return f if c.eng.frames[0].get('ctx') is not None and c.eng.frames[0]['ctx'].args is c.args else z3.BoolVal(True)

def s_req(c):
    h = c.pre
    r = common_req(c) + [('a phase', c.args[0] > 0), ('[6] no error of another phase is pending', pd(h, 'phase_error') == 0)]
    if c.eng.frames[0].get('ctx') is not None and c.eng.frames[0]['ctx'].args is c.args:
        r += [('ghost', z3.And(g(h, POS) == 0, g(h, RND) == 0, g(h, GATE) == 0, g(h, NODE) == c.args[2], g(h, RN) == g(h, N)))]
    return r

def s_ens(c):
    ph = c.args[0]
    T = c.pre.f('ccn_phase.action_table', ph)
    opn = gate_open(c.post, ph)
    return [('[4] the gate decides: skipped without running anything, or the whole list is run', own(c, z3.If(opn, g(c.post, POS) == END(T), z3.And(g(c.post, GATE) == 2, g(c.post, POS) == 0, g(c.post, RND) == 0)))),
            ('[5] the list is repeated as required', own(c, z3.Implies(opn, finished(c, c.post)))),
            ('[4] the result is the tree of the last action', own(c, c.ret == g(c.post, NODE))),
            ('[4] the action number advances by the actions of the phase', pd(c.post, 'action_id') == pd(c.pre, 'action_id') + PS(T, END(T))),
            ('[5] notifications reach the enclosing cycle', (pd(c.post, 'fixed_point') != 0) == z3.And(pd(c.pre, 'fixed_point') != 0, g(c.post, N) == g(c.pre, N))),
            ('[5] notifications', g(c.post, N) >= g(c.pre, N)),
            ('[6] phase errors', g(c.post, PE) >= g(c.pre, PE)),
            ('[6] a finished phase leaves no phase error', own(c, z3.Implies(opn, z3.And(pd(c.post, 'phase_error') == 0, g(c.post, PE) == g(c.pre, PE))))),
            ('[6] phase errors (gate)', (pd(c.post, 'phase_error') != 0) == (g(c.post, PE) > g(c.pre, PE))),
            ('[5] rounds of the enclosing cycle are kept', pd(c.post, 'cycle_iter') == pd(c.pre, 'cycle_iter')),
            ('[6] the breakpoint is restored', z3.And(pd(c.post, 'breakpoint') == pd(c.pre, 'breakpoint'), pd(c.post, 'breakpoint_id') == pd(c.pre, 'breakpoint_id'))),
            ('phase state is restored', kept(c, ['level', 'current_phase'])),
            ('errors', g(c.post, 'g:errors') >= g(c.pre, 'g:errors')), ('flags', flags(c.post))]

def templates(L):
    c = L.fctx
    eng = L.eng
    nm = c.contract.name
    out = []
    ints = [(k, n) for (k, n, ty) in L.vars if ty[0] == 'int']
    ids = [(k, n) for (k, n, ty) in L.vars if ty[0] == 'int' and ty[1] == 32]
    ptrs = [(k, n) for (k, n, ty) in L.vars if ty[0] == 'ptr']
    if nm in ('StartPhase', 'SkipPhase'):
        ph = c.args[0]
        T = c.pre.f('ccn_phase.action_table', ph)
        pre = c.pre
        for (k, n) in ints:
            if k in L.modified:
                out.append(('%s is within the list' % n, lambda S, k=k: z3.And(S.v(k) >= 0, S.v(k) <= END(T))))
                out.append(('definitions at %s' % n, lambda S, k=k: inst(T, S.v(k))))
                out.append(('%s is the position' % n, lambda S, k=k: S.v(k) == g(S.h, POS)))
                out.append(('number at position %s' % n, lambda S, k=k: pd(S.h, 'action_id') == pd(pre, 'action_id') + PS(T, S.v(k))))
            for (k2, n2) in ids:
                if k2 in L.modified and k2 != k:
                    out.append(('%s is the id at %s' % (n2, n), lambda S, k=k, k2=k2: S.v(k2) == z3.Select(S.h['mem:i32u'], T + S.v(k))))
        out.append(('sum up to position', lambda S: pd(S.h, 'action_id') == pd(pre, 'action_id') + PS(T, g(S.h, POS))))
        out.append(('position', lambda S: z3.And(0 <= g(S.h, POS), g(S.h, POS) <= END(T))))
        if nm == 'StartPhase':
            # outer loop (rounds) and inner loop (positions)
            out.append(('first or finished round', lambda S: z3.Or(z3.And(g(S.h, POS) == 0, g(S.h, RND) == 0), g(S.h, POS) == END(T))))
            out.append(('round', lambda S: pd(S.h, 'cycle_iter') == z3.If(g(S.h, POS) == 0, g(S.h, RND), g(S.h, RND) + 1)))
            out.append(('round in progress', lambda S: pd(S.h, 'cycle_iter') == g(S.h, RND)))
            for (k, n) in ints:
                if k in L.modified:
                    out.append(('%s at the head' % n, lambda S, k=k: z3.Or(z3.And(S.v(k) == g(S.h, POS), pd(S.h, 'cycle_iter') == g(S.h, RND)),
                                z3.And(S.v(k) == 0, g(S.h, POS) == END(T), pd(S.h, 'cycle_iter') == g(S.h, RND) + 1, pd(S.h, 'cycle_iter') < pd(S.h, 'max_cycles'), h_cycle(pre, ph), g(S.h, N) > g(S.h, RN), pd(S.h, 'fixed_point') != 0))))
                    out.append(('%s notifications of this round' % n, lambda S, k=k: z3.Implies(z3.And(g(S.h, POS) == S.v(k), S.v(k) > 0), (pd(S.h, 'fixed_point') != 0) == (g(S.h, N) == g(S.h, RN)))))
                    out.append(('%s start of round' % n, lambda S, k=k: z3.Implies(S.v(k) == 0, pd(S.h, 'fixed_point') != 0)))
                    out.append(('%s number' % n, lambda S, k=k: pd(S.h, 'action_id') == pd(pre, 'action_id') + PS(T, S.v(k))))
            out.append(('after a round', lambda S: z3.Implies(g(S.h, POS) > 0, z3.And(g(S.h, POS) == END(T), h_cycle(pre, ph), g(S.h, N) > g(S.h, RN), pd(S.h, 'cycle_iter') == g(S.h, RND) + 1, pd(S.h, 'cycle_iter') < pd(S.h, 'max_cycles')))))
            out.append(('before the first round', lambda S: z3.Implies(g(S.h, POS) == 0, z3.And(g(S.h, RND) == 0, pd(S.h, 'cycle_iter') == 0, g(S.h, N) >= g(S.h, RN)))))
            out.append(('round notifications', lambda S: g(S.h, N) >= g(S.h, RN)))
            out.append(('round start is after entry', lambda S: g(S.h, RN) >= g(pre, N)))
            out.append(('notifications of this round', lambda S: (pd(S.h, 'fixed_point') != 0) == (g(S.h, N) == g(S.h, RN))))
            for (k, n, ty) in L.vars:
                if ty == ('bool',) or ty[0] == 'bool':
                    out.append(('%s: notified since entry' % n, lambda S, k=k: (S.v(k) != 0) == z3.And(pd(pre, 'fixed_point') != 0, g(S.h, N) == g(pre, N))))
                    out.append(('%s: notified before this round' % n, lambda S, k=k: (S.v(k) != 0) == z3.And(pd(pre, 'fixed_point') != 0, g(S.h, RN) == g(pre, N))))
                    out.append(('%s: notified before this round, position' % n, lambda S, k=k: (S.v(k) != 0) == z3.If(g(S.h, POS) == 0, z3.And(pd(pre, 'fixed_point') != 0, NG(S, pre) == g(pre, N)), z3.And(pd(pre, 'fixed_point') != 0, g(S.h, RN) == g(pre, N)))))
                    for (k2, n2) in ints:
                        if k2 in L.modified:
                            out.append(('%s: notified before the round at %s' % (n, n2), lambda S, k=k, k2=k2: (S.v(k) != 0) == z3.And(pd(pre, 'fixed_point') != 0, z3.If(z3.And(S.v(k2) == 0), g(S.h, N), g(S.h, RN)) == g(pre, N))))
            for (k, n) in ptrs:
                out.append(('%s is the tree' % n, lambda S, k=k: S.v(k) == g(S.h, NODE)))
            out.append(('phase errors', lambda S: z3.And((pd(S.h, 'phase_error') != 0) == (g(S.h, PE) > g(pre, PE)), g(S.h, PE) >= g(pre, PE))))
            out.append(('errors', lambda S: g(S.h, 'g:errors') >= g(pre, 'g:errors')))
            out.append(('ranges', lambda S: ranges(S.h)))
            out.append(('flags', lambda S: flags(S.h)))
            out.append(('action errors', lambda S: z3.Implies(g(S.h, POS) > 0, pd(S.h, 'action_error') == 0)))
            out.append(('gate', lambda S: gate_open(S.h, ph)))
        # what is not touched (the phase's own set-up included)
        for f in KEPT:
            v0 = L.entry.f(F(f), PD)
            out.append(('%s unchanged by the loop' % f, lambda S, f=f, v0=v0: pd(S.h, f) == v0))
    if nm == 'Checkbreakpoint':
        name, bp, m = c.args[0], pd(c.pre, 'breakpoint'), c.pre[M]
        for (k, n) in ints:
            if k in L.modified:
                out.append(('%s bounds' % n, lambda S, k=k: z3.And(0 <= S.v(k), S.v(k) <= LEN(m, name), S.v(k) <= LEN(m, bp))))
                out.append(('same so far up to %s' % n, lambda S, k=k: same(m, name, bp, S.v(k), TOLOW)))
    return out

def NG(S, pre):
    return g(S.h, N)
def h_cycle(h, ph):
    return h.f('ccn_phase.is_cycle', ph) != 0

def cb_req(c):
    return [('name', is_str(c.pre, c.args[0])), ('breakpoint', is_str(c.pre, pd(c.pre, 'breakpoint')))]
def cb_ens(c):
    name, bp, m = c.args[0], pd(c.pre, 'breakpoint'), c.pre[M]
    ln = LEN(m, name)
    w = z3.Int('w!cb')
    pref = z3.And(LEN(m, bp) >= ln, same(m, name, bp, ln, TOLOW))
    return [('[6] a rest is what follows the name and a dot', z3.Implies(c.ret != 0, z3.And(c.ret == bp + ln + 1, pref, sel(m, bp + ln) == ord('.'), sel(m, bp + ln + 1) != 0))),
            ('[6] no rest only if the breakpoint does not continue with the name and a dot', z3.Implies(z3.And(c.ret == 0, pref), z3.Or(sel(m, bp + ln) != ord('.'), sel(m, bp + ln + 1) == 0)))]

def b_cb(eng, st, args, rt, hint, n):
    """Checkbreakpoint at StartPhase: its contract, named"""
    s = st.copy()
    h = HV(eng, s)
    r = BPSUF(pd(h, 'breakpoint'), args[0])
    return [(s, r)]

def setter(field, label, sel_=None):
    return ([], lambda c: [(label, pd(c.post, field) == (c.args[0] if sel_ is None else sel_))], lambda c: {F(field): lambda a: a == PD})

def contracts(tus=None):
    C = {}
    def add(name, req, ens, m, **kw):
        C[name] = Contract(name, req, ens, m, **kw)
        C[name].templates = templates
    add('CCNdispatchAction', d_req, d_ens, mods)
    add('StartPhase', s_req, s_ens, mods, merge=True)
    add('SkipPhase', lambda c: common_req(c) + [('phase', c.args[0] > 0)] + ([('ghost', g(c.pre, POS) == 0)] if False else []),
        lambda c: [('[4] the action number advances by the actions of the phase', pd(c.post, 'action_id') == pd(c.pre, 'action_id') + PS(c.pre.f('ccn_phase.action_table', c.args[0]), END(c.pre.f('ccn_phase.action_table', c.args[0]))))],
        lambda c: {F('action_id'): None}, allow_abort=False)
    C['Checkbreakpoint'] = Contract('Checkbreakpoint', cb_req, cb_ens, lambda c: {}, allow_abort=False)
    C['Checkbreakpoint'].templates = templates
    def r_req(c):
        h = c.pre
        r = [('ghost', z3.And(g(h, PH) == 0, g(h, FREED) == 0)), ('configuration', z3.And(pd(h, 'breakpoint_id') >= 0, pd(h, 'breakpoint_id') < 2**63)), ('errors', g(h, 'g:errors') >= 0), ('flags', z3.And([z3.And(pd(h, f) >= 0, pd(h, f) <= 1) for f in ('tree_check',)] + [pd(h, 'max_cycles') >= 0]))]
        r.append(('null id', NULLID == c.eng.tus[0].enums['CCNAC_ID_NULL']))
        return r
    add('CCNrun', r_req, lambda c: [('[4] the start phase ran and its tree was freed', z3.And(g(c.post, PH) == 1, g(c.post, FREED) == 1))], mods)
    for (fn, field, val, tag) in (('CCNcycleNotify', 'fixed_point', IntV(0), 5), ('CCNerrorAction', 'action_error', IntV(1), 6), ('CCNerrorPhase', 'phase_error', IntV(1), 6),
                             ('CCNsetCycles', 'max_cycles', None, 5), ('CCNsetBreakpoint', 'breakpoint', None, 6), ('CCNsetBreakpointWithID', 'breakpoint_id', None, 6), ('CCNsetTreeCheck', 'tree_check', None, 4)):
        add(fn, None, (lambda field, val, tag: lambda c: [('[%d] sets %s' % (tag, field), pd(c.post, field) == (c.args[0] if val is None else val))])(field, val, tag),
            (lambda field: lambda c: {F(field): lambda a: a == PD})(field), allow_abort=False)
    add('CCNgetCurrentActionId', None, lambda c: [('[4] the number of the current action', c.ret == pd(c.pre, 'action_id'))], lambda c: {}, allow_abort=False)
    return C

BUILTINS = {'TRAVstart': trav_pass('trav'), 'PASSstart': trav_pass('pass'), 'CCNdispatchAction': b_dispatch, 'StartPhase': b_startphase, 'BreakpointHandler': b_handler,
            'exit': b_exit, 'CTIabortCompilation': b_abort, 'CTIabortOnError': b_abort_on_error, 'STReqci': b_eqci, 'CCNgetActionFromID': b_get, 'CTIgetErrors': b_errors,
            'Checkbreakpoint': b_cb, 'STRlen': bm.b_strlen, 'tolower': bm.b_tolower, 'CCNfree': None}
BUILTINS = {k: v for k, v in BUILTINS.items() if v}

FUNS = {4: ['CCNdispatchAction', 'StartPhase', 'SkipPhase', 'CCNrun', 'CCNgetCurrentActionId', 'CCNsetTreeCheck'],
        5: ['CCNdispatchAction', 'StartPhase', 'CCNrun', 'CCNcycleNotify', 'CCNsetCycles'],
        6: ['CCNdispatchAction', 'StartPhase', 'CCNrun', 'CCNerrorAction', 'CCNerrorPhase', 'CCNsetBreakpoint', 'CCNsetBreakpointWithID']}

def units(prop):
    def skip(label):
        t = label.lstrip('frame: ')
        for p in (4, 5, 6):
            if ('[%d]' % p) in label:
                return p != prop
        return False
    o = dict(live=False, safety=False, unsigned='math', skip=skip, on_load=on_load)
    u = [runner.Unit('copra/src/phase_driver.c', ['copra/src/phase_driver.c'], contracts, functions=FUNS[prop],
                     engine=dict(axioms=AXIOMS, builtins=BUILTINS, indirect=indirect, opts=o))]
    if prop == 6:
        b = {k: v for k, v in BUILTINS.items() if k not in ('Checkbreakpoint',)}
        o2 = dict(bm.OPTS); o2['skip'] = skip
        u.append(runner.Unit('copra/src/phase_driver.c (breakpoint paths)', ['copra/src/phase_driver.c'], contracts, functions=['Checkbreakpoint'],
                             engine=dict(axioms=bm.AXIOMS, builtins=b, opts=o2)))
    return u

def falsify(F, tier, prop):
    exe = runner.cc(F.scratch + '/pd', [runner.VERIF + '/harness/pd.c', runner.REPO + '/copra/src/phase_driver.c'] + [runner.REPO + '/palm/src/' + f for f in ('memory.c', 'str.c', 'ctinfo.c', 'dbug.c')],
                    flags=['-I' + runner.VERIF + '/harness'], link=['-Wl,--wrap=exit,--wrap=err,--wrap=errx'])
    runner.harness(F, exe, [prop, runner.SEED, 60000 if tier == 'quick' else 1500000], timeout=600)
