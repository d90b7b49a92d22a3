"""Verification-condition generator for C functions extracted by front.py.

Forward symbolic execution, function by function: a call to a function under
contract is replaced by its contract (assert pre, havoc modifies, assume post); a
call to a defined function without a contract is inlined (so extracting or
inlining a helper does not matter); loops are cut by inductive invariants,
selected from templates (Houdini), so no bound is put on iterations.

Memory: one SMT array per (record type, field) indexed by object address
(Burstall), one array per scalar element type for raw memory, 'live' for
allocatedness.  Integers are mathematical with explicit wrap-around at C
conversion and unsigned operators."""
import itertools, os, sys, time, hashlib
import z3
from .front import Unsupported
from .solve import z3_check, light

I = z3.IntSort()
AII = z3.ArraySort(I, I)
AIB = z3.ArraySort(I, z3.BoolSort())
MAXSTATES = 4000

def IntV(n):
    return z3.IntVal(n)

def is_true_ite(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)) \
        and t.arg(1).as_long() == 1 and t.arg(2).as_long() == 0

def truth(t):
    if z3.is_int_value(t):
        return z3.BoolVal(t.as_long() != 0)
    if is_true_ite(t):
        return t.arg(0)
    return t != 0

def b2i(b):
    if z3.is_true(b):
        return IntV(1)
    if z3.is_false(b):
        return IntV(0)
    return z3.If(b, IntV(1), IntV(0))

def simp(b):
    return z3.simplify(b)

UMOD = z3.Function('umod', I, I, I)
UDIV = z3.Function('udiv', I, I, I)

class St:
    __slots__ = ('vars', 'heap', 'base', 'pc', 'allocs', 'freed', 'events')
    def __init__(self):
        self.vars = {}; self.heap = {}; self.base = 0; self.pc = []
        self.allocs = []; self.freed = []; self.events = []
    def copy(self):
        s = St()
        s.vars = dict(self.vars); s.heap = dict(self.heap); s.base = self.base
        s.pc = list(self.pc); s.allocs = list(self.allocs); s.freed = list(self.freed)
        s.events = list(self.events)
        return s

class HV:
    """heap view: v['rec.field'] is the SMT array, v.f('rec.field', p) a read"""
    def __init__(self, eng, st, sink=None):
        self.eng = eng; self.st = st; self.sink = sink
    def __getitem__(self, key):
        a = self.eng.harr(self.st, key)
        if not z3.is_const(a):
            # name compound array terms so that they can occur in triggers
            n = self.eng.fresh('h_' + key, self.eng.sort_of_key(key))
            self.st.pc.append(n == a)
            self.st.heap[key] = n
            if self.sink is not None:       # the state that goes on has to know the name, too
                self.sink.pc.append(n == a)
            return n
        return a
    def f(self, key, *idx):
        return z3.Select(self[key], *idx)
    def live(self, p):
        return z3.Select(self['live'], p)

class Ob:
    def __init__(self, label, kind, hyps, goal, fn):
        self.label = label; self.kind = kind; self.hyps = hyps; self.goal = goal; self.fn = fn
        self.status = None; self.backend = None; self.time = 0.0; self.detail = ''

class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=None, ghost=None,
                 allow_abort=True, preserves=None, templates=None, trusted=False, pure=False,
                 merge=False, checks=True, post_assume=None, noreturn=False, inline=(), wrap=True, assume=None, cases=None):
        self.name = name
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies            # c -> dict key -> None | (lambda a: Bool)
        self.ghost = ghost                  # list of alternatives: c -> dict key -> array
        self.allow_abort = allow_abort
        self.templates = templates
        self.trusted = trusted
        self.merge = merge
        self.checks = checks
        self.preserves = preserves          # with modifies == '*': keys left alone
        self.noreturn = noreturn
        self.inline = set(inline)
        self.wrap = wrap
        self.cases = cases                  # c -> [(label, assumption, data)]: the body is executed once per case
        self.assume = assume                # instances of stated axioms at the arguments, assumed at entry only

class Ctx:
    def __init__(self, eng, args, pre, post, ret, st=None, argtypes=None, contract=None):
        self.eng = eng; self.args = args; self.pre = pre; self.post = post; self.ret = ret
        self.st = st; self.argtypes = argtypes or []; self.contract = contract

class LoopCtx:
    pass

class VerifyError(Exception):
    pass

# library / diagnostics calls without effect on the modelled state
BUILTIN_NOP = {'printf', 'fprintf', 'vfprintf', 'fputs', 'puts', 'putchar', 'fputc', 'fflush', 'putc',
               'DBUGon', 'perror', 'va_start', 'va_end', '__builtin_va_start', '__builtin_va_end',
               '__builtin_va_copy', 'DBUGprint'}
BUILTIN_NORETURN = {'abort', 'exit', 'err', 'errx', '_exit', '__assert_fail', 'CTIabortCompilation',
                    'CTIabortOutOfMemory', '__builtin_unreachable', 'DBUGabort'}

class Engine:
    def __init__(self, tus, contracts, indirect=None, axioms=(), templates=None, builtins=None,
                 timeout=8000, opts=None):
        self.tus = tus
        self.contracts = contracts
        self.indirect = indirect
        self.axioms = list(axioms)
        self.templates = templates
        self.builtins = builtins or {}
        self.opts = opts or {}
        self.timeout = timeout
        self.fresh_n = itertools.count()
        self.strlits = {}
        self.globaddr = {}
        self.fa = {}          # fa decl name -> (key, kid)
        self.fa_by_type = {}  # elem key -> list of (key, kid, decl)
        self.tagf = z3.Function('ptr!tag', I, I)
        self.basef = z3.Function('ptr!base', I, I)
        self.stat = {'obligations': 0, 'discharged': 0, 'solver_s': 0.0, 'backends': {}}
        self.obs = []
        self.mute = 0
        self.frames = []
        self.curfn = None
        self.inlined = set()
        self.used_contracts = set()
        self.trusted_used = set()
        self.notes = set()
        self.deadline = None
        self.scout = 0
        self.loopkeys, self.dropped = {}, {}

    # ------------------------------------------------------------- utilities
    def fresh(self, name, sort=I):
        return z3.Const('%s!%d' % (name, next(self.fresh_n)), sort)

    def sort_of_key(self, key):
        if key in self.opts.get('sorts', {}):
            return self.opts['sorts'][key]
        return AIB if key == 'live' else AII

    def harr(self, st, key):
        a = st.heap.get(key)
        if a is None:
            a = z3.Const('%s@%d' % (key, st.base), self.sort_of_key(key))
            st.heap[key] = a
        return a

    def find_fn(self, name):
        for tu in self.tus:
            if name in tu.funcs:
                return tu, tu.funcs[name]
        return None, None

    def assume(self, st, f):
        if f is None or z3.is_true(f):
            return
        st.pc.append(f)

    def obligation(self, st, goal, label, kind):
        if self.mute or (self.opts.get('skip') and self.opts['skip'](label)):
            self.assume(st, goal)
            return
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            self.stat['obligations'] += 1
            self.stat['discharged'] += 1
            self.stat['backends']['simplifier'] = self.stat['backends'].get('simplifier', 0) + 1
            return
        self.obs.append(Ob(label, kind, list(st.pc), goal, self.curfn))
        self.assume(st, goal)

    def dbg(self, what, lab, st):
        if os.environ.get('CCV_DEBUG'):
            print('    [%s] mute=%d %s' % (what, self.mute, lab), flush=True)

    # quick entailment used for path pruning / Houdini
    def entails(self, hyps, goal, timeout=None):
        t0 = time.time()
        timeout = timeout or self.opts.get('houdini_timeout', 1500)
        if any(h.eq(goal) for h in hyps):
            return True
        lh = light(hyps) if self.opts.get('light', True) else hyps
        r = z3.unknown
        if len(lh) < len(hyps):
            r, _ = z3_check(self.axioms, lh, goal, 400, False)
        if r != z3.unsat:
            r, _ = z3_check(self.axioms, hyps, goal, timeout, False)
        self.stat['solver_s'] += time.time() - t0
        return r == z3.unsat

    def infeasible(self, st):
        g = self.opts.get('prune', True)
        if not g:
            return False
        # cheap: quantifier-free part only
        s = z3.SimpleSolver()
        s.set('timeout', 3000)
        s.set('rlimit', 1500000)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        t0 = time.time()
        for h in st.pc:
            if not has_quant(h):
                s.add(h)
        r = s.check()
        self.stat['solver_s'] += time.time() - t0
        return r == z3.unsat

    # --------------------------------------------------------------- types
    def rng(self, t, term):
        if t[0] == 'int':
            if t[2]:
                return z3.And(term >= -(1 << (t[1] - 1)), term < (1 << (t[1] - 1)))
            return z3.And(term >= 0, term < (1 << t[1]))
        if t[0] == 'bool':
            return z3.And(term >= 0, term <= 1)
        if t[0] == 'ptr':
            return None
        return None

    def ekey(self, t):
        """key of raw memory holding elements of type t"""
        if t[0] == 'int':
            return 'mem:i%d%s' % (t[1], '' if t[2] or t[1] == 8 else 'u')
        if t[0] == 'bool':
            return 'mem:bool'
        if t[0] == 'float':
            return 'mem:float'
        if t[0] == 'ptr':
            p = t[1]
            if p[0] in ('struct', 'union'):
                return 'mem:*' + p[1]
            if p[0] == 'ptr':
                return 'mem:**'
            return 'mem:*' + p[0] + (str(p[1]) if p[0] == 'int' else '')
        if t[0] == 'array':
            return self.ekey(t[1])
        raise Unsupported('element type %r' % (t,))

    def conv(self, term, frm, to):
        """C conversion between arithmetic types"""
        if to[0] == 'bool':
            return b2i(truth(term))
        if to[0] != 'int' or frm[0] not in ('int', 'bool'):
            return term
        if frm[0] == 'bool':
            return term
        fb, fs = frm[1], frm[2]
        tb, ts = to[1], to[2]
        lo = -(1 << (tb - 1)) if ts else 0
        hi = (1 << (tb - 1)) if ts else (1 << tb)
        if z3.is_int_value(term):
            v = term.as_long()
            v &= (1 << tb) - 1
            if ts and v >= (1 << (tb - 1)):
                v -= 1 << tb
            return IntV(v)
        flo = -(1 << (fb - 1)) if fs else 0
        fhi = (1 << (fb - 1)) if fs else (1 << fb)
        if flo >= lo and fhi <= hi:
            return term
        if z3.is_app_of(term, z3.Z3_OP_ITE):
            return z3.If(term.arg(0), self.conv(term.arg(1), frm, to), self.conv(term.arg(2), frm, to)) \
                if z3.is_int_value(term.arg(1)) or z3.is_int_value(term.arg(2)) else self._wrap(term, tb, ts, lo, hi)
        return self._wrap(term, tb, ts, lo, hi)

    def _wrap(self, term, tb, ts, lo, hi):
        m = 1 << tb
        if ts:
            w = term % m
            w = z3.If(w >= hi, w - m, w)
        else:
            w = term % m
        return z3.If(z3.And(term >= lo, term < hi), term, w)

    # ------------------------------------------------------------- lvalues
    def fa_term(self, st, key, base, etype):
        """address of field `key` of object `base` as a pointer value"""
        name = 'fa!' + key
        if name not in self.fa:
            kid = len(self.fa) + 1
            f = z3.Function(name, I, I)
            self.fa[name] = (key, kid, f)
            self.fa_by_type.setdefault(self.ekey(etype), []).append((key, kid, f))
        key, kid, f = self.fa[name]
        t = f(base)
        self.assume(st, z3.And(self.tagf(t) == kid, self.basef(t) == base, t != 0))
        return t

    def loc_of_ptr(self, t):
        if z3.is_app(t) and t.decl().name() in self.fa and t.num_args() == 1:
            return (self.fa[t.decl().name()][0], t.arg(0))
        return None

    def load(self, st, loc, ty, check=True):
        kind = loc[0]
        if kind == 'var':
            v = st.vars.get(loc[1])
            if v is None:
                v = self.fresh('undef')
                r = self.rng(ty, v)
                if r is not None:
                    self.assume(st, r)
                st.vars[loc[1]] = v
            return v
        if kind == 'mem':
            key, addr = loc[1], loc[2]
            if key.startswith('g:'):
                v = self.const_global(key[2:])
                if v is not None:
                    return v
            hk = self.opts.get('on_load')
            if hk:
                hk(self, st, key, addr)
            if key.startswith('mem:') and key in self.fa_by_type and self._maybe_fa(addr):
                v = z3.Select(self.harr(st, key), addr)
                for (k, kid, f) in self.fa_by_type[key]:
                    v = z3.If(self.tagf(addr) == kid, z3.Select(self.harr(st, k), self.basef(addr)), v)
            else:
                v = z3.Select(self.harr(st, key), addr)
            r = self.rng(ty, v)
            if r is not None:
                self.assume(st, r)
            return v
        raise Unsupported('load ' + str(loc))

    def _maybe_fa(self, addr):
        if z3.is_const(addr) and addr.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        if z3.is_app_of(addr, z3.Z3_OP_ITE):
            return True
        return False

    def store(self, st, loc, val):
        if loc[0] == 'var':
            st.vars[loc[1]] = val
            return
        key, addr = loc[1], loc[2]
        hk = self.opts.get('on_store')
        if hk:
            self._store(st, key, addr, val)
            hk(self, st, key, addr, val)
            return
        self._store(st, key, addr, val)

    def _store(self, st, key, addr, val):
        if key.startswith('mem:') and key in self.fa_by_type and self._maybe_fa(addr):
            for (k, kid, f) in self.fa_by_type[key]:
                a = self.harr(st, k)
                st.heap[k] = z3.If(self.tagf(addr) == kid, z3.Store(a, self.basef(addr), val), a)
            a = self.harr(st, key)
            isfa = z3.Or([self.tagf(addr) == kid for (k, kid, f) in self.fa_by_type[key]])
            st.heap[key] = z3.If(isfa, a, z3.Store(a, addr, val))
            return
        if key in self.opts.get('named_stores', ()):
            old = self.harr(st, key)
            if not z3.is_const(old):
                o2 = self.fresh('m_' + key, self.sort_of_key(key)); self.assume(st, o2 == old); old = o2
            new = self.fresh('s_' + key, self.sort_of_key(key))
            self.assume(st, new == z3.Store(old, addr, val))
            k = z3.Int('k!st')
            self.assume(st, z3.ForAll([k], z3.Select(new, k) == z3.If(k == addr, val, z3.Select(old, k)), patterns=[z3.Select(old, k)]))
            st.heap[key] = new
            return
        st.heap[key] = z3.Store(self.harr(st, key), addr, val)

    def glob_addr(self, name):
        if name not in self.globaddr:
            self.globaddr[name] = z3.Int('&' + name)
        return self.globaddr[name]

    def const_global(self, name):
        """value of a const scalar with a literal initialiser"""
        tu = self.tu_of()
        d = tu.globals.get(name)
        if d is None or not d.get('init'):
            return None
        q = d['type']['qualType']
        if '*' in q or '[' in q or 'const' not in q.split() or 'volatile' in q.split():
            return None
        e = [c for c in d.get('inner', []) if c.get('kind') not in ('FullComment',)][-1]
        while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr') and e.get('inner'):
            e = e['inner'][0]
        if e.get('kind') == 'IntegerLiteral':
            v = int(e['value'])
            return IntV(v) if v < 2**31 else None
        return None

    def tu_of(self):
        return self.frames[-1]['tu']

    def record_name(self, node):
        """record a MemberExpr refers to, by declaration"""
        tu = self.tu_of()
        rid = node.get('referencedMemberDecl')
        if rid in tu.field_by_id:
            return tu.field_by_id[rid]
        raise Unsupported('member without declaration')

    def check_deref(self, st, p, what, root_live=True):
        c = self.frames[-1].get('checks', True)
        if not self.opts.get('safety', True) or not c:
            self.assume(st, p != 0)
            return
        if z3.is_const(p) and p.decl().name().startswith('&'):
            return
        self.obligation(st, p != 0, 'non-null %s' % what, 'safety')
        if self.opts.get('live', False) and root_live:
            self.obligation(st, z3.Select(self.harr(st, 'live'), p), 'live %s' % what, 'safety')

    def lval(self, st, n):
        """-> list of (st, loc, root) ; loc = ('var', k) | ('mem', key, addr) | ('agg', recname, addr)
        | ('arr', elemkey, addr)"""
        k = n['kind']
        tu = self.tu_of()
        if k == 'ParenExpr':
            return self.lval(st, n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                vk = self.varkey(d)
                ty = tu.type_of(n)
                if vk is not None:
                    if vk in self.frames[-1]['addr']:      # lives in memory
                        a = self.frames[-1]['addr'][vk]
                        if ty[0] in ('struct', 'union'):
                            return [(st, ('agg', ty[1], a))]
                        if ty[0] == 'array':
                            return [(st, ('arr', ty, a))]
                        return [(st, ('mem', self.ekey(ty), a))]
                    return [(st, ('var', vk))]
                # global
                name = self.globname(d)
                a = self.glob_addr(name)
                if ty[0] in ('struct', 'union'):
                    return [(st, ('agg', ty[1], a))]
                if ty[0] == 'array':
                    return [(st, ('arr', ty, a))]
                if ty[0] == 'anonrec':
                    raise Unsupported('anonymous global')
                return [(st, ('mem', 'g:' + name, IntV(0)))]
            raise Unsupported('lvalue of ' + d['kind'])
        if k == 'MemberExpr':
            rec, fname, idx = self.record_name(n)
            out = []
            base = n['inner'][0]
            if n.get('isArrow'):
                for (s, p) in self.ev(st, base):
                    self.check_deref(s, p, '%s->%s' % (describe(base), fname))
                    out.append((s, rec, p))
            else:
                for (s, loc) in self.lval(st, base):
                    if loc[0] != 'agg':
                        raise Unsupported('member of non-aggregate')
                    out.append((s, rec, loc[2]))
            res = []
            for (s, rec, p) in out:
                res.append((s, self.field_loc(tu, rec, fname, idx, p)))
            return res
        if k == 'ArraySubscriptExpr':
            res = []
            ty = tu.type_of(n)
            b, i = n['inner']
            if tu.type_of(b)[0] not in ('ptr', 'array'):
                b, i = i, b
            for (s, p) in self.ev(st, b):
                for (s2, ix) in self.ev(s, i):
                    res.append((s2, self.elem_loc(s2, p, ix, ty, describe(b))))
            return res
        if k == 'UnaryOperator' and n['opcode'] == '*':
            res = []
            ty = tu.type_of(n)
            for (s, p) in self.ev(st, n['inner'][0]):
                res.append((s, self.elem_loc(s, p, None, ty, describe(n['inner'][0]))))
            return res
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.lval(st, n['inner'][0])
        if k == 'CallExpr':      # struct-returning call
            raise Unsupported('lvalue call')
        if k == 'CompoundLiteralExpr':
            raise Unsupported('compound literal')
        raise Unsupported('lvalue ' + k)

    def elem_loc(self, st, p, ix, ty, what):
        if ty[0] == 'func':
            return ('fn', p)
        l = self.loc_of_ptr(p)
        if l is not None and ix is None:
            return ('mem', l[0], l[1])
        addr = p if ix is None else simp_add(p, ix)
        if ty[0] in ('struct', 'union'):
            if ix is None:
                self.check_deref(st, p, '*' + what)
                return ('agg', ty[1], p)
            return ('agg', ty[1], addr)
        if ty[0] == 'array':
            raise Unsupported('array of array')
        key = self.ekey(ty)
        h = self.opts.get('elem_check')
        if h is not None and not (z3.is_const(p) and p.decl().name().startswith('&')):
            g = h(self, st, key, p, addr)
            if g is not None and self.frames[-1].get('checks', True):
                self.obligation(st, g, 'access %s[..]' % what, 'safety')
        else:
            if self.opts.get('safety', True) and self.frames[-1].get('checks', True) and not (z3.is_const(p) and p.decl().name().startswith('&')):
                self.obligation(st, p != 0, 'non-null %s' % what, 'safety')
        return ('mem', key, addr)

    def field_loc(self, tu, rec, fname, idx, p):
        ft = tu.field_type(rec, fname)
        alias = self.child_alias(tu, rec)
        if alias is not None:
            return ('mem', alias, 64 * p + idx)
        if ft[0] in ('struct', 'union'):
            return ('agg', ft[1], p)
        if ft[0] == 'array':
            return ('arr', ft, self.arr_base(rec, fname, p))
        if tu.rec_kind.get(rec) == 'union' and ft[0] == 'ptr':
            return ('mem', rec + '.*', p)
        return ('mem', rec + '.' + fname, p)

    def child_alias(self, tu, rec):
        """struct whose members alias an array in the enclosing union (the generated
        children unions): both live in one element array"""
        c = getattr(tu, '_alias', None)
        if c is None:
            c = tu._alias = {}
            for r, fs in tu.records.items():
                if tu.rec_kind[r] != 'union' or len(fs) != 2:
                    continue
                try:
                    t0 = tu.field_type(r, fs[0][0]); t1 = tu.field_type(r, fs[1][0])
                except Unsupported:
                    continue
                if t0[0] == 'struct' and t1[0] == 'array' and t0[1] in tu.records and t0[1] not in ():
                    inner = [tu.field_type(t0[1], f[0]) for f in tu.records[t0[1]]]
                    if inner and all(x == t1[1] for x in inner):
                        c[t0[1]] = self.ekey(t1[1])
        return c.get(rec)

    def arr_base(self, rec, fname, p):
        return 64 * p

    # --------------------------------------------------------- expressions
    def ev(self, st, n):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(st, n)

    def ev_ParenExpr(self, st, n):
        return self.ev(st, n['inner'][0])
    def ev_ConstantExpr(self, st, n):
        if 'value' in n:
            try:
                return [(st, IntV(int(n['value'])))]
            except ValueError:
                pass
        return self.ev(st, n['inner'][0])
    def ev_IntegerLiteral(self, st, n):
        return [(st, IntV(int(n['value'])))]
    def ev_CharacterLiteral(self, st, n):
        v = int(n['value'])
        return [(st, IntV(v))]
    def ev_FloatingLiteral(self, st, n):
        from fractions import Fraction
        return [(st, IntV(int(Fraction(n['value']) * 1000000)))]
    def ev_StringLiteral(self, st, n):
        return [(st, self.strlit(st, n['value']))]
    def ev_PredefinedExpr(self, st, n):
        return [(st, self.strlit(st, '__func__'))]
    def ev_ImplicitValueInitExpr(self, st, n):
        return [(st, IntV(0))]
    def strlit(self, st, s):
        if s not in self.strlits:
            self.strlits[s] = z3.Int('&str%d' % len(self.strlits))
            h = self.opts.get('on_strlit')
            if h:
                for ax in h(self, self.strlits[s], s):
                    self.axioms.append(ax)
        t = self.strlits[s]
        self.assume(st, t > 0)
        return t

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        tu = self.tu_of()
        if 'argType' in n:
            t = tu.parse_type(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
        else:
            t = tu.type_of(n['inner'][0])
        return [(st, IntV(tu.sizeof(t)))]

    def ev_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return [(st, IntV(self.tu_of().enums[d['name']]))]
        if d['kind'] == 'FunctionDecl':
            return [(st, self.fn_addr(d['name']))]
        # lvalue used directly (struct by address)
        res = []
        for (s, loc) in self.lval(st, n):
            if loc[0] == 'var':
                raise Unsupported('declref of non-loaded var')
            res.append((s, loc[2]))
        return res

    def fn_addr(self, name):
        t = z3.Int('&fn:' + name)
        return t

    def ev_ImplicitCastExpr(self, st, n):
        tu = self.tu_of()
        ck = n['castKind']
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            ty = tu.type_of(n)
            res = []
            for (s, loc) in self.lval(st, sub):
                if loc[0] == 'agg':
                    res.append((s, loc[2]))
                elif loc[0] == 'arr':
                    res.append((s, loc[2]))
                else:
                    res.append((s, self.load(s, loc, ty)))
            return res
        if ck == 'ArrayToPointerDecay':
            if sub['kind'] == 'StringLiteral' or (sub['kind'] in ('PredefinedExpr',)):
                return self.ev(st, sub)
            if sub['kind'] == 'ParenExpr' and sub['inner'][0]['kind'] == 'StringLiteral':
                return self.ev(st, sub['inner'][0])
            return [(s, loc[2]) for (s, loc) in self.lval(st, sub)]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            if sub['kind'] == 'DeclRefExpr':
                return [(st, self.fn_addr(sub['referencedDecl']['name']))]
            return self.ev(st, sub)
        if ck in ('NullToPointer',):
            return [(st, IntV(0))]
        if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'IntegralToBoolean'):
            frm = tu.type_of(sub); to = tu.type_of(n)
            return [(s, self.conv(v, frm, to)) for (s, v) in self.ev(st, sub)]
        if ck == 'PointerToBoolean':
            return [(s, b2i(v != 0)) for (s, v) in self.ev(st, sub)]
        if ck in ('BitCast', 'NoOp', 'ToVoid', 'PointerToIntegral', 'IntegralToPointer', 'ArrayToPointerDecay'):
            hint = None
            if ck == 'BitCast':
                try:
                    hint = tu.type_of(n)
                except Unsupported:
                    hint = None
            old = self.frames[-1].get('hint')
            self.frames[-1]['hint'] = hint
            try:
                r = self.ev(st, sub)
            finally:
                if self.frames:
                    self.frames[-1]['hint'] = old
            return r
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            f = z3.Function('cast!' + ck, I, I)
            res = []
            for (s, v) in self.ev(st, sub):
                if ck == 'IntegralToFloating' and z3.is_int_value(v):
                    res.append((s, IntV(v.as_long() * 1000000)))
                elif ck == 'FloatingCast':
                    res.append((s, v))
                else:
                    res.append((s, f(v)))
            return res
        raise Unsupported('cast ' + ck)

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def ev_MemberExpr(self, st, n):
        return [(s, loc[2]) for (s, loc) in self.lval(st, n)]
    ev_ArraySubscriptExpr = ev_MemberExpr

    def ev_UnaryOperator(self, st, n):
        tu = self.tu_of()
        op = n['opcode']
        sub = n['inner'][0]
        if op == '&':
            res = []
            s0 = sub
            while s0['kind'] == 'ParenExpr':
                s0 = s0['inner'][0]
            if s0['kind'] == 'DeclRefExpr' and s0['referencedDecl']['kind'] == 'FunctionDecl':
                return [(st, self.fn_addr(s0['referencedDecl']['name']))]
            for (s, loc) in self.lval(st, sub):
                if loc[0] in ('agg', 'arr'):
                    res.append((s, loc[2]))
                elif loc[0] == 'mem':
                    if loc[1].startswith('mem:'):
                        res.append((s, loc[2]))
                    else:
                        res.append((s, self.fa_term(s, loc[1], loc[2], tu.type_of(sub))))
                else:
                    raise Unsupported('address of register variable')
            return res
        if op == '!':
            return [(s, b2i(z3.Not(truth(v)))) for (s, v) in self.ev(st, sub)]
        if op == '-':
            t = tu.type_of(n)
            return [(s, self.arith(s, -v, t)) for (s, v) in self.ev(st, sub)]
        if op == '+':
            return self.ev(st, sub)
        if op == '~':
            t = tu.type_of(n)
            return [(s, self.arith(s, -v - 1, t)) for (s, v) in self.ev(st, sub)]
        if op in ('++', '--'):
            t = tu.type_of(sub)
            res = []
            for (s, loc) in self.lval(st, sub):
                old = self.load(s, loc, t)
                d = 1 if op == '++' else -1
                new = simp_add(old, IntV(d))
                if t[0] == 'int':
                    new = self.arith(s, new, t)
                self.store(s, loc, new)
                res.append((s, old if n.get('isPostfix') else new))
            return res
        if op == '*':
            res = []
            for (s, loc) in self.lval(st, n):
                if loc[0] == 'fn':
                    res.append((s, loc[1]))
                else:
                    res.append((s, loc[2]))
            return res
        if op == '__extension__':
            return self.ev(st, sub)
        raise Unsupported('unary ' + op)

    def arith(self, st, term, t):
        """result of an arithmetic operator at type t"""
        if t[0] != 'int':
            return term
        if z3.is_int_value(z3.simplify(term)):
            v = z3.simplify(term).as_long()
            lo = -(1 << (t[1] - 1)) if t[2] else 0
            hi = (1 << (t[1] - 1)) if t[2] else (1 << t[1])
            if lo <= v < hi:
                return IntV(v)
        if t[2]:
            lo, hi = -(1 << (t[1] - 1)), 1 << (t[1] - 1)
            if self.opts.get('overflow') == 'check' and self.frames[-1].get('checks', True):
                self.obligation(st, z3.And(term >= lo, term < hi), 'no signed overflow', 'overflow')
            else:
                self.notes.add('signed arithmetic is treated as mathematical (no overflow obligation)')
                self.assume(st, z3.And(term >= lo, term < hi))
            return term
        if self.opts.get('unsigned') == 'math':
            self.notes.add('unsigned additions are treated as not wrapping')
            self.assume(st, z3.And(term >= 0, term < (1 << t[1])))
            return term
        return self._wrap(term, t[1], False, 0, 1 << t[1])

    def ev_BinaryOperator(self, st, n):
        tu = self.tu_of()
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            return self.assign(st, n, l, r)
        if op == ',':
            res = []
            for (s, _) in self.ev(st, l):
                res += self.ev(s, r)
            return res
        if op in ('&&', '||'):
            return self.shortcircuit(st, op, l, r)
        res = []
        for (s, a) in self.ev(st, l):
            for (s2, b) in self.ev(s, r):
                res.append((s2, self.binop(s2, op, a, b, tu.type_of(l), tu.type_of(r), tu.type_of(n))))
        return res

    def pure(self, n):
        k = n.get('kind')
        if k in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr', 'ConditionalOperator'):
            return False
        if k == 'BinaryOperator' and n['opcode'] in ('=', '&&', '||') and n['opcode'] == '=':
            return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return False
        return all(self.pure(c) for c in n.get('inner', []))

    def shortcircuit(self, st, op, l, r):
        res = []
        for (s, a) in self.ev(st, l):
            ca = truth(a)
            guard = ca if op == '&&' else z3.Not(ca)
            if self.pure(r):
                s2 = s.copy()
                n0 = len(s2.pc)
                self.assume(s2, guard)
                outs = self.ev(s2, r)
                if len(outs) == 1:
                    s3, b = outs[0]
                    cb = truth(b)
                    extra = s3.pc[n0:]
                    s4 = s3.copy()
                    s4.pc = s3.pc[:n0]
                    ex = [e for e in extra if not e.eq(guard)]
                    if ex:
                        s4.pc.append(z3.Implies(guard, z3.And(ex)))
                    res.append((s4, b2i(z3.And(ca, cb) if op == '&&' else z3.Or(ca, cb))))
                    continue
            # split
            s1 = s.copy(); self.assume(s1, z3.Not(guard))
            if not self.infeasible(s1):
                res.append((s1, IntV(0 if op == '&&' else 1)))
            s2 = s.copy(); self.assume(s2, guard)
            if not self.infeasible(s2):
                for (s3, b) in self.ev(s2, r):
                    res.append((s3, b2i(truth(b))))
        return res

    def ev_ConditionalOperator(self, st, n):
        c, a, b = n['inner']
        res = []
        for (s, cv) in self.ev(st, c):
            cc = truth(cv)
            for (cond, br) in ((cc, a), (z3.Not(cc), b)):
                s2 = s.copy()
                self.assume(s2, cond)
                if z3.is_false(z3.simplify(cond)) or self.infeasible(s2):
                    continue
                res += self.ev(s2, br)
        return res

    def binop(self, st, op, a, b, ta, tb, tr):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            f = {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
                 '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
            if z3.is_int_value(a) and z3.is_int_value(b):
                f = z3.simplify(f)
            return b2i(f)
        if op in ('+', '-'):
            if ta[0] == 'ptr' and tb[0] == 'ptr':
                return a - b
            if ta[0] == 'ptr' or tb[0] == 'ptr':
                if ta[0] == 'ptr' and ta[1][0] in ('struct', 'union') or tb[0] == 'ptr' and tb[1][0] in ('struct', 'union'):
                    pass
                return simp_add(a, b) if op == '+' else simp_add(a, -b)
            if tr[0] == 'float':
                return z3.Function('fl!' + op, I, I, I)(a, b)
            t = simp_add(a, b) if op == '+' else simp_add(a, -b)
            return self.arith(st, t, tr)
        if tr[0] == 'float':
            return z3.Function('fl!' + op, I, I, I)(a, b)
        if op == '*':
            return self.arith(st, a * b, tr)
        if op in ('/', '%'):
            if self.opts.get('safety', True) and self.frames[-1].get('checks', True):
                self.obligation(st, b != 0, 'divisor non-zero', 'safety')
            if tr[0] == 'int' and not tr[2]:
                if not z3.is_int_value(b):
                    # symbolic divisor: Euclidean facts only
                    q, r = UDIV(a, b), UMOD(a, b)
                    self.assume(st, z3.Implies(b > 0, z3.And(0 <= r, r < b, 0 <= q, r <= a, q <= a, z3.Implies(a < b, z3.And(r == a, q == 0)))))
                    return q if op == '/' else r
                return a / b if op == '/' else a % b
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q if op == '/' else a - q * b
        if op in ('<<', '>>', '&', '|', '^'):
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                v = {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
                return self.conv(IntV(v), ('int', 128, True), tr)
            if op == '<<' and z3.is_int_value(b):
                return self.arith(st, a * (1 << b.as_long()), tr)
            if op == '>>' and z3.is_int_value(b) and tr[0] == 'int' and not tr[2]:
                return a / (1 << b.as_long())
            if op == '&' and z3.is_int_value(b) and (b.as_long() & (b.as_long() + 1)) == 0 and tr[0] == 'int' and not tr[2]:
                return a % (b.as_long() + 1)
            v = z3.Function('bit!' + op, I, I, I)(a, b)
            r = self.rng(tr, v)
            if r is not None:
                self.assume(st, r)
            return v
        raise Unsupported('binary ' + op)

    def assign(self, st, n, l, r):
        tu = self.tu_of()
        ty = tu.type_of(l)
        res = []
        if ty[0] in ('struct', 'union'):
            for (s, a) in self.ev(st, r):
                for (s2, loc) in self.lval(s, l):
                    self.copy_agg(s2, ty, loc[2], a)
                    res.append((s2, loc[2]))
            return res
        for (s, v) in self.ev(st, r):
            for (s2, loc) in self.lval(s, l):
                self.store(s2, loc, v)
                res.append((s2, v))
        return res

    def copy_agg(self, st, ty, dst, src):
        tu = self.tu_of()
        for i, (fn, ts, sub) in enumerate(tu.records[ty[1]]):
            ft = tu.field_type(ty[1], fn)
            if ft[0] in ('struct', 'union'):
                self.copy_agg(st, ft, dst, src)
            elif ft[0] == 'array':
                raise Unsupported('aggregate copy with array')
            else:
                l1 = self.field_loc(tu, ty[1], fn, i, src)
                l2 = self.field_loc(tu, ty[1], fn, i, dst)
                self.store(st, l2, self.load(st, l1, ft))

    def ev_CompoundAssignOperator(self, st, n):
        tu = self.tu_of()
        op = n['opcode'][:-1]
        l, r = n['inner']
        lt = tu.type_of(l)
        ct = n.get('computeResultType') or n['type']
        cty = tu.parse_type(ct.get('desugaredQualType') or ct['qualType'])
        res = []
        for (s, b) in self.ev(st, r):
            for (s2, loc) in self.lval(s, l):
                a = self.load(s2, loc, lt)
                if lt[0] == 'ptr':
                    v = simp_add(a, b) if op == '+' else simp_add(a, -b)
                else:
                    a2 = self.conv(a, lt, cty)
                    v = self.binop(s2, op, a2, b, cty, tu.type_of(r), cty)
                    v = self.conv(v, cty, lt)
                self.store(s2, loc, v)
                res.append((s2, v))
        return res

    def ev_StmtExpr(self, st, n):
        raise Unsupported('statement expression')

    def ev_VAArgExpr(self, st, n):
        h = self.opts.get('va_arg')
        if h:
            return h(self, st, n)
        raise Unsupported('va_arg')

    def ev_InitListExpr(self, st, n):
        raise Unsupported('init list')

    # ---------------------------------------------------------------- calls
    def ev_CallExpr(self, st, n):
        tu = self.tu_of()
        callee = n['inner'][0]
        argn = n['inner'][1:]
        hint = self.frames[-1].get('hint')
        self.frames[-1]['hint'] = None
        name = direct_callee(callee)
        if name in BUILTIN_NOP and name not in self.contracts and name not in self.builtins:
            states = [(st, [])]
        states = [(st, [])]
        if name is None:
            states = [(s, [f]) for (s, f) in self.ev(st, callee)]
        for a in argn:
            nxt = []
            for (s, vs) in states:
                if name is not None and (name.startswith('__builtin_va') or name.startswith('va_')):
                    nxt.append((s, vs + [IntV(0)]))
                    continue
                for (s2, v) in self.ev(s, a):
                    nxt.append((s2, vs + [v]))
            states = nxt
        res = []
        for (s, vs) in states:
            if name is None:
                f, args = vs[0], vs[1:]
                ft = tu.type_of(callee)
                fnm = f.decl().name() if z3.is_const(f) else ''
                if fnm.startswith('&fn:'):
                    res += self.call(s, fnm[4:], args, n, argn, hint)
                    continue
                if self.indirect is None:
                    raise Unsupported('indirect call')
                rt = self.safe_type(n)
                res += self.indirect(self, s, ft, f, args, rt, callee)
            else:
                res += self.call(s, name, vs, n, argn, hint)
        return res

    def safe_type(self, n):
        try:
            return self.tu_of().type_of(n)
        except Unsupported:
            return ('void',)

    def call(self, st, name, args, n, argn, hint):
        rt = self.safe_type(n)
        self.frames[-1]['callhint'] = hint
        if name in self.builtins:
            return self.builtins[name](self, st, args, rt, hint, n)
        c = self.contracts.get(name)
        force_inline = self.frames[0].get('contract') is not None and name in self.frames[0]['contract'].inline
        if c is not None and not force_inline:
            return self.call_contract(st, c, args, rt)
        if name in BUILTIN_NORETURN:
            self.aborts(st, name)
            return []
        if name in BUILTIN_NOP:
            v = self.fresh('nop')
            return [(st, v)]
        tu, fd = self.find_fn_pref(name)
        if fd is None:
            raise Unsupported('call to undeclared-contract external function ' + name)
        if any(f['name'] == name for f in self.frames):
            raise Unsupported('recursive function without contract ' + name)
        if len(self.frames) > 40:
            raise Unsupported('inlining too deep at ' + name)
        self.inlined.add(name)
        return self.inline_call(st, tu, fd, name, args)

    def find_fn_pref(self, name):
        tu = self.tu_of()
        if name in tu.funcs:
            return tu, tu.funcs[name]
        return self.find_fn(name)

    def aborts(self, st, name):
        if self.mute:
            return
        h = self.frames[0]['contract'].allow_abort if self.frames[0].get('contract') else True
        if h is True:
            return
        if h is False:
            self.obligation(st, z3.BoolVal(False), 'unexpected stop at %s()' % name, 'abort')
            return
        cx = self.frames[0]['ctx']
        cx2 = Ctx(self, cx.args, cx.pre, HV(self, st), None, st)
        self.obligation(st, h(cx2), 'stop at %s() only when specified' % name, 'abort')

    def inline_call(self, st, tu, fd, name, args):
        fr = self.push_frame(tu, fd, name)
        fr['checks'] = self.frames[-2].get('checks', True)
        try:
            self.bind_params(st, fd, args)
            body = [c for c in fd['inner'] if c['kind'] == 'CompoundStmt'][0]
            outs = self.exec(st, body)
        finally:
            self.frames.pop()
        res = []
        for (k, s, v) in outs:
            if k in ('normal', 'return'):
                res.append((s, v if v is not None else IntV(0)))
            else:
                raise Unsupported('stray ' + k)
        return res

    frame_n = 0
    def push_frame(self, tu, fd, name):
        Engine.frame_n += 1
        fr = {'tu': tu, 'name': name, 'id': Engine.frame_n, 'addr': {}, 'fd': fd, 'hint': None}
        fr['addrtaken'] = addr_taken(fd)
        self.frames.append(fr)
        return fr

    def bind_params(self, st, fd, args):
        ps = [c for c in fd.get('inner', []) if c['kind'] == 'ParmVarDecl']
        for p, a in zip(ps, args):
            self.declare(st, p, a)

    def varkey(self, d):
        fr = self.frames[-1]
        k = (fr['id'], d['id'])
        if k in fr.setdefault('known', {}):
            return k
        return None

    def globname(self, d):
        return d['name']

    def declare(self, st, d, val):
        fr = self.frames[-1]
        tu = fr['tu']
        k = (fr['id'], d['id'])
        ty = tu.type_of(d)
        fr.setdefault('known', {})[k] = (d.get('name', '_'), ty)
        if d['id'] in fr['addrtaken'] or ty[0] in ('struct', 'union', 'array', 'anonrec'):
            a = self.fresh('&local_' + d.get('name', ''))
            self.assume(st, a > 0)
            if self.opts.get('on_local'):
                self.opts['on_local'](self, st, a)
            fr['addr'][k] = a
            self.frames[0].setdefault('localaddrs', []).append(a)
            others = self.frames[0]['localaddrs'][:-1]
            for o in others[-8:]:
                self.assume(st, a != o)
            if val is not None and ty[0] not in ('struct', 'union', 'array', 'anonrec'):
                self.store(st, ('mem', self.ekey(ty), a), val)
            elif val is not None and ty[0] in ('struct', 'union'):
                self.copy_agg(st, ty, a, val)
        else:
            if val is not None:
                st.vars[k] = val
            else:
                st.vars.pop(k, None)
        return k

    def call_contract(self, st, c, args, rt):
        self.used_contracts.add(c.name)
        if c.trusted:
            self.trusted_used.add(c.name)
        pre = HV(self, st)
        cx = Ctx(self, args, pre, pre, None, st, contract=c)
        for (lab, f) in c.requires(cx):
            self.obligation(st, f, 'precondition of %s: %s' % (c.name, lab), 'precondition')
        if c.noreturn:
            self.aborts(st, c.name)
            return []
        s = st.copy()
        pre = HV(self, st.copy(), s)
        ret = self.fresh('ret_' + c.name)
        r = self.rng(rt, ret)
        if r is not None:
            self.assume(s, r)
        cx = Ctx(self, args, pre, None, ret, s, contract=c)
        mods = c.modifies(cx) if c.modifies else {}
        if mods == '*':
            keep = c.preserves(cx) if c.preserves else []
            for k in keep:
                self.harr(s, k)
            Engine.frame_n += 1
            nb = Engine.frame_n + 100000
            s.heap = {k: s.heap[k] for k in keep}
            s.base = nb
        else:
            for key, may in mods.items():
                old = self.harr(s, key)
                new = self.fresh(key, self.sort_of_key(key))
                s.heap[key] = new
                if may is not None:
                    a = z3.Int('a!f')
                    g = may(a)
                    self.assume(s, z3.ForAll([a], z3.Implies(z3.Not(g), z3.Select(new, a) == z3.Select(old, a)),
                                             patterns=[z3.Select(new, a)]))
        cx.post = HV(self, s)
        for e in c.ensures(cx):
            self.assume(s, e[1])
        return [(s, ret)]

    # ----------------------------------------------------------- statements
    def exec(self, st, n):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m is not None:
            return m(st, n)
        # expression statement
        return [('normal', s, None) for (s, v) in self.ev(st, n)]

    def ex_NullStmt(self, st, n):
        return [('normal', st, None)]

    def ex_CompoundStmt(self, st, n):
        return self.exec_seq(st, n.get('inner', []))

    def exec_seq(self, st, stmts):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for o in self.exec(x, s):
                    if o[0] == 'normal':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            cur = nxt
            if len(cur) + len(done) > MAXSTATES:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of symbolic execution used up')
            if not cur:
                break
        return done + [('normal', x, None) for x in cur]

    def ex_DeclStmt(self, st, n):
        cur = [st]
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            if d.get('storageClass') == 'static':
                self.statics(d)
                continue
            nxt = []
            for s in cur:
                init = [c for c in d.get('inner', []) if c.get('kind') != 'FullComment' and not c.get('kind', '').endswith('Attr')]
                if d.get('init') and init:
                    e = init[-1]
                    if e['kind'] == 'InitListExpr':
                        k = self.declare(s, d, None)
                        ty = self.tu_of().type_of(d)
                        nxt += self.init_list(s, ty, self.frames[-1]['addr'][k], e)
                        continue
                    for (s2, v) in self.ev(s, e):
                        self.declare(s2, d, v)
                        nxt.append(s2)
                else:
                    self.declare(s, d, None)
                    nxt.append(s)
            cur = nxt
        return [('normal', s, None) for s in cur]

    def init_list(self, st, ty, a, e):
        cur = [st]
        tu = self.tu_of()
        items = e.get('inner', [])
        if ty[0] == 'array':
            for i, it in enumerate(items):
                nxt = []
                for s in cur:
                    for (s2, v) in self.ev(s, it):
                        self.store(s2, ('mem', self.ekey(ty[1]), simp_add(a, IntV(i))), v)
                        nxt.append(s2)
                cur = nxt
            return cur
        if ty[0] == 'struct':
            for i, (it, (fn, _, _)) in enumerate(zip(items, tu.records[ty[1]])):
                nxt = []
                for s in cur:
                    for (s2, v) in self.ev(s, it):
                        self.store(s2, self.field_loc(tu, ty[1], fn, i, a), v)
                        nxt.append(s2)
                cur = nxt
            return cur
        raise Unsupported('initialiser')

    def statics(self, d):
        # function-level static: a global named fn.name
        pass

    def split(self, st, cond):
        out = []
        c = cond
        if z3.is_true(c):
            return [(True, st)]
        if z3.is_false(c):
            return [(False, st)]
        dec = self.opts.get('decide')
        r = dec(self, st, c) if dec else None
        if r is not None:
            return [(r, st)]
        for b in (True, False):
            s = st.copy()
            self.assume(s, c if b else z3.Not(c))
            if self.infeasible(s):
                continue
            out.append((b, s))
        return out

    def ex_IfStmt(self, st, n):
        parts = n['inner']
        cond = parts[0]
        th = parts[1]
        el = parts[2] if len(parts) > 2 else None
        out = []
        n0 = len(st.pc)
        base = st
        for (s, v) in self.ev(st, cond):
            o0 = len(out)
            keep = s.copy()
            known = {k for f in self.frames for k in f.get('known', {})}
            for (b, s2) in self.split(s, z3.simplify(truth(v)) if not has_quant(truth(v)) else truth(v)):
                if b:
                    out += self.exec(s2, th)
                elif el is not None:
                    out += self.exec(s2, el)
                else:
                    out.append(('normal', s2, None))
            # branches without effect on the state are one path
            if len(out) - o0 > 1 and all(k == 'normal' and same_state(keep, s2, known) for (k, s2, _) in out[o0:]):
                sufs = [z3.And(s2.pc[len(keep.pc):]) for (_, s2, _) in out[o0:]]
                if not (len(sufs) == 2 and (z3.is_true(z3.simplify(z3.Or(sufs))) if not any(has_quant(x) for x in sufs) else False)):
                    self.assume(keep, z3.Or(sufs))
                out[o0:] = [('normal', keep, None)]
        if self.frames[0].get('merge'):
            out = self.merge(out, n0, base)
        return out

    def merge(self, outs, n0, base):
        norm = [o for o in outs if o[0] == 'normal']
        rest = [o for o in outs if o[0] != 'normal']
        if len(norm) < 2:
            return outs
        sts = [o[1] for o in norm]
        if any(s.base != sts[0].base for s in sts) or any(len(s.allocs) != len(sts[0].allocs) or len(s.freed) != len(sts[0].freed) for s in sts):
            return outs
        if any(not all(x.eq(y) for x, y in zip(s.allocs, sts[0].allocs)) for s in sts):
            return outs
        common = n0
        m = St()
        m.base = sts[0].base
        m.allocs = sts[0].allocs; m.freed = sts[0].freed; m.events = sts[0].events
        m.pc = list(sts[0].pc[:common])
        bs = [self.fresh('br', z3.BoolSort()) for _ in sts]
        m.pc.append(z3.Or(bs))
        for b, s in zip(bs, sts):
            suf = s.pc[common:]
            if suf:
                m.pc.append(z3.Implies(b, z3.And(suf)))
        def pick(vals):
            if all(v.eq(vals[0]) for v in vals):
                return vals[0]
            t = vals[-1]
            for b, v in zip(reversed(bs[:-1]), reversed(vals[:-1])):
                t = z3.If(b, v, t)
            return t
        keys = set(sts[0].vars)
        for s in sts[1:]:
            keys &= set(s.vars)
        for k in keys:
            m.vars[k] = pick([s.vars[k] for s in sts])
        hk = set()
        for s in sts:
            hk |= set(s.heap)
        for k in hk:
            m.heap[k] = pick([self.harr(s, k) for s in sts])
        return rest + [('normal', m, None)]

    def ex_ReturnStmt(self, st, n):
        if not n.get('inner'):
            return [('return', st, None)]
        return [('return', s, v) for (s, v) in self.ev(st, n['inner'][0])]

    def ex_BreakStmt(self, st, n):
        return [('break', st, None)]
    def ex_ContinueStmt(self, st, n):
        return [('continue', st, None)]

    def ex_LabelStmt(self, st, n):
        return self.exec(st, n['inner'][0])

    def ex_SwitchStmt(self, st, n):
        cond, body = n['inner'][-2], n['inner'][-1]
        items = body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]
        # flatten case labels
        flat = []       # (labels, stmt)
        def flatten(x):
            labels = []
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    labels.append(x['inner'][0]); x = x['inner'][-1]
                else:
                    labels.append('default'); x = x['inner'][-1]
            flat.append((labels, x))
        for it in items:
            flatten(it)
        out = []
        n0 = len(st.pc)
        for (s, v) in self.ev(st, cond):
            consts = []
            for i, (labels, x) in enumerate(flat):
                for lb in labels:
                    if lb != 'default':
                        cv = self.ev(s, lb)[0][1]
                        consts.append((i, cv))
            targets = {}
            for i, cv in consts:
                targets.setdefault(i, []).append(v == cv)
            dflt = [i for i, (labels, x) in enumerate(flat) if 'default' in labels]
            nomatch = z3.And([v != cv for (_, cv) in consts]) if consts else z3.BoolVal(True)
            entries = []
            for i, cs in targets.items():
                c = z3.Or(cs)
                if i in dflt:
                    c = z3.Or(c, nomatch)
                entries.append((i, c))
            if dflt and dflt[0] not in targets:
                entries.append((dflt[0], nomatch))
            if not dflt:
                entries.append((len(flat), nomatch))
            for (i, c) in entries:
                s2 = s.copy()
                c = z3.simplify(c)
                if z3.is_false(c):
                    continue
                self.assume(s2, c)
                if self.infeasible(s2):
                    continue
                for o in self.exec_seq(s2, [x for (_, x) in flat[i:]]):
                    if o[0] == 'break':
                        out.append(('normal', o[1], None))
                    else:
                        out.append(o)
        if self.frames[0].get('merge'):
            out = self.merge(out, n0, st)
        return out

    # ---------------------------------------------------------------- loops
    def ex_WhileStmt(self, st, n):
        return self.loop(st, n['inner'][0], n['inner'][1], None, False, n)
    def ex_DoStmt(self, st, n):
        return self.loop(st, n['inner'][1], n['inner'][0], None, True, n)
    def ex_ForStmt(self, st, n):
        parts = n['inner']
        init, cv, cond, inc, body = parts[0], parts[1], parts[2], parts[3], parts[4]
        out = []
        if init.get('kind'):
            pre = self.exec(st, init)
        else:
            pre = [('normal', st, None)]
        for (k, s, v) in pre:
            out += self.loop(s, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None, False, n)
        return out

    def run_body(self, st, cond, body, inc, do):
        """one iteration from loop head: -> (exits, backs, others)"""
        exits, backs, others = [], [], []
        def test(s):
            if cond is None:
                return [(True, s)]
            r = []
            for (s2, v) in self.ev(s, cond):
                c = truth(v)
                r += self.split(s2, z3.simplify(c) if not has_quant(c) else c)
            return r
        def after(s):
            ss = [s]
            if inc is not None:
                ss = [x for (x, _) in self.ev(s, inc)]
            return ss
        starts = []
        if do:
            starts = [st]
        else:
            for (b, s) in test(st):
                (starts if b else exits).append(s)
        for s in starts:
            for (k, s2, v) in self.exec(s, body):
                if k in ('normal', 'continue'):
                    for s3 in after(s2):
                        if do:
                            for (b, s4) in test(s3):
                                (backs if b else exits).append(s4)
                        else:
                            backs.append(s3)
                elif k == 'break':
                    exits.append(s2)
                else:
                    others.append((k, s2, v))
        return exits, backs, others

    def loop(self, st, cond, body, inc, do, node):
        fr = self.frames[-1]
        # name compound arrays first, so that naming does not look like modification
        for key in sorted(st.heap):
            HV(self, st)[key]
        # 1. what may change
        mvars = assigned_vars(body) | (assigned_vars(cond) if cond else set()) | (assigned_vars(inc) if inc else set())
        mkeys = set()
        allheap = False
        declared_in = declared_vars(body)
        lean = self.opts.get('lean_loops')       # nested loops: infer what may change once, never try a dropped candidate again
        lid = (node.get('id'), fr['name'], self.frames[0]['name'])
        if lean and lid in self.loopkeys:
            mkeys, allheap = self.loopkeys[lid]
            mkeys = set(mkeys)
        self.scout += 1
        self.mute += 1
        try:
            for _ in range(8):
                h = self.havoc(st, mvars, mkeys, allheap)
                before = dict(h.heap); bbase = h.base
                snap_known = dict(fr.get('known', {}))
                exits, backs, others = self.run_body(h.copy(), cond, body, inc, do)
                new = set()
                grew = False
                for s in backs + exits:
                    if s.base != bbase:
                        if not allheap:
                            allheap = True; grew = True
                    for k, a in s.heap.items():
                        b = before.get(k)
                        if b is None:
                            b = z3.Const('%s@%d' % (k, h.base), self.sort_of_key(k))
                        if not a.eq(b) and k not in mkeys:
                            new.add(k)
                if not new and not grew:
                    break
                mkeys |= new
        finally:
            self.mute -= 1
            self.scout -= 1
        if lean:
            self.loopkeys[lid] = (frozenset(mkeys), allheap)
            if self.scout:                        # somebody only asks what may change
                return [('normal', s, None) for s in exits] + others
        # 2. candidates
        L = LoopCtx()
        L.eng = self; L.entry = HV(self, st.copy()); L.mkeys = mkeys
        L.fctx = self.frames[0].get('ctx')
        L.frame = fr
        L.node = node
        vis = []
        for f in self.frames:
            for k, (nm, ty) in f.get('known', {}).items():
                if k in st.vars and k[1] not in declared_in:
                    vis.append((k, nm, ty))
        L.vars = vis
        L.modified = {(fr['id'], i) for i in mvars}
        L.st = st
        cands = []
        tmpl = None
        if self.frames[0].get('contract') is not None:
            tmpl = self.frames[0]['contract'].templates
        tmpl = tmpl or self.templates
        if tmpl:
            cands = list(tmpl(L))
        cands += self.default_cands(L)
        # entry filter: candidate must hold on entry
        live = []
        seen = set()
        gone = self.dropped.setdefault(lid, set()) if lean else set()
        for (lab, f) in cands:
            if lab in gone:
                continue
            g = f(LState(self, st))
            if g is None:
                continue
            h = g.sexpr()
            # distinct on a havoced state
            if self.entails(st.pc, g):
                live.append((lab, f))
            else:
                gone.add(lab)
                self.dbg('entry', lab, st)
        # 3. Houdini
        self.mute += 1
        settled = None
        try:
            rounds = 0
            while live:
                rounds += 1
                h = self.havoc(st, mvars, mkeys, allheap)
                for (lab, f) in live:
                    self.assume(h, f(LState(self, h)))
                exits, backs, others = self.run_body(h.copy(), cond, body, inc, do)
                bad = set()
                for s in backs:
                    for i, (lab, f) in enumerate(live):
                        if i in bad:
                            continue
                        t9 = time.time()
                        ok9 = self.entails(s.pc, f(LState(self, s)))
                        if os.environ.get('CCV_LOOPS') and time.time() - t9 > 0.5:
                            print('     slow', lab, ok9, '%.1f' % (time.time() - t9))
                        if not ok9:
                            bad.add(i); gone.add(lab); self.dbg("drop", lab, s)
                if os.environ.get('CCV_LOOPS'):
                    print('loop', node.get('id')[-5:], 'round', rounds, 'live', len(live), 'paths', len(backs), len(exits), 'dropped', [live[i][0] for i in bad], '%.1f' % time.time(), flush=True)
                if not bad:
                    settled = (h, exits, backs, others)
                    break
                live = [c for i, c in enumerate(live) if i not in bad]
                if rounds > 40:
                    raise Unsupported('invariant inference does not settle')
        finally:
            self.mute -= 1
        # 4. real run with obligations
        if self.mute and settled:                 # nothing to record: the last round was this run
            h, exits, backs, others = settled
        else:
            h = self.havoc(st, mvars, mkeys, allheap)
            for (lab, f) in live:
                self.assume(h, f(LState(self, h)))
            exits, backs, others = self.run_body(h.copy(), cond, body, inc, do)
        if not self.mute:
            for (lab, f) in live:
                # inductiveness was discharged by the same back end during selection
                self.stat['obligations'] += 1 + len(backs)
                self.stat['discharged'] += 1 + len(backs)
                self.stat['backends']['z3'] = self.stat['backends'].get('z3', 0) + 1 + len(backs)
            # termination measure
            ms = self.opts.get('measures')
            meas = None
            if self.frames[0].get('contract') is not None and getattr(self.frames[0]['contract'], 'measures', None):
                meas = self.frames[0]['contract'].measures
            meas = meas or ms
            if meas is not None and backs:
                ok = False
                tried = list(meas(L)) + self.default_measures(L)
                for (lab, f) in tried:
                    m0 = f(LState(self, h))
                    if m0 is None:
                        continue
                    if not isinstance(m0, tuple):
                        m0 = (m0,)
                    good = True
                    for s in backs:
                        m1 = f(LState(self, s))
                        if not isinstance(m1, tuple):
                            m1 = (m1,)
                        g = lex_less(m1, m0)
                        if not self.entails(s.pc, g):
                            good = False; break
                    if good:
                        ok = True
                        self.stat['obligations'] += 1; self.stat['discharged'] += 1
                        self.stat['backends']['z3'] = self.stat['backends'].get('z3', 0) + 1
                        break
                if not ok:
                    self.obligation(backs[0].copy(), z3.BoolVal(False), 'loop terminates (a measure decreases)', 'termination')
        out = [('normal', s, None) for s in exits] + others
        L.live = live
        self.looplog = getattr(self, 'looplog', [])
        if not self.mute:
            self.looplog.append((fr['name'], [lab for (lab, f) in live]))
        return out

    def default_cands(self, L):
        out = []
        for (k, nm, ty) in L.vars:
            if k in L.modified and ty[0] == 'int':
                v0 = L.st.vars[k]
                out.append(('%s >= entry' % nm, lambda S, k=k, v0=v0: S.v(k) >= v0))
                out.append(('%s <= entry' % nm, lambda S, k=k, v0=v0: S.v(k) <= v0))
                r = self.rng(ty, v0)
        # the frame of the function, as an invariant of every loop
        c = self.frames[0].get('contract')
        if c is not None and L.fctx is not None and c.modifies:
            mods = c.modifies(L.fctx)
            if mods != '*':
                nofr = set(self.opts.get('noframe', ()))
                for key in sorted(L.mkeys):
                    if key in nofr or (key in mods and mods[key] is None):
                        continue
                    out.append(('frame of ' + key, lambda S, key=key: self.frame_formula(key, mods.get(key), S.h[key], L.fctx.pre, True)))
        return out

    def frame_formula(self, key, may, new, pre, trigger=False):
        a = z3.Int('a!fr')
        old = pre[key]
        g = may(a) if may is not None else z3.BoolVal(False)
        if key.startswith('mem:') or '.' in key or key == 'live':
            wasfresh = z3.BoolVal(False)
            if self.opts.get('live', False) or self.opts.get('fresh_frame', False):
                wasfresh = z3.Not(z3.Select(pre['live'], a)) if key != 'live' else z3.BoolVal(False)
                if key.startswith('mem:'):
                    conv = self.opts.get('mem_owner')
                    if conv:
                        wasfresh = z3.Not(z3.Select(pre['live'], conv(key, a)))
            loc = [z3.And(a != 0, a == l) for l in self.frames[0].get('localaddrs', [])]
            g = z3.Or([g, wasfresh] + loc)
        if key.startswith('g:') and may is None:
            return new == old
        if trigger and z3.is_const(new):
            return z3.ForAll([a], z3.Implies(z3.Not(g), z3.Select(new, a) == z3.Select(old, a)), patterns=[z3.Select(new, a)])
        return z3.ForAll([a], z3.Implies(z3.Not(g), z3.Select(new, a) == z3.Select(old, a)))

    def default_measures(self, L):
        out = []
        ints = [(k, nm, ty) for (k, nm, ty) in L.vars if ty[0] == 'int']
        for (k, nm, ty) in ints:
            if k in L.modified:
                out.append(('down ' + nm, lambda S, k=k: S.v(k)))
                for (k2, nm2, ty2) in ints:
                    if k2 != k:
                        out.append(('%s-%s' % (nm2, nm), lambda S, k=k, k2=k2: S.v(k2) - S.v(k)))
        return out

    def havoc(self, st, mvars, mkeys, allheap):
        h = st.copy()
        fr = self.frames[-1]
        for i in mvars:
            k = (fr['id'], i)
            if k in h.vars:
                nm, ty = fr['known'][k]
                v = self.fresh('hv_' + nm)
                h.vars[k] = v
                r = self.rng(ty, v)
                if r is not None:
                    self.assume(h, r)
        if allheap:
            Engine.frame_n += 1
            h.base = Engine.frame_n + 200000
            h.heap = {}
        for key in sorted(mkeys):
            h.heap[key] = self.fresh('hv_' + key, self.sort_of_key(key))
        return h

    # ------------------------------------------------------------ top level
    def verify(self, name):
        """all obligations of one function under contract"""
        c = self.contracts[name]
        tu, fd = self.find_fn(name)
        if fd is None:
            raise Unsupported('function %s not found in the current tree' % name)
        self.curfn = name
        self.obs = []
        self.frames = []
        st = St()
        fr = self.push_frame(tu, fd, name)
        fr['contract'] = c
        fr['merge'] = c.merge
        fr['checks'] = c.checks
        fr['localaddrs'] = []
        args = []
        ps = [p for p in fd.get('inner', []) if p['kind'] == 'ParmVarDecl']
        for p in ps:
            ty = tu.type_of(p)
            a = z3.Int('arg_%d' % len(args))
            r = self.rng(ty, a)
            if r is not None:
                self.assume(st, r)
            args.append(a)
        pre = HV(self, st.copy())
        cx = Ctx(self, args, pre, pre, None, st, contract=c)
        fr['ctx'] = cx
        for (lab, f) in c.requires(cx):
            self.assume(st, f)
        for (lab, f) in (c.assume(cx) if c.assume else []):
            self.assume(st, f)
        prest = st.copy()
        cx.pre = HV(self, prest)
        self.bind_params(st, fd, args)
        n_pre = len(st.pc)
        body = [x for x in fd['inner'] if x['kind'] == 'CompoundStmt'][0]
        self.case = None
        if c.cases:
            outs = []
            cs = c.cases(cx)
            self.obligation(st, z3.Or([f for (_, f, _) in cs]), 'the cases are all cases', 'assertion')
            for (lab, f, data) in cs:
                s = st.copy()
                self.assume(s, f)
                self.case = data
                outs += self.exec(s, body)
        else:
            outs = self.exec(st, body)
        rets = [(s, v) for (k, s, v) in outs if k in ('normal', 'return')]
        if any(k in ('break', 'continue') for (k, _, _) in outs):
            raise Unsupported('stray break')
        self.retstates = []
        nret = 0
        for (s, v) in rets:
            ret = v if v is not None else IntV(0)
            nret += 1
            self.finish(c, cx, s, ret, nret)
            self.retstates.append(s)
        self.prestate = prest
        self.frames.pop()
        return self.obs

    def finish(self, c, cx, s, ret, idx):
        alts = c.ghost or [None]
        if not isinstance(alts, (list, tuple)):
            alts = [alts]
        best = None
        for gi, g in enumerate(alts):
            s2 = s.copy()
            c2 = Ctx(self, cx.args, cx.pre, HV(self, s2), ret, s2, contract=c)
            if g is not None:
                upd = g(c2)
                for k, a in upd.items():
                    s2.heap[k] = a
                c2.post = HV(self, s2)
            todo = []
            for e in c.ensures(c2):
                todo.append((e[0], e[1], 'postcondition'))
            todo += self.frame_obs(c, c2, s2)
            if len(alts) > 1:
                fails = 0
                for (lab, f, kind) in todo:
                    if not self.entails(s2.pc, f, 5000):
                        fails += 1
                        break
                if fails == 0:
                    best = (s2, todo); break
                if best is None:
                    best = (s2, todo)
            else:
                best = (s2, todo)
        s2, todo = best
        for (lab, f, kind) in todo:
            n0 = len(s2.pc)
            self.obligation(s2, f, '%s (path %d)' % (lab, idx), kind)
            del s2.pc[n0:]

    def frame_obs(self, c, c2, s2):
        out = []
        mods = c.modifies(c2) if c.modifies else {}
        if mods == '*':
            keep = c.preserves(c2) if c.preserves else []
            for k in keep:
                a, b = self.harr(s2, k), c2.pre[k]
                if not a.eq(b):
                    out.append(('frame: %s unchanged' % k, a == b, 'frame'))
            return out
        nofr = set(self.opts.get('noframe', ()))
        if '*' in nofr:
            return out
        for key in sorted(s2.heap):
            if key in nofr:
                continue
            new = s2.heap[key]
            old = c2.pre[key]
            if new.eq(old):
                continue
            if key in mods and mods[key] is None:
                continue
            out.append(('frame: only specified locations of %s change' % key,
                        self.frame_formula(key, mods.get(key), new, c2.pre), 'frame'))
        return out

def same_state(a, b, known=()):
    if a.base != b.base or a.allocs != b.allocs or len(a.freed) != len(b.freed):
        return False
    for k, v in a.vars.items():
        if k not in b.vars or not b.vars[k].eq(v):
            return False
    if any(k not in a.vars and k in known for k in b.vars):        # a declared variable gets its first value
        return False
    for k in set(a.heap) | set(b.heap):
        x, y = a.heap.get(k), b.heap.get(k)
        if y is None or x is None:
            if x is None and z3.is_const(y) and y.decl().name() == '%s@%d' % (k, b.base):
                continue
            return False
        if not x.eq(y):
            return False
    return True

class LState:
    def __init__(self, eng, st):
        self.eng = eng; self.st = st; self.h = HV(eng, st)
    def v(self, k):
        return self.st.vars[k]

def lex_less(m1, m0):
    # lexicographic decrease of non-negative measures
    cs = []
    for i in range(len(m0)):
        cs.append(z3.And([m1[j] == m0[j] for j in range(i)] + [m1[i] < m0[i], m0[i] >= 0]))
    return z3.Or(cs)

def simp_add(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return IntV(a.as_long() + b.as_long())
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    # fold (x + c1) + c2
    if z3.is_int_value(b) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return simp_add(a.arg(0), IntV(a.arg(1).as_long() + b.as_long()))
    return a + b

_hq = {}
def has_quant(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    if z3.is_quantifier(f):
        v = True
    else:
        v = any(has_quant(c) for c in f.children())
    _hq[i] = (f, v)
    return v

def direct_callee(n):
    while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    if n['kind'] == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'FunctionDecl':
        return n['referencedDecl']['name']
    return None

def describe(n):
    k = n.get('kind')
    if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr'):
        return describe(n['inner'][0])
    if k == 'DeclRefExpr':
        return n['referencedDecl'].get('name', '?')
    if k == 'MemberExpr':
        return describe(n['inner'][0]) + ('->' if n.get('isArrow') else '.') + n.get('name', '')
    if k == 'ArraySubscriptExpr':
        return describe(n['inner'][0]) + '[' + describe(n['inner'][1]) + ']'
    if k == 'CallExpr':
        return describe(n['inner'][0]) + '(..)'
    if k == 'IntegerLiteral':
        return n['value']
    if k == 'UnaryOperator':
        return n['opcode'] + describe(n['inner'][0])
    return '..'

def _walk(n):
    yield n
    for c in n.get('inner', []):
        if isinstance(c, dict):
            yield from _walk(c)

def _base_decl(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    if n.get('kind') == 'DeclRefExpr':
        return n['referencedDecl']['id']
    if n.get('kind') == 'MemberExpr' and not n.get('isArrow'):
        return _base_decl(n['inner'][0])
    return None

def assigned_vars(n):
    out = set()
    if n is None:
        return out
    for x in _walk(n):
        k = x.get('kind')
        if (k == 'BinaryOperator' and x['opcode'] == '=') or k == 'CompoundAssignOperator':
            d = _base_decl(x['inner'][0])
            if d:
                out.add(d)
        elif k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            d = _base_decl(x['inner'][0])
            if d:
                out.add(d)
    return out

def declared_vars(n):
    return {x['id'] for x in _walk(n) if x.get('kind') == 'VarDecl'}

def addr_taken(fd):
    out = set()
    for x in _walk(fd):
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
            d = _base_decl(x['inner'][0])
            if d:
                out.add(d)
    return out
