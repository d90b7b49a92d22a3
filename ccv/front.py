"""Mechanical extraction of the real C functions: clang's own AST of the file in
/repo (JSON), after preprocessing with the build's flags.  Nothing is rewritten by
hand; what is dropped is: attributes, source locations, `const`/`volatile`, calls
to diagnostics-only functions listed in exec.BUILTIN_NOP."""
import json, os, re, subprocess, hashlib

class FrontError(Exception):
    pass

class Unsupported(Exception):
    """construct outside the subset this verifier translates"""

INT = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False),
    'long long': (64, True), 'unsigned long long': (64, False),
    '__int128': (128, True), 'unsigned __int128': (128, False),
    'long int': (64, True),
}

class TU:
    def __init__(self, path, flags):
        self.path = path
        cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + flags + [path]
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode != 0 or not p.stdout:
            raise FrontError('clang failed on %s: %s' % (path, p.stderr.decode()[-600:]))
        self.root = json.loads(p.stdout)
        self.typedefs = {}
        self.records = {}      # name -> list of (field, typestr, decl)
        self.rec_kind = {}     # name -> struct / union
        self.field_by_id = {}  # decl id -> (record name, field name, index)
        self.anon_by_id = {}   # record decl id -> name
        self.enums = {}        # const name -> value
        self.enum_by_id = {}
        self.enum_decls = {}   # enum name -> [names]
        self.funcs = {}        # name -> FunctionDecl with body
        self.protos = {}
        self.globals = {}      # name -> VarDecl
        for d in self.root.get('inner', []):
            self._top(d)

    def _top(self, d):
        k = d.get('kind')
        if k == 'TypedefDecl':
            self.typedefs[d['name']] = d['type'].get('desugaredQualType') or d['type']['qualType']
            # anonymous record typedef
        elif k == 'RecordDecl':
            self._record(d, None)
        elif k == 'EnumDecl':
            self._enum(d)
        elif k == 'FunctionDecl':
            if any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
                self.funcs[d['name']] = d
            self.protos.setdefault(d['name'], d)
        elif k == 'VarDecl':
            old = self.globals.get(d['name'])
            if old is None or d.get('init') or not old.get('init'):
                self.globals[d['name']] = d
        self._nested(d)

    def _nested(self, d):
        # records / enums defined inside functions
        if d.get('kind') != 'FunctionDecl':
            return
        def walk(n):
            if not isinstance(n, dict):
                return
            if n.get('kind') == 'RecordDecl':
                self._record(n, None)
            if n.get('kind') == 'EnumDecl':
                self._enum(n)
            for c in n.get('inner', []):
                walk(c)
        for c in d.get('inner', []):
            walk(c)

    def _enum(self, d):
        v = -1
        names = []
        for c in d.get('inner', []):
            if c.get('kind') != 'EnumConstantDecl':
                continue
            val = None
            for e in c.get('inner', []):
                val = _find_value(e)
            v = int(val) if val is not None else v + 1
            self.enums[c['name']] = v
            self.enum_by_id[c['id']] = v
            names.append(c['name'])
        if d.get('name'):
            self.enum_decls[d['name']] = names

    def _record(self, d, parent):
        name = d.get('name')
        if not name:
            name = '%s#%s' % (parent or 'anon', self._n(d))
        self.anon_by_id[d['id']] = name
        if not d.get('completeDefinition'):
            return name
        fields = []
        pend = None
        for c in d.get('inner', []):
            if c.get('kind') == 'RecordDecl':
                pend = self._record(c, name)
            elif c.get('kind') == 'EnumDecl':
                self._enum(c)
            elif c.get('kind') == 'FieldDecl':
                ts = c['type'].get('desugaredQualType') or c['type']['qualType']
                ts0 = c['type']['qualType']
                fn = c.get('name', '')
                rec = None
                if 'unnamed' in ts0 or 'anonymous' in ts0:
                    rec = pend
                idx = len(fields)
                fields.append((fn or '_anon%d' % idx, ts0 if 'typeAliasDeclId' in c['type'] or True else ts, rec))
                self.field_by_id[c['id']] = (name, fn or '_anon%d' % idx, idx)
        self.records[name] = fields
        self.rec_kind[name] = d.get('tagUsed')
        return name

    _cnt = 0
    def _n(self, d):
        TU._cnt += 1
        return str(TU._cnt)

    # ---- types -------------------------------------------------------------
    def parse_type(self, s, depth=0):
        if depth > 30:
            raise Unsupported('type recursion ' + s)
        s = s.strip()
        s = re.sub(r'\b(const|volatile|restrict|__restrict|_Noreturn)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        if s.endswith(')'):
            # function type or function pointer
            m = re.match(r'^(.*?)\(\s*\*+\s*\)\s*\((.*)\)$', s)
            if m:
                return ('ptr', ('func', re.sub(r'\s+', '', self._desugar_text(s))))
            return ('func', re.sub(r'\s+', '', s))
        m = re.match(r'^(.*?)\(\s*\*+\s*\)\s*\((.*)\)', s)
        if m and not s.endswith(']'):
            return ('ptr', ('func', re.sub(r'\s+', '', s)))
        m = re.match(r'^(.*)\(\*(\[\d*\])\)\(.*\)$', s)
        if m:
            n = re.findall(r'\d+', m.group(2))
            return ('array', ('ptr', ('func', s)), int(n[0]) if n else None)
        m = re.match(r'^(.*?)((?:\[\d*\])+)$', s)
        if m:
            t = self.parse_type(m.group(1), depth + 1)
            for n in reversed(re.findall(r'\[(\d*)\]', m.group(2))):
                t = ('array', t, int(n) if n else None)
            return t
        if s.endswith('*'):
            return ('ptr', self.parse_type(s[:-1], depth + 1))
        for tag in ('struct', 'union'):
            if s.startswith(tag + ' '):
                return (tag, s[len(tag) + 1:].strip())
        if s.startswith('enum '):
            return ('int', 32, False)
        if s in ('_Bool', 'bool'):
            return ('bool',)
        if s == 'void':
            return ('void',)
        if s in INT:
            return ('int',) + INT[s]
        if s in ('float', 'double', 'long double'):
            return ('float',)
        if s in self.typedefs:
            return self.parse_type(self.typedefs[s], depth + 1)
        if s.startswith('__builtin_va_list') or s == '__va_list_tag' or 'va_list' in s:
            return ('void',)
        if s in self.records:
            return (self.rec_kind[s], s)
        raise Unsupported('type ' + s)

    def _desugar_text(self, s):
        return s

    def type_of(self, node):
        t = node['type']
        s = t.get('desugaredQualType') or t['qualType']
        if 'unnamed' in s or 'anonymous' in s:
            return ('anonrec', s)
        return self.parse_type(s)

    def field_type(self, rec, name):
        for (fn, ts, sub) in self.records[rec]:
            if fn == name:
                if sub is not None:
                    return (self.rec_kind.get(sub, 'struct'), sub)
                return self.parse_type(ts)
        raise Unsupported('field %s.%s' % (rec, name))

    def sizeof(self, t):
        if t[0] == 'int':
            return t[1] // 8
        if t[0] == 'bool':
            return 1
        if t[0] == 'ptr':
            return 8
        if t[0] == 'float':
            return 8
        if t[0] == 'array':
            return self.sizeof(t[1]) * (t[2] or 0)
        if t[0] == 'struct':
            off = 0
            mx = 1
            if t[1] not in self.records:
                raise Unsupported('sizeof incomplete ' + t[1])
            for (fn, ts, sub) in self.records[t[1]]:
                ft = self.field_type(t[1], fn)
                a = self.alignof(ft)
                mx = max(mx, a)
                off = (off + a - 1) // a * a + self.sizeof(ft)
            return max((off + mx - 1) // mx * mx, 0)
        if t[0] == 'union':
            mx, al = 0, 1
            for (fn, ts, sub) in self.records[t[1]]:
                ft = self.field_type(t[1], fn)
                mx = max(mx, self.sizeof(ft)); al = max(al, self.alignof(ft))
            return (mx + al - 1) // al * al
        if t[0] in ('void', 'func'):
            return 1
        raise Unsupported('sizeof %r' % (t,))

    def alignof(self, t):
        if t[0] == 'array':
            return self.alignof(t[1])
        if t[0] in ('struct', 'union'):
            return max([self.alignof(self.field_type(t[1], fn)) for (fn, _, _) in self.records[t[1]]] or [1])
        return max(1, self.sizeof(t))

def _find_value(e):
    if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral', 'CharacterLiteral'):
        return e['value']
    for c in e.get('inner', []):
        v = _find_value(c)
        if v is not None:
            return v
    return None

_cache = {}
def load(path, flags):
    k = (path, tuple(flags))
    if k not in _cache:
        _cache[k] = TU(path, flags)
    return _cache[k]
