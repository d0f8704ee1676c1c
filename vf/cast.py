"""Front end: /repo source -> clang's typed AST (JSON) -> a small typed tree.

Nothing in here rewrites the program: the AST is what clang's semantic analysis
produced for the translation unit, with every implicit conversion explicit.
"""
import json, re, sys, subprocess, hashlib, os, glob, functools

REPO = os.environ.get('VF_REPO', '/repo')


class Unsupported(Exception):
    """The construct is outside the verifier's subset (a tool limit, not a violation)."""


INT, FLT, PTR, ARR, REC, VOID, FUNC = 'int', 'float', 'ptr', 'arr', 'rec', 'void', 'func'
BUILTIN = {
    'char': (INT, 8, True), 'signed char': (INT, 8, True), 'unsigned char': (INT, 8, False),
    'short': (INT, 16, True), 'unsigned short': (INT, 16, False),
    'int': (INT, 32, True), 'unsigned int': (INT, 32, False), 'unsigned': (INT, 32, False),
    'long': (INT, 64, True), 'unsigned long': (INT, 64, False),
    'long long': (INT, 64, True), 'unsigned long long': (INT, 64, False),
    '_Bool': (INT, 8, False), 'bool': (INT, 8, False),
    'float': (FLT, 32), 'double': (FLT, 64), 'long double': (FLT, 128), 'void': (VOID,),
    '__int128': (INT, 128, True), 'unsigned __int128': (INT, 128, False),
}


def config_include():
    """Directory holding pdc_config.h. Regenerated by us if the build tree is absent."""
    return os.environ.get('VF_CFG', '/verif/build/cfg')


@functools.lru_cache(None)
def include_flags():
    dirs = sorted({os.path.dirname(p) for p in glob.glob(REPO + '/src/commons/**/*.h', recursive=True)})
    fl = ['-I' + d for d in dirs] + ['-I' + config_include(), '-I' + REPO]
    return fl


@functools.lru_cache(None)
def server_flags():
    dirs = sorted({os.path.dirname(p) for p in
                   glob.glob(REPO + '/src/api/**/*.h', recursive=True) +
                   glob.glob(REPO + '/src/server/**/*.h', recursive=True) +
                   glob.glob(REPO + '/src/utils/**/*.h', recursive=True)})
    return ['-I' + d for d in dirs] + ['-DIS_PDC_SERVER=1']


class Unit:
    def __init__(self, path, extra=(), text=None):
        self.path = path
        self.extra = list(extra)
        cmd = ['clang', '-std=gnu11', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
               '-fno-builtin-placeholder'][:-1] + list(extra) + include_flags()
        r = subprocess.run(cmd + [path], capture_output=True, text=True)
        if r.returncode != 0:
            raise Unsupported('clang cannot parse %s: %s' % (path, r.stderr[:400]))
        self.root = json.loads(r.stdout)
        self._lines(self.root)
        self.typedefs, self.recs, self.recname, self.fields = {}, {}, {}, {}
        self.funcs, self.fdecl, self.enums, self.globals, self.params = {}, {}, {}, {}, {}
        self.labels = {}
        self.enumneg, self.enumtd = {}, {}
        self._tcache, self._lay = {}, {}
        self._index(self.root)

    def _lines(self, root):
        # clang's JSON leaves a location's line out when it repeats the previous one
        cur = [0]

        def go(x):
            if isinstance(x, dict):
                if 'offset' in x and 'col' in x:
                    if 'line' in x:
                        cur[0] = x['line']
                    else:
                        x['line'] = cur[0]
                    return
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        go(v)
            else:
                for v in x:
                    if isinstance(v, (dict, list)):
                        go(v)
        sys.setrecursionlimit(20000)
        go(root)

    # -- declarations -------------------------------------------------------
    def _index(self, root):
        pend = None
        for n in root.get('inner', []):
            k = n.get('kind')
            if k == 'RecordDecl':
                self._record(n)
            elif k == 'TypedefDecl':
                rid = None
                if n.get('inner'):
                    rid = self._find_decl(n['inner'][0])
                    eid = self._enum_of(n['inner'][0])
                    if eid is not None:
                        self.enumtd[n['name']] = eid
                self.typedefs[n['name']] = (n['type'].get('desugaredQualType') or n['type']['qualType'], rid,
                                            n['type']['qualType'])
            elif k == 'EnumDecl':
                self._enum(n)
            elif k == 'FunctionDecl':
                self.fdecl[n['name']] = n
                if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                    self.funcs[n['name']] = n
            elif k == 'VarDecl':
                if n.get('init') or n['name'] not in self.globals:
                    self.globals[n['name']] = n

    def _find_decl(self, t):
        """decl id of a record directly named by a typedef's type node (not through pointers)."""
        while t:
            if t.get('kind') == 'RecordType':
                return t['decl']['id']
            if t.get('kind') in ('ElaboratedType', 'TypedefType', 'ParenType'):
                if t.get('kind') == 'TypedefType':
                    return None
                t = t['inner'][0] if t.get('inner') else None
            else:
                return None
        return None

    def _enum(self, n):
        v = 0
        neg = False
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                val = self._const(c)
                if val is not None:
                    v = val
                self.enums[c['id']] = v
                self.enums[c['name']] = v
                neg = neg or v < 0
                v += 1
        self.enumneg[n['id']] = neg
        if n.get('name'):
            self.enumneg[n['name']] = neg
            self.typedefs.setdefault('enum ' + n['name'], ('unsigned int', None, ''))

    def _enum_of(self, t):
        while t:
            if t.get('kind') == 'EnumType':
                return t['decl']['id']
            t = t['inner'][0] if t.get('inner') and t.get('kind') in ('ElaboratedType', 'ParenType') else None
        return None

    def _const(self, n):
        for c in n.get('inner', []):
            if c.get('kind') == 'ConstantExpr' and 'value' in c:
                return int(c['value'])
            if c.get('kind') == 'IntegerLiteral':
                return int(c['value'])
            r = self._const(c)
            if r is not None:
                return r
        return None

    def _record(self, n):
        if not n.get('completeDefinition'):
            if n.get('name'):
                self.recname.setdefault(n['name'], n['id'])
            # ids of forward declarations resolve by name
            self.recs.setdefault(n['id'], {'fwd': n.get('name')})
            return
        info = {'name': n.get('name'), 'tag': n.get('tagUsed'), 'fields': [], 'id': n['id'], 'packed': False}
        self.recs[n['id']] = info
        if n.get('name'):
            self.recname[n['name']] = n['id']
        anon = None
        for c in n.get('inner', []):
            if c['kind'] == 'RecordDecl':
                self._record(c)
                if not c.get('name'):
                    anon = c['id']
            elif c['kind'] == 'EnumDecl':
                self._enum(c)
            elif c['kind'] in ('PackedAttr', 'MaxFieldAlignmentAttr'):
                info['packed'] = True
            elif c['kind'] == 'FieldDecl':
                qt = c['type'].get('desugaredQualType') or c['type']['qualType']
                arec = None
                if anon and ('unnamed' in qt or 'anonymous' in qt):
                    arec = anon
                info['fields'].append({'name': c.get('name', ''), 'qt': c['type']['qualType'], 'id': c['id'],
                                       'anon': arec, 'bit': c.get('isBitfield', False)})
                self.fields[c['id']] = (n['id'], len(info['fields']) - 1)
            elif c['kind'] == 'IndirectFieldDecl':
                pass

    # -- types --------------------------------------------------------------
    def type(self, s):
        if isinstance(s, dict):
            s = s['qualType']
        t = self._tcache.get(s)
        if t is None:
            t = self._tcache[s] = self._parse(s)
        return t

    def _parse(self, s):
        s = s.strip()
        m = re.match(r'^(.*)\(\*(?:const|restrict|volatile|\s)*\)\s*\((.*)\)$', s)
        if m:
            return (PTR, (FUNC, m.group(1).strip()))
        m = re.match(r'^(.*)\(\*\)((?:\[\d+\])+)$', s)
        if m:
            return (PTR, self._parse(m.group(1) + m.group(2)))
        m = re.match(r'^(.*?)((?:\[[^\]]*\])+)$', s)
        if m:
            dims = re.findall(r'\[([^\]]*)\]', m.group(2))
            t = self._parse(m.group(1))
            for d in reversed(dims):
                t = (ARR, t, int(d) if d.isdigit() else None)
            return t
        while True:
            s2 = re.sub(r'\s*\b(const|restrict|volatile|__restrict|_Nonnull)$', '', s).strip()
            if s2 == s:
                break
            s = s2
        if s.endswith('*'):
            inner = s[:-1].strip()
            if inner.endswith(')') and '(' in inner and not inner.startswith('struct (') and not inner.startswith('union ('):
                return (PTR, (FUNC, ''))
            return (PTR, self._parse(inner))
        if s.endswith(')') and not s.startswith(('struct (', 'union (', 'enum (')):
            return (FUNC, s[:s.index('(')].strip())
        s = re.sub(r'\b(const|volatile|restrict|register|static)\b', ' ', s)
        s = ' '.join(s.split())
        if s in BUILTIN:
            return BUILTIN[s]
        for p in ('struct ', 'union '):
            if s.startswith(p):
                nm = s[len(p):]
                rid = self.recname.get(nm)
                if rid is None:
                    td = self.typedefs.get(nm)
                    if td and td[1]:
                        return (REC, td[1])
                    return (REC, 'opaque:' + nm)
                return (REC, rid)
        if s.startswith('enum '):
            return (INT, 32, bool(self.enumneg.get(s[5:])))
        if s in self.enumtd:
            return (INT, 32, bool(self.enumneg.get(self.enumtd[s])))
        td = self.typedefs.get(s)
        if td:
            if td[1]:
                return (REC, td[1])
            if td[2] == s or td[0] == s:
                return (INT, 32, False) if 'enum' in td[0] else (REC, 'opaque:' + s)
            return self._parse(td[2])
        if s == '__va_list_tag' or 'va_list' in s:
            return (REC, 'opaque:va')
        return (REC, 'opaque:' + s)

    def rec(self, rid):
        r = self.recs.get(rid)
        if r is not None and 'fwd' in r:
            nm = r['fwd']
            rid2 = self.recname.get(nm)
            r2 = self.recs.get(rid2) if rid2 else None
            if r2 is None or 'fwd' in r2:
                return None
            return r2
        return r

    def layout(self, rid):
        r = self.rec(rid)
        if r is None:
            raise Unsupported('layout of incomplete type %s' % rid)
        key = r['id']
        if key in self._lay:
            return self._lay[key]
        off, al, offs, sizes = 0, 1, [], []
        types = []
        for f in r['fields']:
            if f['bit']:
                raise Unsupported('bit-field')
            t = (REC, f['anon']) if f['anon'] else self.type(f['qt'])
            if f['anon'] and '[' in f['qt'].split(')')[-1]:
                raise Unsupported('array of anonymous')
            s, a = self.sizeof(t), (1 if r['packed'] else self.alignof(t))
            if r['tag'] == 'union':
                offs.append(0)
                off = max(off, s)
            else:
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
            al = max(al, a)
            types.append(t)
        size = (off + al - 1) // al * al
        self._lay[key] = dict(size=size, align=al, offs=offs, types=types, names=[f['name'] for f in r['fields']],
                              union=r['tag'] == 'union')
        return self._lay[key]

    def sizeof(self, t):
        k = t[0]
        if k == INT or k == FLT:
            return t[1] // 8
        if k == PTR:
            return 8
        if k == ARR:
            if t[2] is None:
                return 0
            return t[2] * self.sizeof(t[1])
        if k == REC:
            return self.layout(t[1])['size']
        if k in (VOID, FUNC):
            return 1
        raise Unsupported('sizeof %r' % (t,))

    def alignof(self, t):
        k = t[0]
        if k == ARR:
            return self.alignof(t[1])
        if k == REC:
            return self.layout(t[1])['align']
        return max(1, self.sizeof(t))

    def field(self, recname, fname):
        """(offset, type) of a field by name; recname a struct tag or typedef name."""
        t = self.type(recname)
        if t[0] != REC:
            raise Unsupported('%s is not a record' % recname)
        off = 0
        for part in fname.split('.'):
            lay = self.layout(t[1])
            if part not in lay['names']:
                raise Unsupported('no field %s in %s' % (fname, recname))
            i = lay['names'].index(part)
            off += lay['offs'][i]
            t = lay['types'][i]
        return off, t

    def body(self, fn):
        n = self.funcs.get(fn)
        if n is None:
            raise Unsupported('no definition of %s in %s' % (fn, self.path))
        ps = [c for c in n['inner'] if c['kind'] == 'ParmVarDecl']
        b = [c for c in n['inner'] if c['kind'] == 'CompoundStmt'][0]
        return ps, b

    def identity(self):
        """digest of the preprocessed translation unit (comments and blank space dropped)"""
        r = subprocess.run(['clang', '-std=gnu11', '-E', '-P', '-w'] + self.extra + include_flags() + [self.path], capture_output=True, text=True)
        return hashlib.sha256(' '.join(r.stdout.split()).encode()).hexdigest()[:20]

    def digest(self, fn):
        n = self.funcs[fn]

        def strip(x):
            if isinstance(x, dict):
                r = {k: strip(v) for k, v in x.items() if k not in
                     ('id', 'loc', 'range', 'isUsed', 'isReferenced', 'previousDecl', 'referencedDecl')
                     and not (isinstance(v, str) and v.startswith('0x'))}
                if 'referencedDecl' in x:
                    r['ref'] = x['referencedDecl'].get('name')
                return r
            if isinstance(x, list):
                return [strip(v) for v in x if not (isinstance(v, dict) and 'Comment' in v.get('kind', ''))]
            return x
        return hashlib.sha256(json.dumps(strip(n), sort_keys=True).encode()).hexdigest()[:16]


_units = {}


def unit(path, extra=()):
    key = (path, tuple(extra))
    if key not in _units:
        _units[key] = Unit(path if path.startswith('/') else REPO + '/' + path, extra)
    return _units[key]
