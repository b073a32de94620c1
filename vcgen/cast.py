"""Front end: runs clang on the real sources and indexes the AST it dumps.

Nothing is copied by hand: every function the generator reasons about is the
clang AST (after template instantiation) of the file in /repo, on every run.
What extraction drops is stated in DESIGN.md (destructors of automatic objects,
stream output, alignment and const qualifiers).
"""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
FLAGS = ['-fsyntax-only', '-std=c++17', '-DNDEBUG', '-DEIGEN_NO_DEBUG',
         '-I/usr/include/eigen3', '-I' + REPO, '-Wno-everything']

FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
         'CXXDestructorDecl', 'CXXConversionDecl')


class ExtractError(Exception):
    pass


def run_clang(path, filt):
    extra = []
    if filt == 'conex+CONEX':
        # the dump filter is one substring: the preprocessor renames the C functions while dumping, names are restored below
        import re
        hdr = open(os.path.splitext(path)[0] + '.h').read()
        names = set(re.findall(r'\b(CONEX_\w+)\s*\(', hdr)) | set(re.findall(r'struct\s+(CONEX_\w+)', hdr)) | set(re.findall(r'\}\s*(CONEX_\w+)\s*;', hdr))
        names |= set(re.findall(r'^[\w *]+?\b(CONEX_\w+)\s*\(', open(path).read(), re.M))
        names -= set(re.findall(r'#\s*define\s+(CONEX_\w+)', hdr))
        names -= {'CONEX_DEMAND', 'CONEX_STATUS', 'CONEX_SUCCESS', 'CONEX_FAILURE'}
        extra = ['-D%s=conexapi_%s' % (x, x[6:]) for x in sorted(names)]
        # helper functions outside of the conex namespace
        src = open(path).read()
        src = src[:src.rfind('namespace conex {')] if 'namespace conex {' in src else src
        for x in set(re.findall(r'^(?!\s|#|using|return|else|namespace|extern)(?:[\w:<>,*&]+[ \n]+)+[*&]*(\w+)\s*\(', src, re.M)):
            if not x.startswith('CONEX_') and len(x) > 3 and x not in ('main', 'defined', 'assert', 'while', 'switch', 'static_assert'):
                extra.append('-D%s=conexhlp_%s' % (x, x))
        filt = 'conex'
    cmd = [CLANG] + FLAGS + extra + ['-Xclang', '-ast-dump=json', '-Xclang',
                             '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
    txt = p.stdout.decode()
    if extra:
        txt = txt.replace('conexapi_', 'CONEX_').replace('conexhlp_', '')
    docs = []
    dec = json.JSONDecoder()
    i = 0
    n = len(txt)
    while i < n:
        while i < n and txt[i].isspace():
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(txt, i)
        docs.append(d)
    return docs


class TU:
    """One translation unit: functions and records by qualified name."""

    def __init__(self, path, filters=('conex',)):
        self.path = path
        self.funcs = {}      # qualified name -> [node]
        self.by_id = {}      # decl id -> node (functions, fields, vars, records)
        self.records = {}    # qualified name -> node
        self.fields = {}     # id -> field node
        self.parent = {}     # id(fn node) -> record qualified name
        for f in filters:
            for d in run_clang(path, f):
                self.index(d, [])
        # prototype id -> definition
        self.defs = {}
        for q, l in self.funcs.items():
            for n in l:
                if has_body(n):
                    self.defs[n['id']] = n
                    p = n.get('previousDecl')
                    if p:
                        self.defs[p] = n
                    self.defs.setdefault((q, sig(n)), n)

    def index(self, n, scope):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n and k not in ('',):
            old = self.by_id.get(n['id'])
            if old is None or (k in FUNCS and has_body(n) and not has_body(old)):
                self.by_id[n['id']] = n
        name = n.get('name')
        if k in ('NamespaceDecl',):
            sc = scope + ([name] if name else [])
            for c in n.get('inner', []):
                self.index(c, sc)
            return
        if k in ('LinkageSpecDecl', 'FriendDecl'):
            for c in n.get('inner', []):
                self.index(c, scope[:-1] if k == 'FriendDecl' else scope)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl',
                 'ClassTemplatePartialSpecializationDecl'):
            targs = ''
            if k != 'CXXRecordDecl':
                targs = '<' + ','.join(targ(c) for c in n.get('inner', [])
                                       if c.get('kind') == 'TemplateArgument') + '>'
            q = '::'.join([s for s in scope if s] + [(name or '') + targs])
            n['qual'] = q
            if n.get('completeDefinition') or q not in self.records:
                self.records[q] = n
            for c in n.get('inner', []):
                self.index(c, scope + [(name or '') + targs])
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for c in n.get('inner', []):
                if c.get('kind') in FUNCS and k == 'FunctionTemplateDecl':
                    # the first one is the uninstantiated pattern
                    if not any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                        c['pattern'] = True
                if k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl':
                    c['pattern'] = True
                    q = '::'.join([s for s in scope if s] + [name])
                    self.records.setdefault(q, c)
                    continue
                self.index(c, scope)
            return
        if k in FUNCS:
            if n.get('pattern'):
                return
            q = '::'.join([s for s in scope if s] + [name or ''])
            pid = n.get('parentDeclContextId')
            if pid and pid in self.by_id and 'qual' in self.by_id[pid]:
                q = self.by_id[pid]['qual'] + '::' + (name or '')
            n['qualname'] = q
            n['record'] = q.rsplit('::', 1)[0]
            self.funcs.setdefault(q, []).append(n)
            return
        if k == 'FieldDecl':
            self.fields[n['id']] = n
            return
        if k == 'TypedefDecl' and n.get('inner'):
            # typedef struct {...} name;
            r = self.by_id.get((n['inner'][0].get('ownedTagDecl') or {}).get('id'))
            if r is not None and not r.get('name'):
                r['qual'] = name
                self.records[name] = r
            return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    self.by_id[c['id']] = c
                    ce = first(c, 'ConstantExpr')
                    if ce is not None and 'value' in ce:
                        val = int(ce['value'])
                    else:
                        val += 1
                    c['enumvalue'] = val
            return
        if k in ('VarDecl',):
            return

    def find(self, q, pred=None):
        """All definitions with this qualified name (or suffix)."""
        out = []
        for name, l in self.funcs.items():
            if name == q or name.endswith('::' + q):
                for n in l:
                    if has_body(n) and (pred is None or pred(n)) and n not in out:
                        out.append(n)
        return out

    def find1(self, q, pred=None):
        l = self.find(q, pred)
        if len(l) != 1:
            raise ExtractError('%d definitions of %s in %s' % (len(l), q, self.path))
        return l[0]


def first(n, kind):
    for c in n.get('inner', []) or []:
        if c.get('kind') == kind:
            return c
    return None


def targ(c):
    if 'type' in c:
        return c['type'].get('qualType', '?')
    if 'value' in c:
        return str(c['value'])
    return c.get('decl', {}).get('name', '?') if isinstance(c.get('decl'), dict) else '?'


def has_body(n):
    if n.get('explicitlyDefaulted') or n.get('isImplicit'):
        pass
    return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []) or [])


def body(n):
    for c in n.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def params(n):
    return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']


def sig(n):
    return n.get('type', {}).get('qualType', '')


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def src_line(n):
    r = n.get('loc') or {}
    return r.get('line')


_cache = {}


def load(rel, filters=('conex',)):
    key = (rel, tuple(filters))
    if key not in _cache:
        _cache[key] = TU(os.path.join(REPO, rel), filters)
    return _cache[key]


def load_many(specs):
    """specs: [(rel, filters)] loaded in parallel."""
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda s: load(*s), specs))
    return [load(*s) for s in specs]


def dump(n, ind=0, out=sys.stdout):
    if 'kind' not in n:
        return
    s = n['kind']
    for k in ('name', 'opcode', 'value', 'castKind'):
        if k in n:
            s += ' %s=%s' % (k, n[k])
    if 'referencedDecl' in n:
        s += ' ref=%s:%s' % (n['referencedDecl'].get('kind'), n['referencedDecl'].get('name'))
    if 'type' in n:
        s += ' : ' + n['type'].get('qualType', '')[:80]
    out.write('  ' * ind + s + '\n')
    for c in n.get('inner', []) or []:
        dump(c, ind + 1, out)


if __name__ == '__main__':
    tu = TU(os.path.join(REPO, sys.argv[1]), sys.argv[3:] or ('conex',))
    if sys.argv[2] == '-l':
        for q, l in sorted(tu.funcs.items()):
            for n in l:
                if has_body(n):
                    print(q, sig(n)[:100])
    else:
        for n in tu.find(sys.argv[2]):
            dump(n)
