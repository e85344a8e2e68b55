#!/usr/bin/env python3
"""Builds, from the current tree of the repository: the bitcode of the real code linked with the harness and the
environment models, the symbolic executor, and the native replay programs. Everything goes to one scratch directory."""
import os, re, shutil, subprocess, hashlib, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
class BuildError(Exception): pass
def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode: raise BuildError(' '.join(cmd[:6]) + '...\n' + r.stdout.decode(errors='replace')[-3000:])
    return r.stdout.decode(errors='replace')
HARNESS = ['text', 'tokens', 'unit']
class Build:
    def __init__(self, d):
        self.d = d; os.makedirs(d, exist_ok=True); self.src = d + '/src'; self.pool = cf.ThreadPoolExecutor(12); self.nat = {}
    def sources(self):
        if os.path.exists(self.src): shutil.rmtree(self.src)
        shutil.copytree(REPO + '/src', self.src); p = self.src + '/parser'
        for f in os.listdir(p):
            if re.match(r'(bison_parser|flex_lexer)\.(cpp|h|output)$|.*\.(o|d)$', f): os.remove(p + '/' + f)
        a = self.pool.submit(sh, ['bison', 'bison_parser.y', '--output=bison_parser.cpp', '--defines=bison_parser.h'], p)
        b = self.pool.submit(sh, ['flex', 'flex_lexer.l'], p); a.result(); b.result()
        # For the symbolic run the same scanner specification is compiled to uncompressed tables: one table lookup per character.
        self.scan = p + '/flex_full.cpp'
        open(p + '/flex_full.l', 'w').write(open(p + '/flex_lexer.l').read().replace('"flex_lexer.h"', '"flex_full.h"', 1).replace('outfile="flex_lexer.cpp"', 'outfile="flex_full.cpp"', 1))
        self.pool.submit(sh, ['flex', '-8', '-Cfe', 'flex_full.l'], p).result()
        self.cpps = sorted(os.path.join(r, f) for r, _, fs in os.walk(self.src) for f in fs if f.endswith('.cpp') and f != 'flex_full.cpp')
    def tables(self, seeds, gens=()):
        sh(['python3', V + '/harness/gen_kw.py', self.d + '/kw.h'])
        lit = lambda s: '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\?' else '\\%03o' % ord(c) for c in s) + '"'
        with open(self.d + '/seeds.h', 'w') as o:
            for n, l in ('SEED', seeds), ('GEN', gens or ['']): o.write('static const char* const %s[] = {\n%s};\n' % (n, ',\n'.join(map(lit, l))))
        tok = re.findall(r'^\s*SQL_(\w+) = (\d+)', open(self.src + '/parser/bison_parser.h').read(), re.M); tok = [(n, c) for n, c in tok if int(c) > 257 and not n.startswith('HSQL')]
        with open(self.d + '/names.h', 'w') as o: o.write('enum { TOKENS = %d };\nstatic const char* const TOKEN_NAME[] = {%s};\nstatic const short TOKEN_CODE[] = {%s};\nstatic const char* tokenName(int c) { for (int i = 0; i < TOKENS; i++) if (TOKEN_CODE[i] == c) return TOKEN_NAME[i]; return "?"; }\n' % (len(tok), ', '.join('"%s"' % n for n, _ in tok), ', '.join(c for _, c in tok)))
        ent = []
        for h in HARNESS:
            f = V + '/harness/%s.cpp' % h
            if os.path.exists(f): ent += re.findall(r'^void (job_\w+)\(([^)]*)\)', open(f).read(), re.M)
        self.entries = [e[0] for e in ent]
        with open(self.d + '/dispatch.cpp', 'w') as o:
            o.write('#include <cstring>\nextern "C" {\n' + ''.join('void %s(%s);\n' % e for e in ent) + '}\nint runEntry(const char* n, const long* a) { (void)a;\n')
            for n, a in ent: o.write('  if (!strcmp(n, "%s")) { %s(%s); return 0; }\n' % (n, n, ', '.join('a[%d]' % i for i in range(len([x for x in a.split(',') if x.strip()])))))
            o.write('  return 79;\n}\n')
    def engine(self):
        h = hashlib.sha256(b''.join(open(V + '/engine/' + f, 'rb').read() for f in sorted(os.listdir(V + '/engine')))).hexdigest()
        self.sx = self.d + '/sx'; tag = self.d + '/sx.tag'
        if os.path.exists(self.sx) and os.path.exists(tag) and open(tag).read() == h: return []
        D = '-D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS'.split(); E = V + '/engine/'
        js = [self.pool.submit(sh, ['g++', '-std=c++17', '-O2', '-c', E + f + '.cpp', '-o', self.d + '/e_' + f + '.o']) for f in ('expr', 'solver', 'exec')]
        js.append(self.pool.submit(sh, ['g++', '-std=c++17', '-O1', '-I%s/include' % LLVM, '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18'] + D + ['-c', E + 'lower.cpp', '-o', self.d + '/e_lower.o']))
        def link():
            for j in js: j.result()
            sh(['g++'] + [self.d + '/e_%s.o' % f for f in ('expr', 'solver', 'exec', 'lower')] + ['-L%s/lib' % LLVM, '-lLLVM-18', '-lz3', '-lpthread', '-o', self.sx]); open(tag, 'w').write(h)
        return [link]
    def bitcode(self):
        F = ['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g0', '-emit-llvm', '-c', '-fno-vectorize', '-w', '-include', V + '/models/prelude.h', '-I' + self.src, '-I' + V + '/models', '-I' + self.d, '-I' + V + '/harness']
        self.bcs = []; js = []
        def one(f, extra):
            o = self.d + '/bc_' + os.path.relpath(f, self.src if f.startswith(self.src) else V).replace('/', '_') + '.bc'; self.bcs.append(o)
            js.append(self.pool.submit(sh, F + extra + [f, '-o', o]))
        for f in self.cpps: one(self.scan if f.endswith('/flex_lexer.cpp') else f, [])
        for f in ('cmodels', 'cxxmodels'): one(V + '/models/%s.cpp' % f, ['-fno-builtin'])
        for h in HARNESS:
            if os.path.exists(V + '/harness/%s.cpp' % h): one(V + '/harness/%s.cpp' % h, [])
        self.bc = self.d + '/all.bc'
        def link():
            for j in js: j.result()
            sh([LLVM + '/bin/llvm-link'] + self.bcs + ['-o', self.d + '/linked.bc'])
            api = ','.join(self.entries + ['sx_global_init', 'bcmp', 'memcmp', 'memchr', 'strlen', 'strnlen', 'stpcpy', 'strcpy', 'strncpy', 'strchr', 'strcmp', 'strncmp', 'sxm_sscanf', 'sxm_snprintf', 'sxm_sprintf', 'sxrepl_hsql_lex', 'sxstub_yysyntax_error'])
            sh([LLVM + '/bin/opt', '-passes=internalize,globaldce,cgscc(inline<only-mandatory>),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce', '--internalize-public-api-list=' + api, self.d + '/linked.bc', '-o', self.bc])
        return [link]
    def native(self, kind):
        """kind: plain, asan (address, undefined, leak), tsan"""
        if kind in self.nat: return lambda: self.nat[kind]
        fl = {'plain': ['-O0', '-g', '-DSX_PLAIN', '-fno-builtin'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], 'tsan': ['-O1', '-g', '-fsanitize=thread'], 'valg': ['-O0', '-g']}[kind]
        cc = 'clang++'
        out = self.d + '/replay_' + kind; js = []; objs = []
        fs = self.cpps + [V + '/harness/%s.cpp' % h for h in HARNESS if os.path.exists(V + '/harness/%s.cpp' % h)] + [V + '/harness/native.cpp', self.d + '/dispatch.cpp']
        for f in fs:
            o = self.d + '/n_' + kind + '_' + f.replace('/', '_') + '.o'; objs.append(o)
            js.append(self.pool.submit(sh, [cc, '-std=c++17', '-w', '-DSX_NATIVE', '-I' + self.src, '-I' + V + '/models', '-I' + self.d, '-I' + V + '/harness'] + fl + ['-c', f, '-o', o]))
        def link():
            for j in js: j.result()
            sh([cc] + fl + objs + ['-lpthread', '-ldl', '-o', out]); self.nat[kind] = out; return out
        return link
