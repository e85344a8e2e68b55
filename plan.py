"""What every check explores: seeds, symbolic windows, harness jobs, bounds, and which findings belong to which property."""
import os, re
V = os.path.dirname(os.path.abspath(__file__))
M_LOC, M_LEAK, M_LEN, M_TOK, M_PRINT, M_GLOBAL, M_NOTREE, M_API, M_CSTR, M_TWICE, M_QUIET, M_SAME, M_MSG = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096
SEEDS, TOPIC = [], {}
def unesc(s): return s.replace('\\n', '\n').replace('\\t', '\t').replace('\\x7f', '\x7f').replace('\\x06', '\x06').replace('\\x05', '\x05').replace('\\x04', '\x04').replace('\\x03', '\x03')
for f in sorted(os.listdir(V + '/seeds')):
    t = f[:-4]; TOPIC[t] = []
    for l in open(V + '/seeds/' + f):
        l = l.rstrip('\n')
        if l: TOPIC[t].append(len(SEEDS)); SEEDS.append(unesc(l) if t.startswith('x_') else l)
def templates():
    """The sentence templates of harness/gen.txt, their named parts inserted: {topic: [(number, B)]} and the list of texts."""
    part, gens, topic = {}, [], {}
    for l in open(V + '/harness/gen.txt'):
        l = l.rstrip('\n')
        if not l or l[0] == '#': continue
        if l[0] == '$': n, b = l[1:].split(' = ', 1)
        else: n, b = l.split(': ', 1)
        b = re.sub(r'\$([a-z]+)', lambda m: part[m.group(1)], b.replace('\\n', '\n').replace('\\t', '\t'))
        if l[0] == '$': part[n] = b
        else: t, k = n.split(); topic.setdefault(t, []).append((len(gens), int(k))); gens.append(b)
    return gens, topic
GENS, GTOPIC = templates(); GNAME = {i: '%s%d' % (t, k) for t in GTOPIC for k, (i, _) in enumerate(GTOPIC[t])}
NAME = {i: '%s%d' % (t, k) for t in TOPIC for k, i in enumerate(TOPIC[t])}
STATIC = dict(SEEDS=len(SEEDS))
SYNTAX = ['cmds', 'content', 'copy', 'ddl', 'dml', 'expr', 'from', 'lists', 'ops', 'select', 'sets', 'types']
REACH = {1: 'a valid result', 2: 'an invalid result', 3: 'a syntax error judged for its location', 4: 'a syntax tree matched with the reference', 5: 'an error of content judged for its location', 6: 'a statement printed', 7: 'a token sequence matched to the end', 8: 'a token sequence matched up to a character outside the language', 9: 'a history of operations on result objects', 10: 'a helper or factory judged', 11: 'pieces of an input parsed again', 12: 'printed text judged', 13: 'an error message judged', 14: 'effects of a call judged', 15: 'three entry points compared'}
ASSUME = [
    'The C library and the parts of libstdc++ that are not templates are replaced by the models in models/ (environment_models lists those reached); memory allocation does not fail.',
    'Jobs with token windows replace the generated scanner by a stream of tokens; the scanner is checked by the jobs with byte windows, and every counterexample is rendered to text and replayed through the real scanner.',
    'In a token window the text of identifiers and strings is one representative of each kind, integers are symbolic over 0..2^63-1, and floating point literals are one value; their content is decided by the byte windows.',
    'Conversion of decimal text to double is an uninterpreted function of the text.',
    'Where the real error message is built, one copy of the path continues with a fixed message for all remaining values and one with the real code for representative values.',
]
def tokens(seed, k, d, mode, lo=0, hi=999, budget=0): return {'name': '%s.tok%d-%d.m%d.%d' % (NAME[seed], k, d, mode, lo), 'entry': 'job_tokens', 'args': [seed, k, d, lo, hi, mode], 'budget': budget}
def text(seed, k, d, mode, cls=0, lo=0, hi=9999, budget=0): return {'name': '%s.byte%d-%d.c%d.m%d.%d' % (NAME[seed], k, d, cls, mode, lo), 'entry': 'job_text', 'args': [seed, k, d, lo, hi, cls, mode], 'budget': budget}
def fill(seed, mode, budget=0): return {'name': '%s.fill.m%d' % (NAME[seed], mode), 'entry': 'job_fill', 'args': [seed, mode], 'budget': budget}
def gen(t, dev, mode, budget=0): return {'name': '%s.gen%d.m%d' % (GNAME[t], dev, mode), 'entry': 'job_gen', 'args': [t, dev, mode], 'budget': budget}
def cut(t, dev, mode, budget=0): return {'name': '%s.cut%d.m%d' % (GNAME[t], dev, mode), 'entry': 'job_cut', 'args': [t, dev, mode], 'budget': budget}
def poke(k, cls): return lambda t, dev, mode, budget=0: {'name': '%s.poke%d.%d.c%d.m%d' % (GNAME[t], dev, k, cls, mode), 'entry': 'job_poke', 'args': [t, dev, k, cls, mode], 'budget': budget}
def gens(topics, mode, delta=0, make=gen): return [make(t, max(k + delta, 0), mode) for x in topics for t, k in GTOPIC.get(x, [])]
def tokenize(seed, mode, budget=0): return {'name': '%s.tokenize.m%d' % (NAME[seed], mode), 'entry': 'job_tokenize', 'args': [seed, mode], 'budget': budget}
def case(seed, mode, budget=0): return {'name': '%s.case.m%d' % (NAME[seed], mode), 'entry': 'job_case', 'args': [seed, mode], 'budget': budget}
def of(*topics): return [s for t in topics for s in TOPIC.get(t, [])]
def sweep(topics, kds, mode, **k): return [tokens(s, K, D, mode, **k) for (K, D) in kds for s in of(*topics)]
FATAL = ('memory', 'abort', 'exception', 'termination', 'uninitialised', 'ub', 'crash')
LOCMSG = ('an error of content is located outside its construct', 'a syntax error is located outside the offending token')
def counts(pid, v):
    """Does this finding break the property? (A path that crashes breaks whatever was to be checked on it.)"""
    k, m = v['kind'], v['msg']
    if k == 'shared-state': return pid == 'P21'
    if k == 'effect' or m.startswith('side effect'): return pid == 'P28'
    if 'entry points' in m: return pid == 'P29'
    if 'the message does not' in m: return pid == 'P30'
    leak = k == 'leak' or 'never freed' in m; loc = m in LOCMSG; length = 'length' in m
    if pid == 'P03': return k in FATAL
    if pid == 'P04': return leak
    if leak: return pid in ('P20', 'P22')
    if pid == 'P23': return loc or 'position' in m
    if loc: return False
    if pid == 'P19' and length: return True
    if length: return False
    if k in FATAL: return True
    if pid == 'P01': return m in ('parse reports that it could not run', 'a valid result holds no statement', 'a valid result has an error message', 'a valid result holds a null statement', 'a statement is of no known kind', 'an invalid result holds statements', 'an invalid result holds parameters', 'an invalid result has no error message', 'the position of an error is negative')
    return True
BASE = [(1, 0), (1, 1)]
def bsweep(topics, kds, mode, cls=0, **k): return [text(x, K, D, mode, cls, **k) for (K, D) in kds for x in of(*topics)]
def fills(topics, mode): return [fill(x, mode) for x in of(*topics)]
X = ['x_words', 'x_blank', 'x_strings', 'x_dates', 'x_numbers']
QUOTED = [x for x in of(*SYNTAX) if "'" in SEEDS[x] or '"' in SEEDS[x]]
TOPICS = {'P09': ['ops'], 'P10': ['expr'], 'P11': ['select'], 'P12': ['from'], 'P13': ['sets'], 'P14': ['dml'], 'P15': ['ddl'], 'P16': ['types'], 'P17': ['copy'], 'P18': ['cmds'], 'P19': ['lists']}
B_TOK = 'token windows: in every seed of the topics (seeds/*.txt), at every position, D tokens replaced by K arbitrary tokens of the language or by the end of the input'
B_BYTE = 'byte windows: in every seed, at every offset, D characters replaced by K symbolic bytes'
B_FILL = 'fills: seeds x_*.txt with all their placeholders symbolic at once'
B_GEN = 'sentence templates (harness/gen.txt): all sentences with at most B unusual choices (B stands before each template; job names show the value used), with one-letter names and one-digit numbers symbolic'
B_CUT = 'the same sentences, broken off or disturbed by a stray token at a symbolic word position'
B_POKE = 'the same sentences with symbolic bytes inserted at a symbolic word position'
ALLG = list(GTOPIC)
def history(n, first, budget=0): return {'name': 'history%d.%d' % (n, first), 'entry': 'job_history', 'args': [n, first], 'budget': budget}
def nodes(w): return {'name': 'nodes%d' % w, 'entry': 'job_nodes', 'args': [w], 'budget': 0}
def twice(a, b, k, mode, budget=0): return {'name': '%s.%s.twice%d.m%d' % (NAME[a], NAME[b], k, mode), 'entry': 'job_twice', 'args': [a, b, k, mode], 'budget': budget}
def chain(n, step, first, seed, k, d, mode, budget=0): return {'name': '%s.chain%d-%d-%d.%d-%d.m%d' % (NAME[seed], n, step, first, k, d, mode), 'entry': 'job_chain', 'args': [n, step, first, seed, k, d, mode], 'budget': budget}
def big_lists(n):
    """Long lists of every kind the language has, n elements each."""
    w = lambda i: 'c%d' % i; L = lambda f=w, sep=', ': sep.join(f(i) for i in range(n)); lit = lambda i: ['%d' % i, "'s%d'" % i, '%d.5' % i, 'NULL', '-%d' % i, '?', 'TRUE', "DATE '2020-01-02'"][i % 8]
    return [
        'SELECT ' + L(lambda i: ['c%d', 'c%d AS d', 't.c%d', "'%d'", '%d', '-%d', '?', 'f(c%d)'][i % 8].replace('%d', str(i))) + ' FROM t WHERE a = 1',
        'INSERT INTO t (' + L() + ') VALUES (' + L(lit) + ')', 'UPDATE t SET ' + L(lambda i: 'c%d = %s' % (i, lit(i))) + ' WHERE a = 1',
        'SELECT a FROM t GROUP BY ' + L() + ' HAVING b', 'SELECT a FROM t ORDER BY ' + L(lambda i: 'c%d%s%s' % (i, ['', ' ASC', ' DESC'][i % 3], ['', ' NULLS FIRST', ' NULLS LAST'][i // 3 % 3])) + ' LIMIT 1',
        'SELECT a FROM t WHERE b IN (' + L(lit) + ')', 'SELECT f(' + L(lit) + ') OVER (PARTITION BY ' + L() + ' ORDER BY ' + L() + ')', 'SELECT ARRAY[' + L(lit) + '] FROM t',
        'SELECT CASE a ' + L(lambda i: 'WHEN %d THEN c%d' % (i, i), ' ') + ' ELSE b END FROM t', 'SELECT a FROM ' + L(lambda i: ['c%d', 's.c%d', 'c%d AS d', '(SELECT %d) AS e'][i % 4].replace('%d', str(i))) + ' WHERE b',
        'SELECT a FROM t ' + L(lambda i: ['JOIN c%d ON x = %d', 'LEFT JOIN c%d USING (x)', 'NATURAL JOIN c%d', 'CROSS JOIN c%d ON y'][i % 4].replace('%d', str(i)), ' ') + ' WHERE b',
        'SELECT a FROM t JOIN u USING (' + L() + ')', 'SELECT a FROM t AS x (' + L() + ')', ' UNION '.join('SELECT c%d' % i for i in range(min(n, 50))) + ' ORDER BY a',
        'WITH ' + L(lambda i: 'c%d AS (SELECT %d)' % (i, i)) + ' SELECT a', 'SELECT a WITH HINT (' + L(lambda i: 'h%d%s' % (i, ['', '(1)', "('x', 2)"][i % 3])) + ')', 'SELECT a WITH HINT (h(' + L(lambda i: str(i)) + '))',
        'SELECT a FROM t WHERE ' + L(lambda i: 'c%d = %d' % (i, i), ' AND '), 'SELECT a FROM t WHERE ' + L(lambda i: 'c%d' % i, ' OR '), 'SELECT ' + L(lambda i: str(i), ' + '), 'SELECT ' + L(lambda i: ['%d - ', '%d * ', '%d || '][i % 3].replace('%d', 'c%d' % i), '') + '1',
        'CREATE TABLE t (' + L(lambda i: ['c%d INT', 'c%d VARCHAR(5) NOT NULL', 'c%d DECIMAL(3, 1) UNIQUE', 'PRIMARY KEY (c%d)', 'c%d TEXT REFERENCES u(v)'][i % 5].replace('%d', str(i))) + ')', 'CREATE TABLE t (a INT, UNIQUE (' + L() + '))', 'CREATE TABLE t (a INT REFERENCES u (' + L() + '), FOREIGN KEY (' + L() + ') REFERENCES v (' + L() + '))',
        'CREATE TABLE t (a INT ' + L(lambda i: ['NOT NULL', 'UNIQUE', 'REFERENCES u', 'PRIMARY KEY'][i % 4] if i < 2 or i % 4 == 2 else 'REFERENCES u (b)', ' ') + ')', 'CREATE INDEX i ON t (' + L() + ')', 'CREATE VIEW v (' + L() + ') AS SELECT ' + L(),
        'EXECUTE p (' + L(lit).replace('-', '') + ')', L(lambda i: ['SELECT c%d', 'COMMIT', 'DELETE FROM c%d', 'SELECT ?', 'DROP TABLE c%d', 'EXECUTE c%d (?)'][i % 6].replace('%d', str(i)), '; ') + ';',
        L(lambda i: ['SELECT c%d\n', 'BEGIN -- x\n', 'INSERT INTO c%d VALUES (?)\n\n'][i % 3].replace('%d', str(i)), ';'), 'SELECT a FROM t FOR UPDATE OF ' + L(), 'SELECT a FROM t ' + L(lambda i: ['FOR UPDATE OF c%d', 'FOR SHARE NOWAIT', 'FOR KEY SHARE OF a, c%d SKIP LOCKED'][i % 3].replace('%d', str(i)), ' '),
        'SELECT a' + L(lambda i: '[%d]' % i, '') + ' FROM t', 'SELECT a FROM t WHERE ' + L(lambda i: 'c%d' % i, '\n--x\n AND -- y;\n'),
    ]
LIST_TOPIC = 'select dml dml select select expr expr expr expr from from from from sets sets lists lists ops ops ops ops ddl ddl ddl types ddl ddl cmds lists lists select select expr ops'.split()
MANY = [*range(6, 41), 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 5000, 40000, 70000]; SOME = [15, 16, 31, 32, 64, 128, 257, 1030, 5000, 40000, 70000]
B_LIST = 'lists of every kind with %s elements, a symbolic token or byte near their end'
B_LONG = 'tokens, comments and white space of %s characters with symbolic bytes at both ends'
EDGES = [254, 255, 256, 257, 1022, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 16380, 16381, 16382, 16383, 16384, 16385, 32767, 32768, 65530, 65535, 65536, 65537]
def big_tokens(n):
    """Tokens, separators and statements of n characters, with symbolic bytes at their start and end."""
    a = 'a' * (n - 4)
    return ['SELECT \x05' + a + 'aa@ FROM t', 'SELECT "' + a + 'aaa~" FROM t', "SELECT '~" + a + "aa~' FROM t", "SELECT a FROM " + a + "aaa@ WHERE b = 'x'", 'SELECT a --' + 'x' * (n - 3) + '~\nFROM t', 'SELECT a ' + ' ' * (n - 4) + '##FROM t', 'SELECT ' + '0' * (n - 6) + '`````', 'SELECT ' + '0' * (n - 3) + '.`', "SELECT '" + "''" * (n // 2) + "~' , a", "PREPARE p FROM '" + a + "~~'; EXECUTE p", 'SELECT a' + '\n' * n + '~ FROM t', "COPY t FROM '" + a + "aaa~'"]
def add(topic, texts):
    if topic in TOPIC: return TOPIC[topic]
    TOPIC[topic] = []
    for x in texts: TOPIC[topic].append(len(SEEDS)); NAME[len(SEEDS)] = '%s%d' % (topic, len(TOPIC[topic]) - 1); SEEDS.append(x)
    return TOPIC[topic]
FEW = [5, 9, 17, 33, 65, 130, 300]; SIZES = [*range(4, 18), 24, 31, 32, 33, 48, 63, 64, 65, 96, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1030]
def sized(sizes, mode, topics=None, byte=True, make=None):
    """Lists of n elements with a symbolic token and a symbolic byte near their end."""
    jobs = []
    for n in sizes:
        for t, x in zip(LIST_TOPIC, add('list%d_' % n, big_lists(n))):
            if topics and t not in topics or mode & M_PRINT and n > 130 and t in ('ops', 'from', 'expr', 'sets'): continue   # deep trees: printing them is quadratic
            jobs.append(tokens(x, 1, 0, mode & ~(M_TOK | M_API | M_CSTR), 2 * n - 3, 2 * n - 3))
            if byte: jobs.append(text(x, 1, 0, mode, 0, len(SEEDS[x]) - 3, len(SEEDS[x]) - 3))
    return jobs
def longs(sizes, mode): return [fill(x, mode) for n in sizes for x in add('long%d_' % n, big_tokens(n))]
def plan(pid, tier):
    quick = tier == 'quick'; must = [1, 2, 4]; dl = 240 if quick else 780
    def tk(topics, kds, deep, mode): return sweep(topics, kds if quick else kds + deep, mode)
    def by(topics, kds, deep, mode, cls=0): return bsweep(topics, kds if quick else kds + deep, mode, cls)
    DEEP = [(0, 1), (2, 2), (2, 0), (2, 1), (3, 3)]; b = [B_TOK]
    if pid in ('P01', 'P03'):
        jobs = tk(SYNTAX, BASE, DEEP, 0) + by(SYNTAX, [(1, 0)], [(1, 1), (2, 1)], 0); b += [B_BYTE]
        if pid == 'P03': jobs += [tokenize(x, 0) for x in of('x_tokens')] + fills(['x_words', 'x_blank', 'x_strings', 'x_dates'] if quick else X, 0); b += [B_FILL]
        elif not quick: jobs += fills(X, 0)
        jobs += sized(FEW, 0) + longs(SOME if pid == 'P01' else MANY, 0); b += [B_LIST % FEW, B_LONG % (SOME if pid == 'P01' else MANY)]
        jobs += gens(ALLG, 0, -2 if quick else -1, cut) + by(['content'] if quick else SYNTAX, [(1, 0)], [], M_API) + by(['content'] if quick else SYNTAX, [(1, 0)], [], M_CSTR); b += [B_CUT]
    elif pid == 'P02':
        jobs = tk(SYNTAX, [(1, 0), (0, 1)], [(1, 1), (2, 0)], 0) + by(SYNTAX, [(1, 0), (1, 1)], [(2, 0), (2, 1)], 0) + fills(['x_blank', 'x_strings', 'x_wide'] if quick else X + ['x_wide', 'x_deep'], 0) + gens(ALLG, 0, -3 if quick else -2, poke(1, 0)) + by(['content'] if quick else SYNTAX, [(1, 0)], [], M_API) + by(['content'] if quick else SYNTAX, [(1, 0)], [], M_CSTR); b += [B_BYTE, B_FILL, B_POKE]
        jobs += sized(FEW, 0) + longs(MANY, 0); b += [B_LIST % FEW, B_LONG % MANY]
    elif pid == 'P04':
        jobs = tk(SYNTAX, BASE, DEEP, M_LEAK) + by(['content', 'copy', 'lists'] if quick else SYNTAX, [(1, 0)], [(1, 1), (2, 1)], M_LEAK) + fills(['x_strings', 'x_dates'] if quick else X, M_LEAK) + [tokenize(x, M_LEAK) for x in of('x_tokens')] + gens(ALLG, M_LEAK, -1 if quick else 0) + gens(ALLG, M_LEAK, -2 if quick else -1, cut); b += [B_BYTE, B_FILL, B_GEN, B_CUT]
        jobs += sized(FEW, M_LEAK) + longs(SOME, M_LEAK); b += [B_LIST % FEW, B_LONG % SOME]
    elif pid == 'P23':
        jobs = tk(SYNTAX, BASE, DEEP, M_LOC) + by(SYNTAX, [(1, 0)], [(1, 1), (2, 0)], M_LOC) + fills(['x_blank'] if quick else X, M_LOC) + gens(ALLG, M_LOC, -2 if quick else -1, cut); must = [1, 2, 3, 4, 5]; b += [B_BYTE, B_FILL, B_CUT]
        jobs += sized(FEW, M_LOC) + longs(MANY, M_LOC); b += [B_LIST % FEW, B_LONG % MANY]
    elif pid == 'P05':
        jobs = fills(['x_words'], 0) + [tokenize(x, 0) for x in of('x_tokens')] + [case(x, 0) for x in of(*SYNTAX)] + by(SYNTAX, [(1, 0), (1, 1)], [(2, 0), (2, 1), (2, 2), (3, 1)], 0, 2); must += [7]
        b = [B_FILL + ' (x_words, and x_tokens through tokenize: among them all words of up to 19 characters)', 'every letter of every seed in upper or lower case, in all combinations', B_BYTE + ' (letters, digits and underscore)']
        jobs += longs(MANY, 0); b += [B_LONG % MANY]
    elif pid == 'P06':
        jobs = fills(['x_numbers'], 0) + by(SYNTAX, [(1, 0), (2, 0)], [(3, 0), (19, 0), (20, 0)], 0, 1) + by(SYNTAX, [(1, 1)], [(2, 0), (2, 1)], 0, 5); b = [B_FILL + ' (x_numbers: up to 25 symbolic digits)', B_BYTE + ' (digits, sign, dot)']
        jobs += longs(MANY, 0); b += [B_LONG % MANY]
    elif pid == 'P07':
        ks = [(1, 0), (1, 1)] + ([] if quick else [(2, 0), (2, 1), (3, 0)]); jobs = fills(['x_strings'], 0) + [text(x, K, D, 0) for K, D in ks for x in QUOTED]; b = [B_FILL + ' (x_strings)', B_BYTE + ' (seeds with quotes)']
        jobs += longs(MANY, 0); b += [B_LONG % MANY]
    elif pid == 'P08':
        jobs = fills(['x_blank'] if quick else ['x_blank', 'x_wide', 'x_deep'], 0) + by(SYNTAX, [(2, 0)], [(2, 1), (3, 0)], 0, 4) + gens(ALLG, 0, -3 if quick else -2, poke(2, 4)); b = [B_POKE, B_FILL + ' (x_blank)', B_BYTE + ' (white space, dash, quotes, semicolon, letter, digit, null)']
        jobs += longs(MANY, 0) + sized(FEW, 0); b += [B_LONG % MANY, B_LIST % FEW]
    elif pid == 'P22':
        jobs = [tokenize(x, M_LEAK) for x in of('x_tokens', *(['x_blank'] if quick else X))] + by(SYNTAX, [(1, 0)], [(1, 1), (2, 0), (2, 1)], M_TOK | M_LEAK | M_NOTREE); must = [7, 8]; b = [B_FILL + ' through tokenize', B_BYTE]
        jobs += longs(MANY, M_TOK | M_LEAK | M_NOTREE) + sized(FEW, M_TOK | M_LEAK | M_NOTREE); b += [B_LONG % MANY, B_LIST % FEW]
    elif pid == 'P27':
        jobs = fills(['x_dates'], 0) + [text(x, K, D, 0) for K, D in ([(1, 0), (1, 1)] if quick else [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2)]) for x in of(*SYNTAX) if 'DATE' in SEEDS[x] or 'INTERVAL' in SEEDS[x]]; b = [B_FILL + ' (x_dates)', B_BYTE + ' (seeds with date or interval literals)']
    elif pid == 'P28':
        m = M_QUIET | M_TOK; jobs = by(SYNTAX, [(1, 0)], [(1, 1), (2, 0)], m) + fills(['x_dates'] if quick else X, m) + gens(ALLG, m, -2 if quick else -1) + sized([17, 130], m) + longs(SOME, m) + by(['content'] if quick else SYNTAX, [(1, 0)], [], M_QUIET | M_API) + by(['content'] if quick else SYNTAX, [(1, 0)], [], M_QUIET | M_CSTR); must = [1, 2, 14]; b = [B_BYTE, B_FILL, B_GEN, B_LIST % [17, 130], B_LONG % SOME]
    elif pid == 'P29':
        jobs = by(SYNTAX, [(1, 0)], [(1, 1), (2, 0)], M_SAME) + fills(['x_dates'] if quick else X, M_SAME) + gens(ALLG, M_SAME, -3 if quick else -1) + sized([17, 130] if quick else FEW, M_SAME) + longs(SOME, M_SAME) + by(['content', 'lists'] if quick else SYNTAX, [(1, 0)], [], M_API | M_SAME) + by(['content', 'lists'] if quick else SYNTAX, [(1, 0)], [], M_CSTR | M_SAME); must = [1, 2, 4, 15]; b = [B_BYTE, B_FILL, B_GEN, B_LIST % ([17, 130] if quick else FEW,), B_LONG % SOME]
    elif pid == 'P30':
        jobs = tk(SYNTAX, BASE, [(2, 2)] + DEEP, M_MSG) + by(SYNTAX, [(1, 0)], [(1, 1), (2, 0)], M_MSG) + fills(['x_dates', 'x_strings'] if quick else X, M_MSG) + gens(ALLG, M_MSG, -3 if quick else -1, cut) + sized([17, 130] if quick else FEW, M_MSG) + longs(SOME, M_MSG); must = [1, 2, 13]; b += [B_BYTE, B_FILL, B_CUT, B_LIST % ([17, 130] if quick else FEW,), B_LONG % SOME]
    elif pid == 'P20':
        n = 3 if quick else 4; jobs = [nodes(8)] + [history(2, i) for i in range(32)] + [history(n, i) for i in range(32)]; must = [9]
        b = ['all sequences of up to %d out of 16 operations (two with symbolic arguments) on two result objects, destroyed in either order' % n]
    elif pid == 'P24':
        jobs = [nodes(i) for i in range(9)]; must = [10]; b = ['every factory, constructor and predicate with symbolic fields; lists of up to 6 parts; every sequence of five CSV options; results with up to 19 statements and 41 placeholders']
    elif pid == 'P25':
        T = ['select', 'from', 'expr', 'ops', 'copy', 'cmds', 'sets', 'dml', 'ddl', 'lists']; must = [1, 4, 6, 12]
        jobs = tk(T, BASE, [(0, 1), (2, 2), (2, 0), (2, 1)], M_PRINT) + by(['select', 'copy', 'dml'] if quick else T, [(1, 0)], [(1, 1), (2, 0)], M_PRINT) + gens(ALLG, M_PRINT, -1 if quick else 0) + [nodes(7)] + sized(FEW, M_PRINT); b += [B_BYTE, B_GEN, B_LIST % FEW]
    elif pid == 'P26':
        n = [300, 1100, 4200] if quick else [257, 1100, 5000]; jobs = []
        for k in n:
            for x in add('big%d_' % k, big_lists(k)): jobs += [tokens(x, 1, d, M_LEN, lo, lo) for d in ((0,) if quick and k > 2000 else (0, 1)) for lo in ([2 * k - 3] if quick else [k, 2 * k - 3])] + [text(x, 1, 0, M_LEN | M_LOC | M_TOK, 0, lo, lo) for lo in [len(SEEDS[x]) - 3] if not (quick and k > 2000)]
        for e in ([255, 256, 1024, 4096, 16384, 65536] if quick else EDGES): jobs += [fill(x, M_LEN | M_LOC | M_TOK) for x in add('long%d_' % e, big_tokens(e))]
        b = ['lists of %s elements of every kind, with a symbolic token or byte near their end; tokens, comments and white space of lengths around powers of two up to 65537 with symbolic bytes at both ends' % n]
    elif pid == 'P21':
        X2 = of('content', 'x_strings', 'lists', 'cmds', 'copy'); jobs = by(SYNTAX, [(1, 0)], [(1, 1), (2, 0)], M_GLOBAL | M_TOK); m = len(of(*SYNTAX)); al = of(*SYNTAX)
        jobs += [twice(al[i], al[(i * 7 + 3) % m], 1, M_GLOBAL) for i in range(0, m, 6 if quick else 1)] + [chain(m, st, fi, al[(fi * 11) % m], 1, 0, M_GLOBAL) for st, fi in ([(1, 0), (7, 5), (11, 9)] if quick else [(st, fi) for st in (1, 5, 7, 11, 13) for fi in range(0, m, 9)])]
        b = [B_BYTE, 'every pair of an input with a symbolic byte and a following one, and chains of all seeds in several orders, each outcome judged on its own; no instruction of parse or tokenize writes to memory that is not thread local and outlives the call']
    elif pid in TOPICS:
        T = TOPICS[pid]; mode = M_LEN if pid == 'P19' else 0
        jobs = tk(T, BASE + [(0, 1), (2, 2)] + ([] if pid == 'P09' else [(2, 1)]), [(2, 0), (2, 1), (3, 3), (3, 2)], mode)
        jobs += gens(T, mode, 0 if quick else 1) + sized(SIZES, mode, ['ddl', 'types'] if pid in ('P15', 'P16') else T); b += [B_GEN, B_LIST % SIZES]
        if pid == 'P10': jobs += gens(['ops'], mode, -1 if quick else 0)
        if pid == 'P19': jobs += sized(FEW, mode) + longs(SOME, mode) + by(T, [(1, 0), (1, 1)], [(2, 0), (2, 1)], mode) + by(T, [(2, 0)], [(3, 0)], mode, 4); b += [B_BYTE]
        if pid == 'P18': jobs += by(T, [(1, 0)], [(1, 1), (2, 1)], mode) + [nodes(8)]; b += [B_BYTE, 'placeholders added to a result in all orders of up to 6 and several orders of up to 41']
    else: raise SystemExit('no plan for ' + pid)
    return {'jobs': jobs, 'deadline': dl, 'bounds': '; '.join(b), 'must_reach': must, 'max_steps': 120000000 if pid != 'P26' else 300000000}
