#!/usr/bin/env python3
# Writes kw.h: the reserved words as a trie, and the alphabet of the token windows.
import sys, os
d = os.path.dirname(os.path.abspath(__file__))
kw = open(d + '/keywords.txt').read().split()
trie = [[1] * 28, [1] * 28]; code = ['0', '0']   # 0: the start; 1: no keyword any more
def add(w, c):
    n = 0
    for ch in w:
        k = ord(ch) - 65 + 1
        if trie[n][k] == 1: trie.append([1] * 28); code.append('0'); trie[n][k] = len(trie) - 1
        n = trie[n][k]
    code[n] = c
for w in kw: add(w, 'SQL_' + w)
add('CURRENT', '-1'); add('CHARACTER', '-2')
o = open(sys.argv[1], 'w')
o.write('static const short KW_TRIE[%d][28] = {\n' % len(trie) + ',\n'.join('{' + ','.join(map(str, r)) + '}' for r in trie) + '};\n')
o.write('static const short KW_CODE[%d] = {%s};\n' % (len(code), ','.join(code)))
cls = [0] * 256
for i in range(26): cls[65 + i] = cls[97 + i] = i + 1
for i in range(10): cls[48 + i] = 27
cls[95] = 27
o.write('static const unsigned char KW_CLS[256] = {%s};\n' % ','.join(map(str, cls)))
single = [1 if i < 128 and chr(i) in "-+*/(){},.;<>=^%:?[]|" else 0 for i in range(256)]
o.write('static const unsigned char CH_SINGLE[256] = {%s};\n' % ','.join(map(str, single)))
# alphabet: code, text (at most 23 characters), rendering is done in C
A = [(0, '')]
for w in kw: A.append(('SQL_' + w, w))
A += [('SQL_CURRENT_ROW', 'CURRENT ROW'), ('SQL_CHARACTER_VARYING', 'CHARACTER VARYING'), ('SQL_EQUALS', '=='), ('SQL_NOTEQUALS', '<>'), ('SQL_LESSEQ', '<='), ('SQL_GREATEREQ', '>='), ('SQL_CONCAT', '||')]
for c in "-+*/(){},.;<>=^%:?[]|": A.append(("'%s'" % c, c))
for t in ['wa', 'CSV', 'tbl', 'Bin', 'binary', 'Delimiter', 'QUOTE', 'Nulls', 'FIRST', 'last']: A.append(('SQL_IDENTIFIER', t))
for t in ['ws', '2020-12-31', '2020-1-', '7', '12 Days', 'x 1', '']: A.append(('SQL_STRING', t))
A += [('SQL_INTVAL', ''), ('SQL_FLOATVAL', '0.5'), ('SQL_INVALID', '$')]
assert len(A) <= 256, len(A)
o.write('enum { ALPHA = %d };\nstatic const short A_CODE[%d] = {%s};\n' % (len(A), len(A), ','.join(str(a) for a, _ in A)))
o.write('static const char A_TEXT[%d][20] = {%s};\n' % (len(A), ','.join('"%s"' % t for _, t in A)))
