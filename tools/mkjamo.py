#!/usr/bin/env python3
# Writes the reference tables of the hangul contracts from the Unicode
# character names (Python's unicodedata), not from the code in /repo.
import unicodedata as U, re, sys, os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')
def names(lo, hi, prefix):
    r = {}
    for c in range(lo, hi+1):
        n = U.name(chr(c))
        assert n.startswith(prefix), n
        r[n[len(prefix):]] = c
    return r
compat = names(0x3131, 0x3163, 'HANGUL LETTER ')
lead = names(0x1100, 0x1112, 'HANGUL CHOSEONG ')
medial = names(0x1161, 0x1175, 'HANGUL JUNGSEONG ')
tail = names(0x11A8, 0x11C2, 'HANGUL JONGSEONG ')
with open(out + '/jamo.ref', 'w') as f:
    f.write('# conjoining compatibility kind name\n')
    for kind, d in (('L', lead), ('V', medial), ('T', tail)):
        for n, c in d.items():
            f.write('0x%04X 0x%04X %s %s\n' % (c, compat[n], kind, n))
for kind, d in (('lead', lead), ('medial', medial), ('tail', tail)):
    with open(out + '/' + kind + '.ref', 'w') as f:
        f.write('# compatibility conjoining\n')
        for n, c in d.items():
            f.write('0x%04X 0x%04X %s\n' % (compat[n], c, n))
vowels = {'AE': 'A I', 'YAE': 'YA I', 'E': 'EO I', 'YE': 'YEO I', 'WA': 'O A', 'WAE': 'O A I', 'OE': 'O I',
          'WEO': 'U EO', 'WE': 'U EO I', 'WI': 'U I', 'YI': 'EU I'}
with open(out + '/elems.ref', 'w') as f:
    f.write('# letter and its single letters (0: no third)\n')
    n = 0
    for name, c in compat.items():
        if name in vowels: parts = vowels[name].split()
        elif name.startswith('SSANG'): parts = [name[5:]]*2
        elif '-' in name: parts = name.split('-')
        else: continue
        n += 1
        ps = [compat[p] for p in parts] + [0]*(3-len(parts))
        f.write('0x%04X 0x%04X 0x%04X 0x%04X %s\n' % (c, *ps, name))
    assert n == 27
st = 'ㄱ 1, ㄴ 1, ㄷ 2, ㄹ 3, ㅁ 3, ㅂ 4, ㅅ 2, ㅇ 1, ㅈ 3, ㅊ 4, ㅋ 2, ㅌ 3, ㅍ 4, ㅎ 3, ㅏ 2, ㅑ 3, ㅓ 2, ㅕ 3, ㅗ 2, ㅛ 3, ㅜ 2, ㅠ 3, ㅡ 1, ㅣ 1'
with open(out + '/strokes.ref', 'w') as f:
    f.write('# single letter, strokes\n')
    for x in st.split(', '):
        l, k = x.split()
        f.write('0x%04X %s %s\n' % (ord(l), k, U.name(l)))
# exported constants: romanised names as used by the package -> Unicode names
rom = {'G':'KIYEOK','N':'NIEUN','D':'TIKEUT','L':'RIEUL','R':'RIEUL','M':'MIEUM','B':'PIEUP','S':'SIOS','ZS':'IEUNG','NG':'IEUNG','J':'CIEUC','C':'CHIEUCH','K':'KHIEUKH','T':'THIEUTH','P':'PHIEUPH','H':'HIEUH'}
for x in 'GDBSJ': rom[x+x] = 'SSANG'+rom[x]
for a, b in ('GS','NJ','NH','LG','LM','LB','LS','LT','LP','LH','BS'): rom[a+b] = rom[a]+'-'+rom[b]
vs = list(medial)
lines = []
def emit(names, prefix, table):
    for n in names: lines.append(('hangul.'+prefix+n, table[rom.get(n, n)]))
cj = [n for n in ('G GG GS N NJ NH D DD L LG LM LB LS LT LP LH M B BB BS S SS ZS J JJ C K T P H').split()]
emit(cj + ['NG'], '', compat); emit(vs, '', compat)
emit('G GG N D DD R M B BB S SS ZS J JJ C K T P H'.split(), 'Lead', lead)
emit(vs, 'Medial', medial)
emit('G GG GS N NJ NH D L LG LM LB LS LT LP LH M B BS S SS NG J C K T P H'.split(), 'Tail', tail)
with open(out + '/constants.spec', 'w') as f:
    f.write('// H09: the exported jamo constants, from the Unicode character names (tools/mkjamo.py)\n')
    f.write('const [H09]\n' + ',\n'.join('  %s == 0x%04X' % l for l in lines) + '\n')
print(len(lines))
