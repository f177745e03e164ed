// Package hangul: runes of the Korean script.
def isLead(r: int): bool := 0x1100 <= r <= 0x1112
def isMedial(r: int): bool := 0x1161 <= r <= 0x1175
def isTail(r: int): bool := 0x11A8 <= r <= 0x11C2
def isCJaeum(r: int): bool := 0x3131 <= r <= 0x314E
def isCMoeum(r: int): bool := 0x314F <= r <= 0x3163
def isSyl(r: int): bool := 0xAC00 <= r <= 0xD7A3

func hangul.IsLead(r)(b) [H03]
  ensures b <==> isLead(r)
func hangul.IsMedial(r)(b) [H03]
  ensures b <==> isMedial(r)
func hangul.IsTail(r)(b) [H03]
  ensures b <==> isTail(r)
func hangul.IsJaeum(r)(b) [H03]
  ensures b <==> isCJaeum(r) || isLead(r) || isTail(r)
func hangul.IsMoeum(r)(b) [H03]
  ensures b <==> isCMoeum(r) || isMedial(r)
func hangul.IsHangul(r)(b) [H03]
  ensures b <==> isSyl(r) || isCJaeum(r) || isCMoeum(r) || isLead(r) || isMedial(r) || isTail(r)

// Conversions.  The tables come from the Unicode names (tools/mkjamo.py).
table conj2compat "jamo.ref" 0 1 0
table leadOf "lead.ref" 0 1 0
table medialOf "medial.ref" 0 1 0
table tailOf "tail.ref" 0 1 0
def compatJ(r: int): int := ite(isCJaeum(r) || isCMoeum(r), r, conj2compat(r))
def leadJ(r: int): int := ite(isLead(r), r, leadOf(r))
def medialJ(r: int): int := ite(isMedial(r), r, medialOf(r))
def tailJ(r: int): int := ite(isTail(r), r, tailOf(r))

func hangul.CompatJamo(r)(c) [H04]
  ensures c == compatJ(r)
func hangul.Lead(r)(c) [H04]
  ensures c == leadJ(r)
func hangul.Medial(r)(c) [H04]
  ensures c == medialJ(r)
func hangul.Tail(r)(c) [H04]
  ensures c == tailJ(r)

unit compat.of.lead(r: rune) [H04]
  requires isLead(r)
  let c := hangul.CompatJamo(r)
  let d := hangul.Lead(c)
  ensures d == r && isCJaeum(c)
unit compat.of.medial(r: rune) [H04]
  requires isMedial(r)
  let c := hangul.CompatJamo(r)
  let d := hangul.Medial(c)
  ensures d == r && isCMoeum(c)
unit compat.of.tail(r: rune) [H04]
  requires isTail(r)
  let c := hangul.CompatJamo(r)
  let d := hangul.Tail(c)
  ensures d == r && isCJaeum(c)
unit compat.back(r: rune) [H04]
  requires isCJaeum(r) || isCMoeum(r)
  let l := hangul.Lead(r)
  let m := hangul.Medial(r)
  let t := hangul.Tail(r)
  let cl := hangul.CompatJamo(l)
  let cm := hangul.CompatJamo(m)
  let ct := hangul.CompatJamo(t)
  ensures l != 0 || m != 0 || t != 0
  ensures (l != 0 ==> isLead(l) && cl == r) && (m != 0 ==> isMedial(m) && cm == r) && (t != 0 ==> isTail(t) && ct == r)

// Canonical decomposition of a precomposed syllable (Unicode, section 3.12).
def decL(c: int): int := 0x1100 + (c - 0xAC00) / 588
def decV(c: int): int := 0x1161 + ((c - 0xAC00) % 588) / 28
def decT(c: int): int := ite((c - 0xAC00) % 28 == 0, 0, 0x11A7 + (c - 0xAC00) % 28)
def compose(l: int, v: int, t: int): int := 0xAC00 + ((l - 0x1100) * 21 + (v - 0x1161)) * 28 + ite(t == 0, 0, t - 0x11A7)

lemma compose.is.inverse(c: int) [H01, H02]
  requires isSyl(c)
  ensures isLead(decL(c)) && isMedial(decV(c)) && (decT(c) == 0 || isTail(decT(c))) && compose(decL(c), decV(c), decT(c)) == c
lemma decompose.is.inverse(l: int, v: int, t: int) [H01, H02]
  requires isLead(l) && isMedial(v) && (t == 0 || isTail(t))
  ensures isSyl(compose(l, v, t)) && decL(compose(l, v, t)) == l && decV(compose(l, v, t)) == v && decT(compose(l, v, t)) == t

func hangul.Split(c)(l, m, t)
  ensures [H01] isSyl(c) ==> l == decL(c) && m == decV(c) && t == decT(c)
func hangul.SplitCompat(c)(l, m, t)
  ensures [H01] isSyl(c) ==> l == compatJ(decL(c)) && m == compatJ(decV(c)) && t == ite(decT(c) == 0, 0, compatJ(decT(c)))
func hangul.Join(l, m, t)(r)
  ensures [H02] r == ite(leadJ(l) != 0 && medialJ(m) != 0 && (t == 0 || tailJ(t) != 0), compose(leadJ(l), medialJ(m), ite(t == 0, 0, tailJ(t))), 0xFFFD)
unit join.of.split(c: rune) [H01]
  requires isSyl(c)
  let l, m, t := hangul.Split(c)
  let r := hangul.Join(l, m, t)
  ensures r == c
unit join.of.splitcompat(c: rune) [H01]
  requires isSyl(c)
  let l, m, t := hangul.SplitCompat(c)
  let r := hangul.Join(l, m, t)
  ensures r == c

// Composite letters.
table elem1 "elems.ref" 0 1 0
table elem2 "elems.ref" 0 2 0
table elem3 "elems.ref" 0 3 0
def isMulti(c: int): bool := elem1(c) != 0
func hangul.SplitMultiElement(r)(es, ok)
  inline
  ensures [H05] ok <==> isMulti(compatJ(r))
  ensures [H05] !isMulti(compatJ(r)) ==> len(es) == 0
  ensures [H05] isMulti(compatJ(r)) ==> len(es) == ite(elem3(compatJ(r)) == 0, 2, 3) && es[0] == elem1(compatJ(r)) && es[1] == elem2(compatJ(r)) && (elem3(compatJ(r)) != 0 ==> es[2] == elem3(compatJ(r)))
  ensures [H05, X02] fresh(es)
lemma elements.are.single(c: int) [H05]
  requires isMulti(c)
  ensures !isMulti(elem1(c)) && !isMulti(elem2(c)) && !isMulti(elem3(c)) && elem2(c) != 0

// Strokes.
table strokes1 "strokes.ref" 0 1 0
def strokesC(c: int): int := ite(isMulti(c), strokes1(elem1(c)) + strokes1(elem2(c)) + strokes1(elem3(c)), strokes1(c))
def strokesJ(r: int): int := strokesC(compatJ(r))
func hangul.Stroke(r)(n)
  decreases ite(isSyl(r), 1, 0)
  ensures [H06] n == ite(isSyl(r), strokesJ(decL(r)) + strokesJ(decV(r)) + strokesJ(decT(r)), strokesJ(r))

// Words.
def lastc(w: seq): int := ite(len(runes(w)) > 0 && isSyl(runes(w)[len(runes(w)) - 1]), decT(runes(w)[len(runes(w)) - 1]), 0)
def lastr(s: seq, d: int): int := ite(len(runes(s)) > 0, runes(s)[len(runes(s)) - 1], d)
template lastr bytes int
def withEuro(): seq := bytes(0xEC, 0x9C, 0xBC, 0xEB, 0xA1, 0x9C)
func hangul.LastConsonant(word)(c)
  ensures [H07] c == lastc(word)
func hangul.EndsWithConsonant(word)(b)
  ensures [H07] b <==> lastc(word) != 0
func hangul.AppendPostposition(word, with, without)(s)
  ensures [H08] s == cat(word, if lastc(word) == 0 || (with == withEuro() && lastc(word) == 0x11AF) then without else with)
