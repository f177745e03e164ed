// Package hanja: readings of Chinese characters.
table hj "hanja.ref" 0 1 0
def hjr(r: int): int := ite(hj(r) == 0, r, hj(r))
rec hjmap(x: seq): seq := if len(x) == 0 then empty else cat(unit(hjr(x[0])), hjmap(drop(x, 1)))
template hjmap runes runes
def hjtext(s: seq): seq := hjmap(runes(s))
template hjtext bytes runes
def hjbytes(s: seq): seq := strof(hjmap(runes(s)))
template hjbytes bytes bytes

func hanja.IsHanja(c)(b) [J02]
  ensures b <==> hj(c) != 0
func hanja.Convert(h)(out)
  ensures [J01] out == strof(hjmap(runes(h)))

// each reading is one syllable, and no syllable has one; the hanja are
// ideographs of the three blocks
lemma hj.reading(c: int) [J01, J02]
  over hj
  trigger hj(c)
  ensures 0xAC00 <= hj(c) <= 0xD7A3
lemma hj.blocks(c: int) [J02]
  over hj
  trigger hj(c)
  ensures 0x3400 <= c <= 0x4DBF || 0x4E00 <= c <= 0x9FFF || 0xF900 <= c <= 0xFAFF

lemma hj.once(c: int) [J01]
  over hj
  trigger hj(hj(c))
  ensures hj(hj(c)) == 0
lemma hjr.idem(r: int) [J01]
  trigger hj(hjr(r))
  ensures hj(hjr(r)) == 0 && hjr(hjr(r)) == hjr(r) && (u8valid(r) ==> u8valid(hjr(r)))
lemma hjmap.len(x: seq) [J01]
  induction x
  trigger hjmap(x)
  ensures len(hjmap(x)) == len(x)
lemma hjmap.at(x: seq, k: int) [J01]
  induction x
  trigger hjmap(x)[k]
  requires 0 <= k < len(x)
  ensures hjmap(x)[k] == hjr(x[k])
lemma hjmap.valid(x: seq) [J01]
  induction x
  trigger allvalid(hjmap(x))
  requires allvalid(x)
  ensures allvalid(hjmap(x))
lemma hjmap.idem(x: seq) [J01]
  induction x
  trigger hjmap(hjmap(x))
  ensures hjmap(hjmap(x)) == hjmap(x)

// character by character
unit convert.characters(h: string, k: int) [J01]
  let out := hanja.Convert(h)
  ensures len(runes(out)) == len(runes(h))
  ensures 0 <= k < len(runes(h)) ==> runes(out)[k] == hjr(runes(h)[k]) && hj(runes(out)[k]) == 0
unit convert.again(h: string) [J01]
  let out := hanja.Convert(h)
  let again := hanja.Convert(out)
  ensures again == out
unit convert.one(c: rune, s: string) [J02]
  requires hj(c) != 0 && s == u8enc(c)
  let b := hanja.IsHanja(c)
  let out := hanja.Convert(s)
  ensures b && out == u8enc(hj(c)) && 0xAC00 <= hj(c) <= 0xD7A3
