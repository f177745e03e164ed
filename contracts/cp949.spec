// Code page 949 (contracts/cp949.ref).
table cpdec "cp949.ref" 0 1 -1
table cpenc "cp949.ref" 1 0 0

// the decoding of the complete characters of s, and whether s ends within one
def decc(c: int): int := ite(cpdec(c) == -1, 0xFFFD, cpdec(c))
rec dec(s: seq): seq := if len(s) == 0 then empty else if s[0] < 0x80 then cat(unit(s[0]), dec(drop(s, 1))) else if len(s) == 1 then empty else cat(u8enc(decc(s[0] * 256 + s[1])), dec(drop(s, 2)))
rec dang(s: seq): bool := if len(s) == 0 then false else if s[0] < 0x80 then dang(drop(s, 1)) else if len(s) == 1 then true else dang(drop(s, 2))
template dec bytes bytes
template dang bytes bool

// the encoding of s
def encr(r: int): seq := if cpenc(r) == 0 then bytes(0x3F) else bytes(cpenc(r) / 256, cpenc(r) % 256)
rec enc(s: seq): seq := if len(s) == 0 then empty else if s[0] < 0x80 then cat(unit(s[0]), enc(drop(s, 1))) else cat(encr(u8rune(s)), enc(drop(s, u8size(s))))
template enc bytes bytes
template u8junk bytes holds

// the two directions are inverse, and each syllable has a code
lemma cp.inverse.dec(c: int) [C03, C07]
  over cpdec
  trigger cpdec(c)
  ensures cpenc(cpdec(c)) == c && 0x8100 <= c <= 0xFEFF && 0x80 <= cpdec(c) <= 0xFFE6 && u8valid(cpdec(c)) && c % 256 >= 0x41
lemma cp.inverse.enc(r: int) [C03, C07]
  over cpenc
  trigger cpenc(r)
  ensures cpdec(cpenc(r)) == r
lemma cp.syllables(r: int) [C07]
  over 0xAC00 0xD7A3
  trigger cpenc(r)
  ensures cpenc(r) != 0

func cp949.From(in)(out, err)
  ensures [C01] dang(in) ==> err == cp949.ErrCP949UnexpectedStream && isnil(out)
  ensures [C01] !dang(in) ==> isnil(err) && out == dec(in)
func cp949.To(in)(out, err)
  ensures [C02] isnil(err) && out == enc(in)

// lossless: texts all of whose characters have a code, sequences of codes
rec cptext(s: seq): bool := len(s) == 0 || (0 <= s[0] < 0x80 && cptext(drop(s, 1))) || (s[0] >= 0x80 && u8size(s) > 1 && cpenc(u8rune(s)) != 0 && cptext(drop(s, u8size(s))))
rec cpcodes(s: seq): bool := len(s) == 0 || (0 <= s[0] < 0x80 && cpcodes(drop(s, 1))) || (s[0] >= 0x80 && len(s) >= 2 && 0 <= s[1] <= 255 && cpdec(s[0] * 256 + s[1]) != -1 && cpcodes(drop(s, 2)))
lemma enc.dec(s: seq) [C03]
  induction s
  trigger cptext(s), dec(enc(s))
  trigger cptext(s), dang(enc(s))
  requires cptext(s)
  ensures dec(enc(s)) == s && !dang(enc(s))
lemma dec.enc(s: seq) [C03]
  induction s
  trigger cpcodes(s), enc(dec(s))
  trigger cpcodes(s), dang(s)
  requires cpcodes(s)
  assert len(s) >= 1 ==> s == cat(bytes(s[0]), drop(s, 1))
  assert len(s) >= 2 ==> s == cat(bytes(s[0], s[1]), drop(s, 2))
  assert len(s) >= 2 && s[0] >= 0x80 ==> encr(cpdec(s[0] * 256 + s[1])) == bytes(s[0], s[1])
  ensures enc(dec(s)) == s && !dang(s)
unit text.to.code.to.text(t: bytes) [C03]
  requires cptext(t)
  let c, e1 := cp949.To(t)
  let u, e2 := cp949.From(c)
  ensures isnil(e1) && isnil(e2) && u == old(t)
unit code.to.text.to.code(c: bytes) [C03]
  requires cpcodes(c)
  let t, e1 := cp949.From(c)
  let d, e2 := cp949.To(t)
  ensures isnil(e1) && isnil(e2) && d == old(c)

// single codes and characters
unit one.code(c: bytes) [C07]
  requires len(c) == 2 && c[0] >= 0x80
  let t, e := cp949.From(c)
  ensures isnil(e) && t == u8enc(decc(old(c)[0] * 256 + old(c)[1]))
unit one.character(t: bytes, r: rune) [C07]
  requires u8valid(r) && r >= 0x80 && t == u8enc(r)
  let c, e := cp949.To(t)
  ensures isnil(e) && c == encr(r)
unit one.syllable(t: bytes, r: rune) [C07]
  requires 0xAC00 <= r <= 0xD7A3 && t == u8enc(r)
  let c, e1 := cp949.To(t)
  let u, e2 := cp949.From(c)
  ensures isnil(e1) && isnil(e2) && len(c) == 2 && u == u8enc(r)
