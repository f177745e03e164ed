// UTF-8 as Go reads and writes it.  The functions of unicode/utf8 are
// verified against these contracts, on the source of the installed library.
def cont(b: int): bool := 0x80 <= b <= 0xBF
def two(s: seq): bool := len(s) >= 2 && 0xC2 <= s[0] <= 0xDF && cont(s[1])
def sec3(a: int, b: int): bool := 0xE0 <= a <= 0xEF && ite(a == 0xE0, 0xA0, 0x80) <= b <= ite(a == 0xED, 0x9F, 0xBF)
def sec4(a: int, b: int): bool := 0xF0 <= a <= 0xF4 && ite(a == 0xF0, 0x90, 0x80) <= b <= ite(a == 0xF4, 0x8F, 0xBF)
def three(s: seq): bool := len(s) >= 3 && sec3(s[0], s[1]) && cont(s[2])
def four(s: seq): bool := len(s) >= 4 && sec4(s[0], s[1]) && cont(s[2]) && cont(s[3])

def u8size(s: seq): int opaque := if len(s) == 0 then 0 else if s[0] < 0x80 then 1 else if two(s) then 2 else if three(s) then 3 else if four(s) then 4 else 1
// (a negative element is no byte; the case only makes the function total)
def u8rune(s: seq): int opaque := if len(s) == 0 then 0xFFFD else if s[0] < 0 then 0 else if s[0] < 0x80 then s[0] else if two(s) then (s[0] - 0xC0) * 64 + (s[1] - 0x80) else if three(s) then (s[0] - 0xE0) * 4096 + (s[1] - 0x80) * 64 + (s[2] - 0x80) else if four(s) then (s[0] - 0xF0) * 262144 + (s[1] - 0x80) * 4096 + (s[2] - 0x80) * 64 + (s[3] - 0x80) else 0xFFFD
// an incomplete but so far valid character
def u8part(s: seq): bool := (len(s) == 1 && 0xC2 <= s[0] <= 0xF4) || (len(s) == 2 && (sec3(s[0], s[1]) || sec4(s[0], s[1]))) || (len(s) == 3 && sec4(s[0], s[1]) && cont(s[2]))
def u8full(s: seq): bool opaque := len(s) > 0 && !u8part(s)
def u8valid(r: int): bool := 0 <= r <= 0xD7FF || 0xE000 <= r <= 0x10FFFF
def u8e3(r: int): seq := bytes(0xE0 + r / 4096, 0x80 + (r / 64) % 64, 0x80 + r % 64)
def u8enc(r: int): seq opaque := if !u8valid(r) then bytes(0xEF, 0xBF, 0xBD) else if r < 0x80 then bytes(r) else if r < 0x800 then bytes(0xC0 + r / 64, 0x80 + r % 64) else if r < 0x10000 then u8e3(r) else bytes(0xF0 + r / 262144, 0x80 + (r / 4096) % 64, 0x80 + (r / 64) % 64, 0x80 + r % 64)

func utf8.DecodeRune(p)(r, size)
  ensures r == u8rune(p) && size == u8size(p)
  reveal u8rune, u8size
func utf8.DecodeRuneInString(s)(r, size)
  ensures r == u8rune(s) && size == u8size(s)
  reveal u8rune, u8size
func utf8.FullRune(p)(b)
  ensures b <==> u8full(p)
  reveal u8full
func utf8.FullRuneInString(s)(b)
  ensures b <==> u8full(s)
  reveal u8full
func utf8.RuneLen(r)(n)
  ensures n == ite(u8valid(r), len(u8enc(r)), -1)
  reveal u8enc
func utf8.ValidRune(r)(b)
  ensures b <==> u8valid(r)
func utf8.EncodeRune(p, r)(n)
  requires len(p) >= len(u8enc(r))
  ensures n == len(u8enc(r))
  writes p := u8enc(r)
  reveal u8enc
func utf8.AppendRune(p, r)(q)
  append p q := u8enc(r)
  reveal u8enc

// bytes none of which begins a character: the rest of an incomplete one
def u8junk(s: seq): bool opaque := len(s) <= 3 && (len(s) > 0 ==> u8part(s) || (cont(s[0]) && (len(s) > 1 ==> cont(s[1])) && (len(s) > 2 ==> cont(s[2]))))
lemma u8.junk(s: seq)
  trigger u8junk(s)
  ensures u8junk(s) && len(s) > 0 ==> s[0] >= 0x80 && u8size(s) == 1 && u8rune(s) == 0xFFFD && u8junk(drop(s, 1))
  reveal u8junk, u8size, u8rune
lemma u8.notfull(s: seq)
  trigger u8full(s), u8junk(s)
  ensures !u8full(s) ==> u8junk(s)
  reveal u8full, u8junk

lemma u8.bounds(s: seq)
  trigger u8size(s)
  ensures 0 <= u8size(s) <= 4 && u8size(s) <= len(s) && (len(s) > 0 ==> u8size(s) >= 1 && (s[0] < 0x80 ==> u8size(s) == 1))
  reveal u8size
lemma u8.range(s: seq)
  trigger u8rune(s)
  ensures u8valid(u8rune(s))
  reveal u8rune
lemma u8.enc.len(r: int)
  trigger u8enc(r)
  ensures 1 <= len(u8enc(r)) <= 4 && (0 <= r < 0x80 ==> u8enc(r) == bytes(r)) && (r >= 0x80 ==> len(u8enc(r)) >= 2 && u8enc(r)[0] >= 0xC2)
  reveal u8enc
lemma u8.one(s: seq)
  trigger u8size(s), u8rune(s)
  ensures u8size(s) == 1 && s[0] >= 0x80 ==> u8rune(s) == 0xFFFD
  reveal u8rune, u8size
lemma u8.full.size(s: seq, z: seq)
  trigger u8full(s), u8size(cat(s, z))
  ensures u8full(s) ==> u8size(cat(s, z)) == u8size(s)
  reveal u8size, u8full
lemma u8.full.rune(s: seq, z: seq)
  trigger u8full(s), u8rune(cat(s, z))
  ensures u8full(s) ==> u8rune(cat(s, z)) == u8rune(s)
  reveal u8rune, u8full
lemma u8.full.cat(s: seq, z: seq)
  trigger u8full(s), u8full(cat(s, z))
  ensures u8full(s) ==> u8full(cat(s, z))
  reveal u8full
lemma u8.part(s: seq)
  trigger u8full(s)
  ensures len(s) > 0 && !u8full(s) ==> len(s) <= 3 && u8size(s) == 1 && s[0] >= 0x80
  ensures (len(s) >= 4 ==> u8full(s)) && (len(s) == 0 ==> !u8full(s))
  reveal u8size, u8full
lemma u8.decode.encode(r: int, z: seq)
  trigger u8rune(cat(u8enc(r), z))
  trigger u8size(cat(u8enc(r), z))
  ensures u8rune(cat(u8enc(r), z)) == ite(u8valid(r), r, 0xFFFD) && u8size(cat(u8enc(r), z)) == len(u8enc(r))
  reveal u8rune, u8size, u8enc
lemma u8.decode.encode.one(r: int)
  trigger u8rune(u8enc(r))
  trigger u8size(u8enc(r))
  ensures u8rune(u8enc(r)) == ite(u8valid(r), r, 0xFFFD) && u8size(u8enc(r)) == len(u8enc(r))
  reveal u8rune, u8size, u8enc
lemma u8.encode.decode(s: seq)
  trigger u8enc(u8rune(s))
  requires len(s) > 0 && 0 <= s[0] && (s[0] < 0x80 || u8size(s) > 1)
  assert s == cat(unit(s[0]), drop(s, 1))
  assert len(s) >= 2 ==> s == cat(bytes(s[0], s[1]), drop(s, 2))
  assert len(s) >= 3 ==> s == cat(bytes(s[0], s[1], s[2]), drop(s, 3))
  assert len(s) >= 4 ==> s == cat(bytes(s[0], s[1], s[2], s[3]), drop(s, 4))
  assert s[0] < 0x80 ==> u8enc(u8rune(s)) == bytes(s[0]) && u8size(s) == 1
  assert s[0] >= 0x80 && two(s) ==> u8enc(u8rune(s)) == bytes(s[0], s[1]) && u8size(s) == 2
  assert s[0] >= 0x80 && three(s) ==> u8enc(u8rune(s)) == bytes(s[0], s[1], s[2]) && u8size(s) == 3
  assert s[0] >= 0x80 && four(s) ==> u8enc(u8rune(s)) == bytes(s[0], s[1], s[2], s[3]) && u8size(s) == 4
  ensures u8enc(u8rune(s)) == take(s, u8size(s))
  reveal u8rune, u8size, u8enc

// the characters of a string, and the string of some characters
rec runes(s: seq): seq := if len(s) == 0 then empty else cat(unit(u8rune(s)), runes(drop(s, u8size(s))))
rec strof(x: seq): seq := if len(x) == 0 then empty else cat(u8enc(x[0]), strof(drop(x, 1)))
rec allvalid(x: seq): bool := len(x) == 0 || (u8valid(x[0]) && allvalid(drop(x, 1)))
lemma runes.len(s: seq)
  induction s
  trigger runes(s)
  ensures len(runes(s)) <= len(s) && (len(s) > 0 ==> len(runes(s)) > 0)
lemma runes.valid(s: seq)
  induction s
  trigger runes(s)
  ensures allvalid(runes(s))
lemma runes.strof(x: seq)
  induction x
  trigger runes(strof(x))
  requires allvalid(x)
  ensures runes(strof(x)) == x
lemma strof.one(r: int)
  trigger u8enc(r), strof(bytes(r))
  ensures strof(bytes(r)) == u8enc(r)
