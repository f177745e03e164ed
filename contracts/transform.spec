// The x/text transformers of the package.
def whole(s: seq): bool := !dang(s)
lemma dang.cat(a: seq, b: seq)
  local
  induction a
  trigger dang(cat(a, b)), dang(a)
  requires !dang(a)
  ensures dang(cat(a, b)) <==> dang(b)
lemma dec.cat(a: seq, b: seq)
  local
  induction a
  trigger dec(cat(a, b)), dang(a)
  requires !dang(a)
  ensures dec(cat(a, b)) == cat(dec(a), dec(b))

lemma dec.split(s: seq, n: int, m: int)
  trigger dec(take(s, n)), dec(take(s, m))
  requires 0 <= n < m && m <= len(s) && !dang(take(s, n))
  assert take(s, m) == cat(take(s, n), take(drop(s, n), m - n))
  ensures dec(take(s, m)) == cat(dec(take(s, n)), dec(take(drop(s, n), m - n)))
lemma dang.split(s: seq, n: int, m: int)
  trigger dang(take(s, n)), dang(take(s, m))
  requires 0 <= n < m && m <= len(s) && !dang(take(s, n))
  assert take(s, m) == cat(take(s, n), take(drop(s, n), m - n))
  ensures dang(take(s, m)) <==> dang(take(drop(s, n), m - n))
lemma dec.grow(s: seq, z: seq, n: int, m: int)
  trigger dec(take(s, n)), dec(take(cat(s, z), m))
  requires 0 <= n <= len(s) && n < m && m <= len(s) + len(z) && !dang(take(s, n))
  assert take(cat(s, z), n) == take(s, n) && drop(cat(s, z), n) == cat(drop(s, n), z)
  assert dec(take(cat(s, z), m)) == cat(dec(take(cat(s, z), n)), dec(take(drop(cat(s, z), n), m - n)))
  ensures dec(take(cat(s, z), m)) == cat(dec(take(s, n)), dec(take(cat(drop(s, n), z), m - n)))
lemma dang.grow(s: seq, z: seq, n: int, m: int)
  trigger dang(take(s, n)), dang(take(cat(s, z), m))
  requires 0 <= n <= len(s) && n < m && m <= len(s) + len(z) && !dang(take(s, n))
  assert take(cat(s, z), n) == take(s, n) && drop(cat(s, z), n) == cat(drop(s, n), z)
  assert dang(take(cat(s, z), n)) <==> dang(take(s, n))
  ensures dang(take(cat(s, z), m)) <==> dang(take(cat(drop(s, n), z), m - n))
lemma dang.rest(s: seq, z: seq, n: int)
  trigger dang(take(s, n)), dang(cat(s, z))
  requires 0 <= n <= len(s) && !dang(take(s, n))
  assert cat(s, z) == cat(take(s, n), cat(drop(s, n), z))
  ensures dang(cat(s, z)) <==> dang(cat(drop(s, n), z))
lemma dang.end(s: seq, n: int)
  trigger dang(take(s, n)), dang(s)
  requires 0 <= n <= len(s) && !dang(take(s, n))
  assert s == cat(take(s, n), drop(s, n))
  ensures dang(s) <==> dang(drop(s, n))

object decoder [C06, X01]
  let e := cp949.NewCP949Encoding()
  let d := cp949.CP949Encoding.NewDecoder(e)
  set in := empty
  try (r: rest) len(r) <= len(in) && r == drop(in, len(in) - len(r))
  try (r: rest) !dang(take(in, len(in) - len(r)))
  try (r: rest, o: done) o == dec(take(in, len(in) - len(r)))
  method Transform(dst: bytes, src: bytes, atEOF: bool) writes dst
    assume disjoint(dst, src)
    set in := src
    let nDst, nSrc, err := d.Transformer.Transform(dst, src, atEOF)
    assert 0 <= nDst <= len(dst) && 0 <= nSrc <= len(src)
    assert !dang(take(in, nSrc))
    assert take(dst, nDst) == dec(take(in, nSrc))
    assert isnil(err) ==> nSrc == len(src)
    assert !isnil(err) ==> err == transform.ErrShortDst || (err == transform.ErrShortSrc && !atEOF) || (err == cp949.ErrCP949UnexpectedStream && atEOF)
    assert err == transform.ErrShortDst ==> len(src) > nSrc && (in[nSrc] >= 0x80 ==> len(src) >= nSrc + 2) && len(dst) - nDst < ite(in[nSrc] < 0x80, 1, len(u8enc(decc(in[nSrc] * 256 + in[nSrc + 1]))))
    assert !isnil(err) && err != transform.ErrShortDst ==> len(src) == nSrc + 1 && in[nSrc] >= 0x80
  method Reset()
    let := d.Transformer.Reset()

// n is the end of a character of s (or 0)
rec bound(s: seq, n: int): bool opaque := n == 0 || (0 < n && len(s) > 0 && u8size(s) <= n && bound(drop(s, u8size(s)), n - u8size(s)))
lemma u8.take(s: seq, m: int)
  trigger u8size(take(s, m))
  requires 0 < len(s) && u8size(s) <= m && m <= len(s)
  ensures u8size(take(s, m)) == u8size(s)
  reveal u8size
lemma u8.take.rune(s: seq, m: int)
  trigger u8rune(take(s, m))
  requires 0 < len(s) && u8size(s) <= m && m <= len(s)
  ensures u8rune(take(s, m)) == u8rune(s)
  reveal u8size, u8rune
lemma bound.range(s: seq, n: int)
  induction s
  trigger bound(s, n)
  requires bound(s, n)
  ensures 0 <= n <= len(s)
  reveal bound
lemma bound.enc(s: seq, n: int)
  induction s
  local
  trigger bound(s, n), enc(take(s, n))
  requires bound(s, n)
  assert 0 < n ==> take(s, n) == cat(take(s, u8size(s)), take(drop(s, u8size(s)), n - u8size(s)))
  assert 0 < n ==> enc(drop(s, u8size(s))) == cat(enc(take(drop(s, u8size(s)), n - u8size(s))), enc(drop(drop(s, u8size(s)), n - u8size(s))))
  assert 0 < n ==> drop(drop(s, u8size(s)), n - u8size(s)) == drop(s, n)
  assert 0 < n ==> drop(take(s, n), u8size(s)) == take(drop(s, u8size(s)), n - u8size(s)) && take(s, n)[0] == s[0]
  assert 0 < n ==> enc(take(s, n)) == cat(ite(s[0] < 0x80, bytes(s[0]), encr(u8rune(s))), enc(take(drop(s, u8size(s)), n - u8size(s))))
  ensures enc(s) == cat(enc(take(s, n)), enc(drop(s, n)))
  reveal bound
lemma bound.zero(s: seq, n: int)
  trigger bound(s, n)
  ensures n == 0 ==> bound(s, n)
  reveal bound
lemma bound.step(s: seq)
  trigger u8size(s), bound(s, u8size(s))
  assert bound(drop(s, u8size(s)), 0)
  assert u8size(s) - u8size(s) == 0
  ensures len(s) > 0 ==> bound(s, u8size(s))
  reveal bound
lemma bound.add(s: seq, n: int, k: int)
  induction s
  trigger bound(s, n), bound(drop(s, n), k)
  requires bound(s, n) && bound(drop(s, n), k)
  assert 0 < n ==> drop(drop(s, u8size(s)), n - u8size(s)) == drop(s, n)
  assert 0 < n ==> bound(drop(s, u8size(s)), n - u8size(s) + k)
  ensures bound(s, n + k)
  reveal bound
lemma bound.next(s: seq, n: int)
  trigger bound(s, n), drop(s, n)
  requires bound(s, n) && n < len(s)
  assert bound(drop(s, n), u8size(drop(s, n)))
  ensures bound(s, n + u8size(drop(s, n)))
  reveal bound
lemma bound.take(s: seq, n: int, m: int)
  induction s
  local
  trigger bound(s, n), bound(take(s, m), n)
  requires bound(s, n) && n <= m && m <= len(s)
  assert 0 < n ==> bound(take(drop(s, u8size(s)), m - u8size(s)), n - u8size(s))
  assert 0 < n ==> take(s, m) == cat(take(s, u8size(s)), take(drop(s, u8size(s)), m - u8size(s)))
  assert 0 < n ==> drop(take(s, m), u8size(s)) == take(drop(s, u8size(s)), m - u8size(s))
  ensures bound(take(s, m), n)
  reveal bound
lemma enc.split(s: seq, n: int, m: int)
  trigger enc(take(s, n)), enc(take(s, m))
  requires bound(s, n) && 0 <= n < m && m <= len(s)
  assert bound(take(s, m), n)
  assert take(s, m) == cat(take(s, n), take(drop(s, n), m - n))
  assert take(take(s, m), n) == take(s, n)
  assert drop(take(s, m), n) == take(drop(s, n), m - n)
  ensures enc(take(s, m)) == cat(enc(take(s, n)), enc(take(drop(s, n), m - n)))
lemma enc.next(s: seq, n: int)
  local
  trigger enc(take(s, n)), u8size(drop(s, n))
  requires bound(s, n) && n < len(s)
  assert bound(s, n + u8size(drop(s, n)))
  assert enc(take(s, n + u8size(drop(s, n)))) == cat(enc(take(s, n)), enc(take(drop(s, n), u8size(drop(s, n)))))
  assert u8size(take(drop(s, n), u8size(drop(s, n)))) == u8size(drop(s, n))
  assert drop(take(drop(s, n), u8size(drop(s, n))), u8size(drop(s, n))) == empty
  ensures enc(take(s, n + u8size(drop(s, n)))) == cat(enc(take(s, n)), ite(drop(s, n)[0] < 0x80, bytes(drop(s, n)[0]), encr(u8rune(drop(s, n)))))

// the length of the complete characters at the beginning of s, their encoding,
// and the rest
rec wlen(s: seq): int opaque := if len(s) == 0 || !u8full(s) then 0 else u8size(s) + wlen(drop(s, u8size(s)))
def encw(s: seq): seq opaque := enc(take(s, wlen(s)))
def held(s: seq): seq opaque := drop(s, wlen(s))
lemma wlen.range(s: seq)
  induction s
  trigger wlen(s)
  ensures 0 <= wlen(s) <= len(s) && len(s) - wlen(s) <= 3
  reveal wlen
lemma wlen.held(s: seq)
  induction s
  local
  trigger wlen(s), drop(s, wlen(s))
  assert 0 < wlen(s) ==> drop(drop(s, u8size(s)), wlen(drop(s, u8size(s)))) == drop(s, wlen(s))
  ensures !u8full(drop(s, wlen(s)))
  reveal wlen
lemma wlen.bound(s: seq)
  induction s
  local
  trigger wlen(s)
  ensures bound(s, wlen(s))
  reveal wlen, bound
lemma wlen.boundcat(s: seq, z: seq)
  induction s
  local
  trigger wlen(s), cat(s, z)
  assert u8full(s) ==> u8size(cat(s, z)) == u8size(s)
  assert u8full(s) ==> drop(cat(s, z), u8size(s)) == cat(drop(s, u8size(s)), z)
  assert u8full(s) ==> bound(cat(drop(s, u8size(s)), z), wlen(drop(s, u8size(s))))
  ensures bound(cat(s, z), wlen(s))
  reveal wlen, bound
lemma wlen.cat(a: seq, b: seq)
  induction a
  local
  trigger wlen(cat(a, b)), wlen(a)
  assert u8full(a) ==> u8full(cat(a, b)) && u8size(cat(a, b)) == u8size(a)
  assert u8full(a) ==> drop(cat(a, b), u8size(a)) == cat(drop(a, u8size(a)), b)
  assert u8full(a) ==> drop(drop(a, u8size(a)), wlen(drop(a, u8size(a)))) == drop(a, wlen(a))
  ensures wlen(cat(a, b)) == wlen(a) + wlen(cat(drop(a, wlen(a)), b))
  reveal wlen
lemma held.cat(a: seq, b: seq)
  trigger held(cat(a, b)), held(a)
  assert wlen(cat(a, b)) == wlen(a) + wlen(cat(drop(a, wlen(a)), b))
  assert drop(cat(a, b), wlen(a)) == cat(drop(a, wlen(a)), b)
  ensures held(cat(a, b)) == held(cat(held(a), b))
  reveal held
lemma encw.cat(a: seq, b: seq)
  trigger encw(cat(a, b)), held(a)
  assert wlen(cat(a, b)) == wlen(a) + wlen(cat(drop(a, wlen(a)), b))
  assert drop(cat(a, b), wlen(a)) == cat(drop(a, wlen(a)), b)
  assert take(cat(a, b), wlen(a)) == take(a, wlen(a))
  assert bound(cat(a, b), wlen(a)) && bound(cat(a, b), wlen(cat(a, b)))
  assert wlen(a) < wlen(cat(a, b)) ==> enc(take(cat(a, b), wlen(cat(a, b)))) == cat(enc(take(cat(a, b), wlen(a))), enc(take(drop(cat(a, b), wlen(a)), wlen(cat(a, b)) - wlen(a))))
  ensures encw(cat(a, b)) == cat(encw(a), encw(cat(held(a), b)))
  reveal held, encw
lemma encw.held(s: seq)
  trigger encw(s), enc(s)
  assert bound(s, wlen(s))
  ensures enc(s) == cat(encw(s), enc(held(s)))
  reveal held, encw
lemma held.len(s: seq)
  trigger held(s)
  assert !u8full(drop(s, wlen(s)))
  ensures len(held(s)) <= 3 && !u8full(held(s)) && len(held(s)) == len(s) - wlen(s)
  reveal held
lemma held.empty(s: seq)
  trigger held(s)
  ensures len(s) == 0 ==> held(s) == empty
  reveal held, wlen
lemma encw.none(s: seq)
  trigger encw(s), wlen(s)
  ensures wlen(s) == 0 ==> encw(s) == empty
  reveal encw
lemma encw.empty(s: seq)
  trigger encw(s)
  ensures len(s) == 0 ==> encw(s) == empty
  reveal encw, wlen

object encoder [C06, X01]
  let e := cp949.NewCP949Encoding()
  let d := cp949.CP949Encoding.NewEncoder(e)
  set in := empty
  set z := empty
  try (r: rest) len(r) + len(z) <= len(in) && cat(r, z) == drop(in, len(in) - len(r) - len(z))
  try (r: rest) bound(in, len(in) - len(r) - len(z))
  try (r: rest, o: done) o == enc(take(in, len(in) - len(r) - len(z)))
  method Transform(dst: bytes, src: bytes, atEOF: bool, more: seq) writes dst
    assume disjoint(dst, src)
    assume atEOF ==> more == empty
    set z := more
    set in := cat(src, z)
    let nDst, nSrc, err := d.Transformer.Transform(dst, src, atEOF)
    assert 0 <= nDst <= len(dst) && 0 <= nSrc <= len(src)
    assert bound(in, nSrc)
    assert take(dst, nDst) == enc(take(in, nSrc))
    assert isnil(err) ==> nSrc == len(src)
    assert !isnil(err) ==> nSrc < len(src) && (err == transform.ErrShortDst && (atEOF || u8full(drop(src, nSrc))) || err == transform.ErrShortSrc && !atEOF && !u8full(drop(src, nSrc)))
    assert err == transform.ErrShortDst ==> len(dst) - nDst < len(enc(take(drop(src, nSrc), u8size(drop(src, nSrc)))))
  method Reset()
    let := d.Transformer.Reset()
