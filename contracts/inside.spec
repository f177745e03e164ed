// Contracts of functions inside the package cp949, which are used in place of
// their bodies if they hold.
func cp949.ensureCap(s, n)(t)
  helper
  requires n <= 1125899906842624
  append s t := empty
  ensures cap(t) >= n
func cp949.appendRune(buf, r)(q)
  helper
  append buf q := u8enc(r)
func cp949.translateFromCp949.Translate(p, data)(n, out, err)
  helper
  given p.table := cp949.fromTable
  requires disjoint(data, p.scratch)
  grow p.scratch out
  try (r: rest) len(r) <= len(in.data) && r == drop(in.data, len(in.data) - len(r))
  try (r: rest) !dang(take(in.data, len(in.data) - len(r)))
  try (r: rest, o: done) o == dec(take(in.data, len(in.data) - len(r)))
  ensures 0 <= n <= len(data)
  ensures n > 0 ==> len(out) > 0
  ensures !dang(take(data, n))
  ensures out == dec(take(data, n))
  ensures isnil(err) ==> n == len(data)
  ensures !isnil(err) ==> err == cp949.ErrCP949UnexpectedStream && len(data) == n + 1 && data[n] >= 0x80
func cp949.translateToCp949.Translate(p, data)(n, out, err)
  helper
  given p.table := cp949.toTable
  requires disjoint(data, p.scratch)
  grow p.scratch out
  try (r: rest) len(r) <= len(in.data) && r == drop(in.data, len(in.data) - len(r))
  try (r: rest) bound(in.data, len(in.data) - len(r))
  try (r: rest, o: done) o == enc(take(in.data, len(in.data) - len(r)))
  try (r: rest) wlen(in.data) == len(in.data) - len(r) + wlen(r)
  ensures 0 <= n <= len(data)
  ensures n == wlen(data)
  ensures out == encw(data)
  ensures drop(data, n) == held(data)
  ensures isnil(err)
  reveal wlen, encw, held, enc.next
