// The io.Reader and the io.Writer of the package.
object reader(src: source) [C04, X01]
  let r, e := cp949.NewReader(src)
  assert isnil(e)
  set out := empty
  try (r: rest) len(r) <= len(src.data) && r == drop(src.data, len(src.data) - len(r))
  try (r: rest, e: error) e == src.err && (!dang(take(src.data, len(src.data) - len(r))) || len(r) == 0 && e != io.EOF && e != 0) || e == cp949.ErrCP949UnexpectedStream && src.err == io.EOF && len(r) == 0 && dang(src.data)
  try (r: rest) !dang(take(src.data, len(src.data) - len(r)))
  try (r: rest, o: done) cat(out, o) == dec(take(src.data, len(src.data) - len(r)))
  method Read(buf: bytes) writes buf
    let n, err := r.Read(buf)
    assert 0 <= n <= len(buf)
    set out := cat(out, take(buf, n))
    assert len(out) <= len(dec(src.data)) && out == take(dec(src.data), len(out))
    assert !isnil(err) ==> out == dec(src.data)
    assert !isnil(err) ==> err == src.err && (err == io.EOF ==> !dang(src.data)) || err == cp949.ErrCP949UnexpectedStream && src.err == io.EOF && dang(src.data)
    assert isnil(err) && n == 0 ==> len(buf) == 0 || src.idle

object writer(dst: sink) [C05, X01]
  let w, e := cp949.NewWriter(dst)
  assert isnil(e)
  set in := empty
  try (r: rest) r == held(in)
  try () dst.data == encw(in)
  method Write(data: bytes)
    set before := in
    set in := cat(in, data)
    let n, err := w.Write(data)
    set in := ite(isnil(err), in, before)
    assert isnil(err) ==> n == len(data)
    assert !isnil(err) ==> n == 0 && err == dst.err
    assert dst.data == encw(in)
