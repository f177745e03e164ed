// Binary search, on the source of the installed library.  The function is an
// arbitrary predicate without effects, not necessarily a monotonic one.
func sort.Search(n, f)(r)
  requires n <= 281474976710656
  ensures 0 <= r && (r <= n || r == 0)
  ensures r > 0 ==> !f(r - 1)
  ensures r < n ==> f(r)
