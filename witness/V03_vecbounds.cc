// V03: indexing a vec outside its length crashes or yields none; it never touches memory.
#include "vecsup.h"
using V = best::vec<int, 2>;
using VT = best::vec<Tracked, 2>;
template <class V, class F> static void mustcrash(F f) {
  V v; Ref r; make(v, r, 3);
  f(v, r.n);
  vp_violation("an out-of-range access goes through");
}
// any index/range, in range or not
template <class V, class F> static void either(F f) {
  V v; Ref r; make(v, r, 3);
  f(v, r);
}
W(index_oob) { mustcrash<V>([](V& v, size_t n) { size_t i = any<size_t>("i"); vp_assume(i >= n); (void)v[i]; }); }
W(insert_oob) { mustcrash<V>([](V& v, size_t n) { size_t i = any<size_t>("i"); vp_assume(i > n); v.insert(i, 1); }); }
W(insert_oob_t) { mustcrash<VT>([](VT& v, size_t n) { size_t i = any<size_t>("i"); vp_assume(i > n); v.insert(i, 1); }); }
W(remove_oob) { mustcrash<V>([](V& v, size_t n) { size_t i = any<size_t>("i"); vp_assume(i >= n); (void)v.remove(i); }); }
W(remove_oob_t) { mustcrash<VT>([](VT& v, size_t n) { size_t i = any<size_t>("i"); vp_assume(i >= n); (void)v.remove(i); }); }
W(erase_oob) { mustcrash<V>([](V& v, size_t n) { size_t i = any<size_t>("i"), c = any<size_t>("c"); vp_assume(i > n || c > n - i); v.erase({.start = i, .count = c}); }); }
W(erase_oob_t) { mustcrash<VT>([](VT& v, size_t n) { size_t i = any<size_t>("i"), c = any<size_t>("c"); vp_assume(i > n || c > n - i); v.erase({.start = i, .count = c}); }); }
W(erase_end_oob) { mustcrash<V>([](V& v, size_t n) { size_t i = any<size_t>("i"), c = any<size_t>("c"); vp_assume(i > c || c > n); v.erase({.start = i, .end = c}); }); }
W(splice_oob) { mustcrash<V>([](V& v, size_t n) { int o[2] = {1, 2}; size_t i = any<size_t>("i"), m = vp_pick(0, 2); vp_assume(i > n); v.splice(i, best::span<const int>(o, m)); }); }
W(setsize_oob) { mustcrash<V>([](V& v, size_t) { size_t k = any<size_t>("k"); vp_assume(k > v.capacity()); v.set_size(best::unsafe("t"), k); }); }
W(reserve_overflow) { mustcrash<V>([](V& v, size_t n) { size_t k = any<size_t>("k"); vp_assume(k > (size_t)-1 / 8); v.reserve(k); }); }
W(reserve_overflow_t) { mustcrash<VT>([](VT& v, size_t n) { size_t k = any<size_t>("k"); vp_assume(k > (size_t)-1 / 8); v.reserve(k); }); }
W(slice) { either<V>([](V& v, Ref& r) {
  size_t i = any<size_t>("i"), c = any<size_t>("c");
  bool ok = i <= r.n && c <= r.n - i;
  auto s = v.at({.start = i, .count = c});
  MUST(s.has_value() == ok, "at(range) succeeds exactly when in range");
  if (s) { MUST(s->data().raw() == v.data().raw() + i && s->size() == c, "at(range) is that range"); REACH("in"); } else REACH("out");
  auto e = v.at(i);
  MUST(e.has_value() == (i < r.n), "at(index) succeeds exactly when in range");
  if (e) MUST(&*e == v.data().raw() + i, "at(index) is that element");
  MUST(v.first().has_value() == (r.n > 0) && v.last().has_value() == (r.n > 0), "first and last exist unless empty");
  if (r.n) MUST(&*v.first() == v.data().raw() && &*v.last() == v.data().raw() + r.n - 1, "first and last");
}); }
W(set_size) { either<V>([](V& v, Ref& r) {
  size_t k = vp_pick(0, r.n);
  v.set_size(best::unsafe("t"), k); r.n = k; same(v, r); REACH("done");
}); }
W(truncate_any) { either<V>([](V& v, Ref& r) {
  size_t k = any<size_t>("k"); v.truncate(k); if (k < r.n) { r.n = k; REACH("cut"); } else REACH("kept");
  MUST(v.size() == r.n, "truncate keeps at most that many");
}); }
CONTROL(ok) { mustcrash<V>([](V& v, size_t n) { size_t i = any<size_t>("i"); vp_assume(i < n); (void)v[i]; }); }
