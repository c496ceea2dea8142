// V02: a vec returns every block it allocates, with the right layout, to the allocator it came from;
// and its allocator travels with its storage.
#include "vecsup.h"
template <class V> static void mk(V& v, Ref& r, size_t max, const char* nm) {
  size_t how = vp_pick(0, 2), n = vp_pick(0, max);
  if (how == 1) v.spill_to_heap(n, true);
  if (how == 2) v.spill_to_heap(best::option<size_t>(max + 2));
  for (size_t i = 0; i < n; ++i) { int x = any<int>(nm); v.push(x); r.v[r.n++] = x; }
}
template <class V, size_t M> static void pair() {
  using T = typename V::type;
  vp_no_crash(true);
  size_t heap0 = vp_heap_live();
  {
    int ida = 1, idb = 1 + vp_pick(0, 1);
    V a(Arena{ida}), b(Arena{idb}); Ref r, q;
    mk(a, r, M, "a"); mk(b, q, M, "b");
    switch (vp_pick(0, 5)) {
      case 0: { V c(a); same(c, r); MUST(c.allocator().id == ida, "a copy uses an equal allocator"); break; }
      case 1: { V c(std::move(a)); same(c, r); MUST(c.allocator().id == ida, "moving takes the allocator along"); r.n = 0; break; }
      case 2: a = b; r = q; break;
      case 3: a = std::move(b); r = q; q.n = 0; MUST(a.allocator().id == idb, "moving takes the allocator along"); break;
      case 4: { auto x = std::move(a).to_box(); MUST(x->size() == r.n, "to_box keeps the elements"); MUST(r.n == 0 || x.allocator().id == ida, "to_box takes the allocator along"); for (size_t i = 0; i < r.n; ++i) MUST(val((*x)[i]) == r.v[i], "to_box keeps the elements"); V y(std::move(x)); if (r.n) MUST(y.allocator().id == ida, "a vec made from a box takes the allocator along"); same(y, r); y.push(7); r.v[r.n++] = 7; same(y, r); r.n = 0; break; }
      default: { a.shrink_to_fit(); b.reserve(3); break; }
    }
    same(a, r); same(b, q);
    for (int i = 0; i < 3; ++i) { int x = any<int>("x"); a.push(x); r.ins(r.n, x); b.push(x); q.ins(q.n, x); }
    same(a, r); same(b, q);
    if (tracked<T>) MUST(vp_live_count() == r.n + q.n, "exactly the elements are live");
    if (ida == idb) REACH("same"); else REACH("different");
  }
  MUST(vp_live_count() == 0 && vp_heap_live() == heap0, "everything is released");
}
W(pair_int) { pair<best::vec<int, 1, Arena>, 2>(); }
W(pair_int0) { pair<best::vec<int, 0, Arena>, 2>(); }
W(pair_tracked) { pair<best::vec<Tracked, 1, Arena>, 2>(); }
W(pair_owner) { pair<best::vec<Owner, 1, Arena>, 2>(); }
// sequences of operations
template <class V> static void history(int len) {
  using T = typename V::type;
  vp_no_crash(true);
  size_t heap0 = vp_heap_live();
  {
    V v(Arena{7}); Ref r;
    for (int k = 0; k < len; ++k) switch (vp_pick(0, 6)) {
      case 0: { int x = any<int>("x"); v.push(x); r.ins(r.n, x); break; }
      case 1: for (int i = 0; i < 3; ++i) { int x = any<int>("x"); v.insert(0, x); r.ins(0, x); } break;
      case 2: if (v.pop()) r.n--; break;
      case 3: v.erase({.start = 0, .count = r.n / 2}); r.del(0, r.n / 2); break;
      case 4: v.shrink_to_fit(); break;
      case 5: { V w = std::move(v); v = std::move(w); break; }
      default: { V w(v); w.append(v); v = w; for (size_t i = 0, n = r.n; i < n; ++i) r.ins(r.n, r.v[i]); break; }
    }
    same(v, r);
    MUST(v.allocator().id == 7, "the allocator stays");
    if (tracked<T>) MUST(vp_live_count() == r.n, "exactly the elements are live");
    if (v.is_inlined()) REACH("inline"); else REACH("heap");
  }
  MUST(vp_live_count() == 0 && vp_heap_live() == heap0, "everything is released");
}
W(history_int) { history<best::vec<int, 2, Arena>>(3); }
W(history_tracked) { history<best::vec<Tracked, 2, Arena>>(3); }
W(history_owner) { history<best::vec<Owner, 1, Arena>>(3); }
// A vec built from a range, a list, an iterator.
template <class T> static void build() {
  vp_no_crash(true);
  size_t heap0 = vp_heap_live();
  {
    int x[3]; size_t n = vp_pick(0, 3); for (auto& e : x) e = any<int>("x");
    Ref r; for (size_t i = 0; i < n; ++i) r.ins(i, x[i]);
    best::vec<T, 1> src; for (size_t i = 0; i < n; ++i) src.push(x[i]);
    switch (vp_pick(0, 3)) {
      case 0: { best::vec<T, 2> v(src.as_span()); same(v, r); break; }
      case 1: { best::vec<T, 2> v{T(x[0]), T(x[1]), T(x[2])}; r.n = 3; r.v[0] = x[0]; r.v[1] = x[1]; r.v[2] = x[2]; same(v, r); break; }
      case 2: { best::vec<T, 0> v(src.iter()); same(v, r); break; }
      default: { best::vec<T, 2> v(src); same(v, r); v.assign(src); same(v, r); break; }
    }
    REACH("built");
  }
  MUST(vp_live_count() == 0 && vp_heap_live() == heap0, "everything is released");
}
W(build_int) { build<int>(); }
W(build_tracked) { build<Tracked>(); }
W(build_owner) { build<Owner>(); }
// over-aligned and odd-sized elements keep their alignment
struct alignas(64) Big { int v; char pad[60]; Big(int v) : v(v) {} };
W(overaligned) {
  vp_no_crash(true);
  best::vec<Big, 0> v; size_t n = vp_pick(1, 3);
  for (size_t i = 0; i < n; ++i) { v.push((int)i); for (size_t k = 0; k <= i; ++k) MUST(v[k].v == (int)k, "growing keeps the elements"); }
  MUST((uintptr_t)v.data().raw() % 64 == 0, "elements are aligned");
  REACH("done");
}
W(overaligned_inline) {
  vp_no_crash(true);
  best::vec<Big, 1> v; v.push(1); MUST(v.is_inlined() && (uintptr_t)v.data().raw() % 64 == 0, "elements are aligned"); v.push(2);
  MUST(v[0].v == 1 && v[1].v == 2, "growing keeps the elements"); REACH("done");
}
CONTROL(leak) { size_t h = vp_heap_live(); best::vec<int, 0, Arena> v(Arena{1}); v.push(1); MUST(vp_heap_live() == h, "control"); }
