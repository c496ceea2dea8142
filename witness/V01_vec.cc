// V01: a vec is the sequence its history says it is.
#include "vecsup.h"

// Runs `op` on an arbitrary vector, checks it against the reference, then
// checks that the result is still a working vector and that nothing leaks.
template <class V, size_t max, class F> static void run(F op) {
  using T = typename V::type;
  vp_no_crash(true);
  size_t heap0 = vp_heap_live();
  {
    V v; Ref r;
    make(v, r, max);
    op(v, r);
    same(v, r);
    if (tracked<T>) MUST(vp_live_count() == r.n, "exactly the elements are live");
    int x = elem<T>("last"); v.push(x); r.ins(r.n, x);
    same(v, r);
    if (v.is_inlined()) REACH("inline"); else REACH("heap");
  }
  MUST(vp_live_count() == 0 && vp_heap_live() == heap0, "everything is released");
}
template <class V, size_t M> static void grow() { run<V, M>([](V& v, Ref& r) {
  using T = typename V::type;
  int x = elem<T>("x"); size_t i = vp_pick(0, r.n);
  switch (vp_pick(0, 1)) {
    case 0: { auto& e = v.push(x); MUST(val(e) == x, "push returns the new element"); r.ins(r.n, x); break; }
    default: { auto& e = v.insert(i, x); MUST(val(e) == x, "insert returns the new element"); r.ins(i, x); break; }
  }
}); }
template <class V, size_t M> static void cut() { run<V, M>([](V& v, Ref& r) {
  size_t i = vp_pick(0, r.n), c = vp_pick(0, r.n - i);
  switch (vp_pick(0, 5)) {
    case 0: { auto e = v.pop(); MUST(e.has_value() == (r.n > 0), "pop yields an element unless empty"); if (e) { MUST(val(*e) == r.v[r.n - 1], "pop yields the last element"); r.del(r.n - 1, 1); } break; }
    case 1: if (i < r.n) { auto e = v.remove(i); MUST(val(e) == r.v[i], "remove yields the element"); r.del(i, 1); } break;
    case 2: v.erase({.start = i, .count = c}); r.del(i, c); break;
    case 3: v.truncate(i + c); r.n = i + c; break;
    case 4: { size_t cap = v.capacity(); v.truncate(r.n + 2); v.clear(); r.n = 0; MUST(v.capacity() == cap, "clear keeps the capacity"); break; }
    default: v.erase({.start = i}); r.n = i; break;
  }
}); }
template <class V, size_t M> static void room() { run<V, M>([](V& v, Ref& r) {
  size_t k = vp_pick(0, 5);
  switch (vp_pick(0, 4)) {
    case 0: { v.reserve(k); MUST(v.capacity() >= r.n + k, "reserve makes the room asked for"); auto* p = v.data().raw(); auto s = v.spare_capacity(); MUST(s.data().raw() == p + r.n && s.size() == v.capacity() - r.n, "spare_capacity"); break; }
    case 1: v.shrink_to_fit(); MUST(v.is_inlined() || v.capacity() == r.n, "shrink_to_fit leaves no spare heap capacity"); break;
    case 2: v.spill_to_heap(); MUST(v.is_on_heap() || r.n == 0, "spill_to_heap moves to the heap"); break;
    case 3: v.spill_to_heap(best::option<size_t>(r.n + k)); MUST(v.capacity() >= r.n + k && v.is_on_heap(), "spill_to_heap makes the room asked for"); break;
    default: v.spill_to_heap(best::option<size_t>(r.n + k), true); MUST(v.is_on_heap() && v.capacity() == r.n + k, "an exact spill has exactly that capacity"); break;
  }
}); }
template <class V, size_t M> static void join() { run<V, M>([](V& v, Ref& r) {
  using T = typename V::type;
  size_t heap = vp_heap_live(); (void)heap;
  alignas(T) char raw[3 * sizeof(T)]; T* o = (T*)raw; size_t m = vp_pick(0, 3), i = vp_pick(0, r.n); int x[3];
  for (size_t k = 0; k < m; ++k) { x[k] = elem<T>("o"); new (o + k) T(x[k]); }
  best::span<const T> s(o, m);
  switch (vp_pick(0, 2)) {
    case 0: v.append(s); for (size_t k = 0; k < m; ++k) r.ins(r.n, x[k]); break;
    case 1: v.splice(i, s); for (size_t k = 0; k < m; ++k) r.ins(i + k, x[k]); break;
    default: v.assign(s); r.n = 0; for (size_t k = 0; k < m; ++k) r.ins(k, x[k]); break;
  }
  for (size_t k = 0; k < m; ++k) { MUST(val(o[k]) == x[k], "the source is left alone"); o[k].~T(); }
}); }
template <class V, size_t M> static void within() { run<V, M>([](V& v, Ref& r) {
  using T = typename V::type;
  size_t s = vp_pick(0, r.n), m = vp_pick(0, r.n - s), i = vp_pick(0, r.n);
  v.splice(i, best::span<const T>(v.data().raw() + s, m));
  int x[8]; for (size_t k = 0; k < m; ++k) x[k] = r.v[s + k];
  for (size_t k = 0; k < m; ++k) r.ins(i + k, x[k]);
}); }
template <class V, size_t M> static void whole() { run<V, M>([](V& v, Ref& r) {
  using T = typename V::type;
  V o; Ref q; 
  make(o, q, M, "o");
  switch (vp_pick(0, 6)) {
    case 0: { V c(v); same(c, r); break; }
    case 1: v = o; r = q; break;
    case 2: { V c(std::move(o)); same(c, q); q.n = 0; break; }
    case 3: v = std::move(o); r = q; q.n = 0; break;
    case 4: { auto& self = v; v = self; v = std::move(self); break; }
    case 5: { v.assign(o); r = q; break; }
    default: { auto b = std::move(o).to_box(); MUST(b->size() == q.n, "to_box keeps the elements"); for (size_t k = 0; k < q.n; ++k) MUST(val((*b)[k]) == q.v[k], "to_box keeps the elements"); 
      q.n = 0; break; }
  }
  same(o, q);
  int y = elem<T>("y"); o.push(y); q.ins(q.n, y); same(o, q);
  o.clear();
}); }
#define X(n, V, m, mw) \
W(grow_##n) { grow<V, m>(); } W(cut_##n) { cut<V, m>(); } W(room_##n) { room<V, m>(); } W(join_##n) { join<V, m>(); } \
W(within_##n) { within<V, m>(); } W(whole_##n) { whole<V, mw>(); }
using Vi = best::vec<int>; using Vi0 = best::vec<int, 0>; using Vt = best::vec<Tracked, 3>; using Vt0 = best::vec<Tracked, 0>; using Vo = best::vec<Owner, 2>; using Vb = best::vec<uint8_t>;
W(grow_int) { grow<Vi, 6>(); } W(cut_int) { cut<Vi, 6>(); } W(room_int) { room<Vi, 6>(); } W(join_int) { join<Vi, 6>(); }
using Vi2 = best::vec<int, 2>; W(within_int) { within<Vi2, 4>(); } W(whole_int) { whole<Vi2, 3>(); }
X(int0, Vi0, 4, 3) X(tracked, Vt, 4, 4) X(tracked0, Vt0, 3, 3) X(owner, Vo, 3, 3)

// Inline lengths over the whole range of the length byte(s).
template <size_t N> static void wide() {
  vp_no_crash(true);
  using V = best::vec<uint8_t, N>;
  V v; size_t n = vp_pick(N > 4 ? N - 4 : 0, N); 
  for (size_t i = 0; i < n; ++i) v.push((uint8_t)(i * 7 + 1));
  MUST(v.size() == n && v.is_inlined(), "elements up to MaxInline are stored inline");
  for (size_t i = 0; i < n; ++i) MUST(v[i] == (uint8_t)(i * 7 + 1), "the elements are those of the sequence");
  V w(std::move(v)); MUST(w.size() == n && v.size() == 0, "moved");
  while (w.size() <= N) w.push((uint8_t)(w.size() * 7 + 1));
  MUST(w.is_on_heap() && w.size() == N + 1, "one more spills");
  for (size_t i = 0; i <= N; ++i) MUST(w[i] == (uint8_t)(i * 7 + 1), "the elements are those of the sequence");
  REACH("done");
}
W(wide_1) { wide<1>(); } W(wide_23) { wide<23>(); } W(wide_31) { wide<31>(); } W(wide_127) { wide<127>(); } W(wide_128) { wide<128>(); } W(wide_200) { wide<200>(); } W(wide_255) { wide<255>(); } W(wide_256) { wide<256>(); }
// Between vecs of different inline capacities.
template <class A, class B> static void cross() {
  vp_no_crash(true);
  A a; B b; Ref r, q; make(a, r, 2, "a"); make(b, q, 4, "b");
  switch (vp_pick(0, 2)) {
    case 0: a.assign(b); r = q; break;
    case 1: a.append(b); for (size_t i = 0; i < q.n; ++i) r.ins(r.n, q.v[i]); break;
    default: a.splice(0, b); for (size_t i = 0; i < q.n; ++i) r.ins(i, q.v[i]); break;
  }
  same(a, r); same(b, q);
  int x = elem<typename A::type>("x"); a.push(x); r.ins(r.n, x); same(a, r);
  REACH("done");
}
W(cross_int) { cross<best::vec<int, 2>, best::vec<int, 4>>(); }
W(cross_int2) { cross<best::vec<int, 6>, best::vec<int, 1>>(); }
W(cross_tracked) { cross<best::vec<Tracked, 2>, best::vec<Tracked, 3>>(); }
CONTROL(len) { Vi v; v.push(1); Ref r; same(v, r); }
