// P01: best::ptr operations move, copy and destroy objects exactly once and to the right place.
#include "vp.h"
#include <cstdlib>
#include "best/container/option.h"
#include "best/memory/ptr.h"
#include "best/memory/span.h"

// A trivially relocatable owner of one heap cell: leaks, double frees and uses
// after free are visible to the analysis.
struct [[clang::trivial_abi]] Owner {
  int* p;
  Owner(int v) : p((int*)malloc(4)) { *p = v; }
  Owner(const Owner& o) : p((int*)malloc(4)) { *p = *o.p; }
  Owner(Owner&& o) : p(o.p) { o.p = nullptr; }
  Owner& operator=(const Owner& o) { *p = *o.p; return *this; }
  Owner& operator=(Owner&& o) { int* t = p; p = o.p; o.p = t; return *this; }
  ~Owner() { free(p); }
  int get() const { return *p; }
};
static int val(const Tracked& t) { return t.get(); }
static int val(const Owner& o) { return o.get(); }
static int val(const int& i) { return i; }
template <class T> constexpr bool tracked = std::is_same_v<T, Tracked>;
template <class T> struct Raw { alignas(T) char b[sizeof(T) * 6]; T* at(size_t i) { return (T*)b + i; } };

enum Op { COPY, MOVE, RELO };
template <class T, Op op, bool assign> static void xfer() {
  vp_no_crash(true);
  size_t heap0 = vp_heap_live();
  Raw<T> A, B;
  size_t n = vp_pick(0, 3);
  int v[3];
  for (size_t i = 0; i < n; ++i) { v[i] = any<int>("v"); new (A.at(i)) T(v[i]); if (assign) new (B.at(i)) T(-7); }
  best::ptr<T> src = A.at(0), dst = B.at(0);
  if constexpr (assign) { if (op == COPY) dst.copy_assign(src, n); else if (op == MOVE) dst.move_assign(src, n); else dst.relo_assign(src, n); }
  else { if (op == COPY) dst.copy(src, n); else if (op == MOVE) dst.move(src, n); else dst.relo(src, n); }
  for (size_t i = 0; i < n; ++i) {
    MUST(val(*B.at(i)) == v[i], "each element arrives at its place");
    if (op == COPY) MUST(val(*A.at(i)) == v[i], "copying leaves the source alone");
    if (tracked<T>) MUST(vp_is_live(A.at(i)) == (op != RELO), "only relocation ends the life of the source");
  }
  if (tracked<T>) MUST(vp_live_count() == (op == RELO ? n : 2 * n), "no object is created or destroyed twice");
  (dst).cast(best::types<T>);
  for (size_t i = 0; i < n; ++i) { (dst + i).destroy(); if (op != RELO) (src + i).destroy(); }
  MUST(vp_live_count() == 0 && vp_heap_live() == heap0, "everything is destroyed exactly once");
  if (n) REACH("some"); else REACH("none");
}
#define X(T, t) \
W(copy_##t) { xfer<T, COPY, false>(); } W(move_##t) { xfer<T, MOVE, false>(); } W(relo_##t) { xfer<T, RELO, false>(); } \
W(copya_##t) { xfer<T, COPY, true>(); } W(movea_##t) { xfer<T, MOVE, true>(); }
X(int, int) X(Tracked, tracked) X(Owner, owner)
W(reloa_tracked) { xfer<Tracked, RELO, true>(); }
W(reloa_int) { xfer<int, RELO, true>(); }

// shifting within one buffer
template <class T> static void shift() {
  vp_no_crash(true);
  size_t heap0 = vp_heap_live();
  Raw<T> A;
  size_t s = vp_pick(0, 5), d = vp_pick(0, 5), n = vp_pick(0, 4);
  vp_assume(s + n <= 6 && d + n <= 6);
  int v[4];
  for (size_t i = 0; i < n; ++i) { v[i] = any<int>("v"); new (A.at(s + i)) T(v[i]); }
  best::ptr<T>(A.at(d)).relo_overlapping(A.at(s), n);
  for (size_t i = 0; i < n; ++i) MUST(val(*A.at(d + i)) == v[i], "each element arrives at its place");
  if (tracked<T>) {
    MUST(vp_live_count() == n, "relocation neither creates nor loses objects");
    for (size_t i = 0; i < n; ++i) MUST(vp_is_live(A.at(d + i)), "the destination is live");
  }
  for (size_t i = 0; i < n; ++i) best::ptr<T>(A.at(d + i)).destroy();
  MUST(vp_live_count() == 0 && vp_heap_live() == heap0, "everything is destroyed exactly once");
  if (d > s && d < s + n) REACH("forward"); if (d < s && s < d + n) REACH("backward");
}
W(shift_int) { shift<int>(); }
W(shift_tracked) { shift<Tracked>(); }
W(shift_owner) { shift<Owner>(); }

// copying between overlapping live ranges
template <class T, Op op> static void over() {
  vp_no_crash(true);
  Raw<T> A;
  size_t s = vp_pick(0, 2), d = vp_pick(0, 2), n = vp_pick(0, 3);
  int v[6];
  for (size_t i = 0; i < 6; ++i) { v[i] = any<int>("v"); new (A.at(i)) T(v[i]); }
  if constexpr (op == COPY) best::ptr<T>(A.at(d)).copy_assign_overlapping(best::ptr<T>(A.at(s)), n);
  else best::ptr<T>(A.at(d)).move_assign_overlapping(best::ptr<T>(A.at(s)), n);
  for (size_t i = 0; i < n; ++i) MUST(val(*A.at(d + i)) == v[s + i], "each element arrives at its place");
  if (tracked<T>) MUST(vp_live_count() == 6, "assignment neither creates nor destroys objects");
  for (size_t i = 0; i < 6; ++i) if ((i < d || i >= d + n) && (op == COPY || i < s || i >= s + n)) MUST(val(*A.at(i)) == v[i], "other elements are left alone");
  if (d > s && d < s + n) REACH("forward"); if (d < s && s < d + n) REACH("backward");
}
W(over_copy_int) { over<int, COPY>(); }
W(over_move_int) { over<int, MOVE>(); }
W(over_copy_tracked) { over<Tracked, COPY>(); }
W(over_move_tracked) { over<Tracked, MOVE>(); }

W(construct) {
  vp_no_crash(true);
  Raw<Tracked> A; best::ptr<Tracked> p = A.at(0);
  int x = any<int>("x"), y = any<int>("y");
  p.construct(x); MUST(vp_live_count() == 1 && p->get() == x && (*p).get() == x, "construct makes one object");
  p.assign(Tracked(y)); MUST(vp_live_count() == 1 && p->get() == y, "assign keeps one object");
  p.assign(x); MUST(vp_live_count() == 1 && p->get() == x, "assign keeps one object");
  p.destroy(); MUST(vp_live_count() == 0, "destroy ends the object");
  REACH("done");
}
// A type that can be constructed but not assigned from int: assign must destroy first.
struct NoAssign : Tracked { NoAssign(int v) : Tracked(v) {} NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) = delete; };
W(assign_by_rebuild) {
  vp_no_crash(true);
  Raw<NoAssign> A; best::ptr<NoAssign> p = A.at(0);
  int x = any<int>("x"), y = any<int>("y");
  p.construct(x); p.assign(y);
  MUST(vp_live_count() == 1 && p->get() == y, "assign replaces the object without leaking it");
  p.destroy(); MUST(vp_live_count() == 0, "destroy ends the object"); REACH("done");
}
template <class T> static void array() {
  vp_no_crash(true);
  using A3 = T[3];
  Raw<T> A, B;
  int v[3]; for (int i = 0; i < 3; ++i) { v[i] = any<int>("v"); new (A.at(i)) T(v[i]); }
  best::ptr<A3> a = (A3*)A.at(0), b = (A3*)B.at(0);
  bool how = vp_pick(0, 1);
  if (how) b.copy(a, 1); else b.construct(*(A3*)A.at(0));
  for (int i = 0; i < 3; ++i) MUST(val(*B.at(i)) == v[i] && val(*A.at(i)) == v[i], "arrays copy elementwise");
  if (tracked<T>) MUST(vp_live_count() == 6, "arrays copy elementwise");
  a.destroy(); if (tracked<T>) MUST(vp_live_count() == 3, "destroying an array destroys every element");
  b.destroy(); MUST(vp_live_count() == 0, "destroying an array destroys every element");
  REACH("done");
}
template <class T> static void array_rv() {
  vp_no_crash(true); using A3 = T[3]; Raw<T> A, B; int v[3], w[3]; bool assign = vp_pick(0, 1), mv = vp_pick(0, 1);
  for (int i = 0; i < 3; ++i) { v[i] = any<int>("v"); w[i] = any<int>("w"); new (A.at(i)) T(v[i]); if (assign) new (B.at(i)) T(w[i]); }
  best::ptr<A3> b = (A3*)B.at(0); A3& s = *(A3*)A.at(0);
  if (assign) { if (mv) b.assign(std::move(s)); else b.assign(s); } else { if (mv) b.construct(std::move(s)); else b.construct(s); }
  for (int i = 0; i < 3; ++i) { MUST(val(*B.at(i)) == v[i], "arrays are assigned elementwise"); if (!mv || !tracked<T>) MUST(val(*A.at(i)) == v[i], "the source keeps its elements"); else MUST(val(*A.at(i)) == -1, "elements are moved out of an rvalue"); }
  if (tracked<T>) MUST(vp_live_count() == 6, "arrays are assigned elementwise");
  for (int i = 0; i < 3; ++i) { A.at(i)->~T(); B.at(i)->~T(); } REACH("done");
}
W(array_rv_int) { array_rv<int>(); } W(array_rv_tracked) { array_rv<Tracked>(); }
template <class T> static void slice_from() {
  vp_no_crash(true); Raw<T> A, B; int v[3], w[3]; bool assign = vp_pick(0, 1), list = vp_pick(0, 1); size_t n = vp_pick(0, 3);
  for (size_t i = 0; i < 3; ++i) { v[i] = any<int>("v"); w[i] = any<int>("w"); new (A.at(i)) T(v[i]); if (assign && i < n) new (B.at(i)) T(w[i]); }
  best::ptr<T[]> b(B.at(0), n); best::span<T> s(A.at(0), n);
  if (assign) b.assign(s); else b.construct(s);
  for (size_t i = 0; i < n; ++i) MUST(val(*B.at(i)) == v[i] && val(*A.at(i)) == v[i], "a slice takes the elements of the span");
  if (tracked<T>) MUST(vp_live_count() == 3 + n, "a slice takes the elements of the span");
  for (size_t i = 0; i < 3; ++i) { A.at(i)->~T(); if (i < n) B.at(i)->~T(); } REACH("done"); (void)list;
}
W(slice_from_int) { slice_from<int>(); } W(slice_from_tracked) { slice_from<Tracked>(); }
W(array_int) { array<int>(); }
W(array_tracked) { array<Tracked>(); }
template <class T> static void slice() {
  vp_no_crash(true);
  Raw<T> A, B; size_t n = vp_pick(0, 3);
  int v[3]; for (size_t i = 0; i < n; ++i) { v[i] = any<int>("v"); new (A.at(i)) T(v[i]); }
  best::ptr<T[]> a(best::ptr<T>(A.at(0)), n), b(best::ptr<T>(B.at(0)), n);
  MUST(a.layout().size() == n * sizeof(T) && a.meta() == n && (*a).size() == n, "an unbounded array pointer covers its length");
  switch (vp_pick(0, 2)) { case 0: b.copy(a); break; case 1: { auto r = b.try_copy(a); MUST(r.raw() == b.raw() && r.meta() == n, "try_copy returns the copy"); break; } default: b.construct(*a); }
  for (size_t i = 0; i < n; ++i) MUST(val(*B.at(i)) == v[i] && val(*A.at(i)) == v[i], "arrays copy elementwise");
  a.destroy(); if (tracked<T>) MUST(vp_live_count() == n, "destroying an array destroys every element");
  b.destroy(); MUST(vp_live_count() == 0, "destroying an array destroys every element");
  REACH("done");
}
W(slice_int) { slice<int>(); }
W(slice_tracked) { slice<Tracked>(); }

W(refs) {
  vp_no_crash(true);
  int x = any<int>("x"), y = any<int>("y");
  int *slot[3] = {};
  best::ptr<int&> p = slot;
  p.construct(x); MUST(slot[0] == &x && &*p == &x && p.get() == &x, "a reference cell stores the address");
  p.assign(y); MUST(slot[0] == &y && x == x, "assigning a reference cell rebinds it");
  p.destroy(); REACH("done");
}
struct Base { int a; }; struct Mid { int m; }; struct Der : Base, Mid { int d; };
W(arith) {
  vp_no_crash(true);
  int arr[6]; size_t i = vp_pick(0, 5), j = vp_pick(0, 5);
  best::ptr<int> p = arr;
  MUST((p + i).raw() == arr + i && p.offset(i).raw() == arr + i && ((p + i) - (p + j)) == (ptrdiff_t)i - (ptrdiff_t)j && ((p + 5) - (5 - j)).raw() == arr + j, "pointer arithmetic counts elements");
  MUST(((p + i) == (p + j)) == (i == j) && ((p + i) < (p + j)) == (i < j) && ((p + i) <=> (p + j)) == (i <=> j), "pointers order by address");
  MUST(p != nullptr && best::ptr<int>() == nullptr && best::ptr<int>(nullptr) == nullptr, "null compares equal to null only");
  auto q = p; q += i; auto r = q++; MUST(r.raw() == arr + i && q.raw() == arr + i + 1, "post-increment");
  auto u = q--; MUST(u.raw() == arr + i + 1 && q.raw() == arr + i, "post-decrement");
  MUST((++q).raw() == arr + i + 1 && (--q).raw() == arr + i && (q -= i).raw() == arr, "pre-increment");
  MUST((p + i).byte_offset_from(p + j) == 4 * ((ptrdiff_t)i - (ptrdiff_t)j), "byte offsets");
  MUST(p.cast(best::types<char>).offset(i * 4).raw() == (char*)(arr + i) && best::ptr<int>::from_addr((p + i).to_addr()).raw() == arr + i, "casts keep the address");
  REACH("done");
}
W(upcast) {
  vp_no_crash(true);
  Der d; best::ptr<Der> p = &d; best::ptr<Mid> m = p; best::ptr<Base> b = p; best::ptr<const Der> c = p;
  MUST(m.raw() == static_cast<Mid*>(&d) && b.raw() == static_cast<Base*>(&d) && c.raw() == &d && p.as_const().raw() == &d, "upcasts adjust the address");
  REACH("done");
}
W(fill) {
  vp_no_crash(true);
  uint32_t arr[4] = {7, 7, 7, 7}; uint8_t b = any<uint8_t>("b"); size_t n = vp_pick(0, 3);
  best::ptr<uint32_t>(arr).fill(b, n);
  for (size_t i = 0; i < 4; ++i) MUST(arr[i] == (i < n ? b * 0x01010101u : 7u), "fill sets exactly the bytes of count objects");
  REACH("done");
}
CONTROL(relo) {
  Raw<Tracked> A, B; new (A.at(0)) Tracked(1);
  best::ptr<Tracked>(B.at(0)).move(best::ptr<Tracked>(A.at(0)), 1);
  MUST(vp_live_count() == 1, "control");
}
