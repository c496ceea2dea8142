// A01: the global allocator hands out aligned, disjoint blocks, keeps their contents, and polices their layout;
// layouts are those the language gives the same members.
#include "vecsup.h"
#include "best/memory/allocator.h"
#include "best/memory/layout.h"
using best::malloc; using best::layout;
static layout lay() { size_t a = size_t(1) << vp_pick(0, 6), s = a * vp_pick(0, a == 1 ? 7 : 2); return layout(best::unsafe("t"), s, a); }
static void fill(best::ptr<void> p, size_t n, uint8_t* keep) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p.raw())[i] = keep[i] = any<uint8_t>("b"); }
static void same(best::ptr<void> p, size_t n, const uint8_t* keep) { for (size_t i = 0; i < n; ++i) MUST(((uint8_t*)p.raw())[i] == keep[i], "a block keeps its contents"); }
static bool aligned(best::ptr<void> p, layout l) { return (uintptr_t)p.raw() % l.align() == 0; }
W(alloc) {
  vp_no_crash(true); size_t h = vp_heap_live(); best::malloc m; uint8_t k[128], j[128];
  layout l = lay(); auto p = m.alloc(l); MUST(p.raw() != nullptr && aligned(p, l), "a block is aligned"); fill(p, l.size(), k);
  auto q = m.alloc(l); MUST(q.raw() != p.raw(), "blocks are distinct"); fill(q, l.size(), j); same(p, l.size(), k);
  m.dealloc(p, l); same(q, l.size(), j); m.dealloc(q, l); MUST(vp_heap_live() == h, "returned blocks are released"); REACH("done");
}
W(zalloc) {
  vp_no_crash(true); size_t h = vp_heap_live(); best::malloc m; layout l = lay(); auto p = m.zalloc(l); MUST(aligned(p, l), "a block is aligned");
  for (size_t i = 0; i < l.size(); ++i) MUST(((uint8_t*)p.raw())[i] == 0, "zalloc zeroes the block");
  uint8_t k[128]; fill(p, l.size(), k); same(p, l.size(), k); m.dealloc(p, l); MUST(vp_heap_live() == h, "returned blocks are released"); REACH("done");
}
static void re(bool zero) {
  vp_no_crash(true); size_t h = vp_heap_live(); best::malloc m; layout l = lay(), n = lay(); auto p = zero ? m.zalloc(l) : m.alloc(l); uint8_t k[128]; fill(p, l.size(), k);
  auto q = m.realloc(p, l, n); MUST(aligned(q, n), "a reallocated block is aligned"); same(q, l.size() < n.size() ? l.size() : n.size(), k);
  fill(q, n.size(), k); same(q, n.size(), k); auto r = m.realloc(q, n, l); same(r, l.size() < n.size() ? l.size() : n.size(), k);
  m.dealloc(r, l); MUST(vp_heap_live() == h, "returned blocks are released"); if (n.size() > l.size()) REACH("grow"); else REACH("shrink");
}
W(realloc) { re(false); } W(realloc_zeroed) { re(true); }
static layout small() { return layout(best::unsafe("t"), 32, size_t(1) << vp_pick(0, 4)); }
W(wrong_dealloc) { best::malloc m; layout l = small(); auto p = m.alloc(l); for (int i = 0; i < 32; ++i) ((char*)p.raw())[i] = 0; m.dealloc(p, layout(best::unsafe("t"), 16, l.align())); vp_violation("a block is accepted back with the wrong layout"); }
W(wrong_realloc) { best::malloc m; layout l = small(); auto p = m.zalloc(l); m.realloc(p, layout(best::unsafe("t"), 48, l.align()), l); vp_violation("a block is accepted back with the wrong layout"); }
W(wrong_align) { best::malloc m; layout l = small(); auto p = m.zalloc(l); m.dealloc(p, layout(best::unsafe("t"), 32, l.align() == 1 ? 2 : l.align() / 2)); vp_violation("a block is accepted back with the wrong layout"); }
W(null) { best::malloc m; layout l = lay(); if (vp_pick(0, 1)) m.dealloc(nullptr, l); else m.realloc(nullptr, l, lay()); vp_violation("a null pointer is accepted"); }
W(dangling) { best::malloc m; layout l = lay(); uintptr_t a = any<uintptr_t>("a"); vp_assume(a < 0x1000); best::ptr<void> p((void*)a); if (vp_pick(0, 1)) m.dealloc(p, l); else m.realloc(p, l, lay()); vp_violation("a dangling pointer is accepted"); }
// Layouts.
template <class... T> struct St;
template <class A> struct St<A> { A a; }; template <class A, class B> struct St<A, B> { A a; B b; }; template <class A, class B, class C> struct St<A, B, C> { A a; B b; C c; };
template <class A, class B, class C, class D> struct St<A, B, C, D> { A a; B b; C c; D d; };
template <class... T> union Un;
template <class A> union Un<A> { A a; }; template <class A, class B> union Un<A, B> { A a; B b; }; template <class A, class B, class C> union Un<A, B, C> { A a; B b; C c; };
template <class A, class B, class C, class D> union Un<A, B, C, D> { A a; B b; C c; D d; };
template <class... T> static void lay1() {
  auto s = layout::of_struct<T...>(), u = layout::of_union<T...>();
  MUST(s.size() == sizeof(St<T...>) && s.align() == alignof(St<T...>), "a struct's layout is the language's");
  MUST(u.size() == sizeof(Un<T...>) && u.align() == alignof(Un<T...>), "a union's layout is the language's");
}
struct O3 { char c[3]; }; struct alignas(32) A32 { char c; };
template <class A, class B> static void lay2() { lay1<A>(); lay1<A, B>(); lay1<A, B, char>(); lay1<A, char, B>(); lay1<A, char, B, short>(); lay1<char, A, O3, B>(); }
template <class A> static void lay3() { lay2<A, char>(); lay2<A, short>(); lay2<A, int>(); lay2<A, long>(); lay2<A, O3>(); lay2<A, A32>(); lay2<A, void*>();
  MUST(layout::of<A>().size() == sizeof(A) && layout::of<A>().align() == alignof(A) && best::size_of<A> == sizeof(A) && best::align_of<A> == alignof(A), "a type's layout is the language's");
  MUST(layout::of<A[5]>().size() == sizeof(A[5]) && layout::of<A&>().size() == sizeof(A*), "a type's layout is the language's"); }
W(layouts) { vp_no_crash(true); lay3<char>(); lay3<short>(); lay3<int>(); lay3<long>(); lay3<O3>(); lay3<A32>(); lay3<void*>(); MUST(layout::of_struct<>().size() == 1 && layout::of_union<>().size() == 1 && layout::of_struct<>().align() == 1, "the empty layout has one byte"); REACH("done"); }
template <class T> static void arr() { size_t n = any<size_t>("n"); vp_assume(n <= (SIZE_MAX / 2) / sizeof(T)); vp_no_crash(true); auto l = layout::array<T>(n); MUST(l.size() == n * sizeof(T) && l.align() == alignof(T), "an array's layout is the language's"); REACH("done"); }
template <class T> static void big() { size_t n = any<size_t>("n"); vp_assume(n > (SIZE_MAX / 2) / sizeof(T)); (void)layout::array<T>(n); vp_violation("an array of more than half the address space is accepted"); }
W(array_int) { arr<int>(); } W(array_o3) { arr<O3>(); } W(array_a32) { arr<A32>(); } W(array_char) { arr<char>(); }
W(big_int) { big<int>(); } W(big_o3) { big<O3>(); } W(big_char) { big<char>(); }
W(fits) { size_t a = any<size_t>("a"), b = any<size_t>("b"); size_t x = size_t(1) << vp_pick(0, 4), y = size_t(1) << vp_pick(0, 4); MUST(layout(best::unsafe("t"), a, x).fits_in(layout(best::unsafe("t"), b, y)) == (a <= b && x <= y), "fits_in"); REACH("done"); }
CONTROL(v) { best::malloc m; layout l = small(); auto p = m.alloc(l); MUST(((char*)p.raw())[0] == 0, "control"); }
