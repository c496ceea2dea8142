// X01: a box owns one value in one block; the value lives exactly as long as a box owns it.
#include "optsup.h"
using best::box;
template <class T> using Bx = box<T, Arena>;
template <class T> static Bx<T> mk(int id, int v) { return Bx<T>(Arena{id}, best::in_place, v); }
template <class B> static void is(const B& b, int id, int v) { MUST(val(*b) == v && val(*b.operator->()) == v && val(*b.raw()) == v && b.as_ptr().raw() == b.raw(), "the box holds the value put in"); MUST(b.allocator().id == id, "the box keeps its allocator"); REACH("checked"); }
template <class T> static void one() { clean([] {
  int ia = 1, ib = vp_pick(1, 2), x = any<int>("x"), y = any<int>("y");
  Bx<T> a = mk<T>(ia, x), b = mk<T>(ib, y); is(a, ia, x); auto* pa = a.raw(); auto* pb = b.raw();
  switch (vp_pick(0, 12)) {
    case 0: { Bx<T> c(a); is(c, ia, x); MUST(c.raw() != pa, "a copy has its own block"); break; }
    case 1: { Bx<T> c(std::move(a)); is(c, ia, x); MUST(c.raw() == pa, "moving does not move the value"); return; }
    case 2: a = b; MUST(val(*a) == y, "a copy holds the same value"); is(b, ib, y); return;
    case 3: a = std::move(b); is(a, ib, y); MUST(a.raw() == pb, "moving does not move the value"); return;
    case 4: { auto& s = a; a = s; break; }
    case 5: { auto& s = a; a = std::move(s); MUST(a.raw() == pa, "self-move is a no-op"); break; }
    case 6: { Bx<T> c(std::move(a)); a = b; MUST(val(*a) == y, "a moved-from box can be assigned to"); is(c, ia, x); is(b, ib, y); return; }
    case 7: { Bx<T> c(std::move(a)); a = std::move(b); is(a, ib, y); is(c, ia, x); return; }
    case 8: { auto p = std::move(a).leak(); MUST(p.raw() == pa && val(*p) == x, "leak gives up the block"); Bx<T> c(best::unsafe("t"), Arena{ia}, p); is(c, ia, x); return; }
    case 9: { auto r = std::move(a).into_raw(); MUST(r.first().raw() == pa && r[best::index_t<1>{}].id == ia, "into_raw gives up the block and its allocator"); Bx<T> c(best::unsafe("t"), r[best::index_t<1>{}], r.first()); is(c, ia, x); return; }
    case 10: { auto c = a.try_copy(); MUST(c.has_value(), "a copyable value can be copied"); is(*c, ia, x); break; }
    case 11: { Bx<T> t(std::move(a)); a = std::move(b); b = std::move(t); is(a, ib, y); is(b, ia, x); return; }
    default: { *a = T(y); MUST(a.raw() == pa && val(*a) == y, "the box gives access to the value"); is(b, ib, y); return; }
  }
  is(a, ia, x); is(b, ib, y);
}); }
W(one_int) { one<int>(); } W(one_tracked) { one<Tracked>(); } W(one_owner) { one<Owner>(); }
// Arrays.
template <class T> static Bx<T[]> mka(int id, size_t n, const int* v) {
  switch (n) { case 0: return Bx<T[]>(Arena{id}, best::in_place); case 1: return Bx<T[]>(Arena{id}, best::in_place, best::span<const T>({T(v[0])}));
    case 2: return Bx<T[]>(Arena{id}, best::in_place, best::span<const T>({T(v[0]), T(v[1])})); default: return Bx<T[]>(Arena{id}, best::in_place, best::span<const T>({T(v[0]), T(v[1]), T(v[2])})); }
}
template <class B> static void isa(const B& b, int id, size_t n, const int* v) {
  MUST(b->size() == n && b.meta() == n, "the box holds the elements put in"); for (size_t i = 0; i < n; ++i) MUST(val(b[i]) == v[i] && val((*b)[i]) == v[i], "the box holds the elements put in");
  MUST(b.allocator().id == id && b.layout().size() == n * sizeof(b[0]), "the box keeps its allocator and layout"); REACH("checked");
}
template <class T> static void arr() { clean([] {
  int ia = 1, ib = vp_pick(1, 2), x[3], y[3]; size_t n = vp_pick(0, 3), m = vp_pick(0, 3);
  for (size_t i = 0; i < 3; ++i) x[i] = any<int>("x"), y[i] = any<int>("y");
  auto a = mka<T>(ia, n, x), b = mka<T>(ib, m, y); isa(a, ia, n, x);
  switch (vp_pick(0, 7)) {
    case 0: { Bx<T[]> c(a); isa(c, ia, n, x); MUST(c.raw() != a.raw(), "a copy has its own block"); break; }
    case 1: { auto* p = a.raw(); Bx<T[]> c(std::move(a)); isa(c, ia, n, x); MUST(c.raw() == p, "moving does not move the value"); return; }
    case 2: a = b; isa(a, a.allocator().id, m, y); isa(b, ib, m, y); return;
    case 3: a = std::move(b); isa(a, ib, m, y); return;
    case 4: { auto& s = a; a = s; break; }
    case 5: { Bx<T[]> c(std::move(a)); a = b; isa(a, a.allocator().id, m, y); isa(c, ia, n, x); return; }
    case 6: { auto c = a.try_copy(); MUST(c.has_value(), "a copyable value can be copied"); isa(*c, ia, n, x); break; }
    default: { auto p = std::move(a).leak(); MUST(p->size() == n, "leak keeps the length"); Bx<T[]> c(best::unsafe("t"), Arena{ia}, p); isa(c, ia, n, x); return; }
  }
  isa(a, ia, n, x); isa(b, ib, m, y);
}); }
W(arr_int) { arr<int>(); } W(arr_tracked) { arr<Tracked>(); } W(arr_owner) { arr<Owner>(); }
template <class T> static void compare() { clean([] { int x = any<int>("x"), y = any<int>("y"); box<T> a(x), b(y); MUST((a == b) == (x == y) && (a < b) == (x < y) && (a == T(y)) == (x == y), "boxes compare by value"); REACH("done"); }); }
W(compare_int) { compare<int>(); } W(compare_nich) { compare<Nich>(); }
W(thin) { clean([] { int x = any<int>("x"); box<int> a(x); best::option<box<int>> o; MUST(!o, "empty"); o = a; MUST(**o == x && o->raw() != a.raw(), "copy into option"); o = best::none; MUST(!o, "reset"); o.emplace(std::move(a)); MUST(**o == x, "move into option"); auto q = o; MUST(**q == x && q->raw() != o->raw(), "copy"); REACH("done"); }); }
W(conv) { clean([] { int x = any<int>("x"); box<int> a(x); box<int[]> c(std::move(a)); MUST(c->size() == 1 && c[0] == x, "converting keeps the value"); REACH("done"); }); }
CONTROL(v) { clean([] { Bx<Tracked> a = mk<Tracked>(1, any<int>("x")); is(a, 1, 5); }); }
