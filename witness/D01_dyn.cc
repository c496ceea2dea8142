// D01: a dyn behaves as the object it was made from, and so does a dynbox with its copies.
#include "vecsup.h"
#include "best/container/option.h"
#include "best/func/dyn.h"
#include "best/memory/ptr.h"
static int last_fn, last_arg;  // which implementation ran
class Cell : public best::interface_base<Cell> {
 public:
  BEST_INTERFACE(Cell, (int, get, (), const), (void, set, (int x)), (void, reset, ()), (int, sum, (int a, int& b), const), (int&, at, ()));
 private:
  void reset(best::defaulted) { last_fn = 99; set(0); }
};
class Name : public best::interface_base<Name> {
 public:
  BEST_INTERFACE(Name, (int, id, (), const));
};
// Implements both by members, with a default and with none.
template <int N, bool owns> struct Impl {
  std::conditional_t<owns, Owner, Tracked> t; int pad[N] = {};
  Impl(int v) : t(v) {}
  int get() const { last_fn = N; return t.get() ^ N; }
  void set(int x) { last_fn = N + 10; t = decltype(t)(x); pad[0] = x; }
  int sum(int a, int& b) const { last_fn = N + 20; b = a ^ t.get(); return a ^ N; }
  int& at() { last_fn = N + 30; return pad[0]; }
  int id() const { return N + 100; }
};
struct Own : Impl<3, true> { using Impl::Impl; void reset() { last_fn = 33; pad[0] = 7; } };
// Implements by overload; the vtable is written by hand.
constexpr best::vtable<Cell> BestImplements(int*, Cell*) {
  return {.get = [](const int& s) { last_fn = 4; return s ^ 4; }, .set = [](int& s, int x) { last_fn = 14; s = x; }, .sum = [](const int& s, int a, int& b) { last_fn = 24; b = a ^ s; return a ^ 4; }, .at = [](int& s) -> int& { last_fn = 34; return s; }};
}
constexpr best::vtable<Name> BestImplements(int*, Name*) { return {.id = [](const int&) { return 104; }}; }
// A move-only implementation.
struct Fixed { Owner t; int pad[1]; Fixed(int v) : t(v) {} Fixed(Fixed&&) = default; int get() const { last_fn = 1; return t.get() ^ 1; } void set(int x) { last_fn = 11; t = Owner(x); } int sum(int a, int& b) const { last_fn = 21; b = a ^ t.get(); return a ^ 1; } int& at() { last_fn = 31; return pad[0]; } int id() const { return 101; } };
using A1 = Impl<1, false>; using A2 = Impl<2, true>; using A3 = Own; using A4 = int; using A5 = Fixed;
template <class T> constexpr int tag = std::is_same_v<T, A1> ? 1 : std::is_same_v<T, A2> ? 2 : std::is_same_v<T, A3> ? 3 : std::is_same_v<T, int> ? 4 : 1;
template <class T> static int raw(const T& t) { if constexpr (std::is_same_v<T, int>) return t; else return t.t.get(); }
// Exercise p, which denotes o, a T holding v.
template <class T, class P> static void use(P p, T& o, int v) {
  constexpr int N = tag<T>; MUST(p()->get() == (v ^ N) && last_fn == N, "a call runs the implementation of the type it was made from");
  int a = any<int>("a"), b = 0; MUST(p()->sum(a, b) == (a ^ N) && b == (a ^ v) && last_fn == N + 20, "arguments and results are passed on");
  int w = any<int>("w"); p()->set(w); MUST(last_fn == N + 10 && raw(o) == w, "a call works on the object itself"); int& r = p()->at(); MUST(last_fn == N + 30, "a call runs the implementation of the type it was made from");
  if constexpr (std::is_same_v<T, int>) MUST(&r == &o, "references are passed on"); else MUST(&r == &o.pad[0], "references are passed on");
  p()->reset(); if constexpr (std::is_same_v<T, A3>) MUST(last_fn == 33 && raw(o) == w && o.pad[0] == 7, "an implementation is preferred to the default"); else MUST(last_fn == N + 10 && raw(o) == 0, "the default runs on the same object");
  REACH("used");
}
#define L(e) [&]() -> decltype(auto) { return (e); }
#define END() MUST(vp_live_count() == 0 && vp_heap_live() == 0, "every object is destroyed exactly once")
template <class T> static void ptrs() {
  vp_no_crash(true); { int v = any<int>("v"); T o(v); best::dynptr<Cell> p = &o; MUST(p.raw() == &o && p != nullptr && p.layout() == best::layout::of<T>(), "a dynptr denotes its object"); size_t how = vp_pick(0, 5);
    if (how == 0) use<T>(L(p), o, v); if (how == 1) use<T>(L(Cell::of(o)), o, v); if (how == 2) use<T>(L(Cell::of(&o)), o, v); if (how == 3) use<T>(L(Cell::of(p)), o, v); if (how == 4) use<T>(L(best::as_dyn<Cell>(o)), o, v);
    if (how == 5) { T o2(any<int>("v2")); best::dynptr<Cell> q = &o2; best::dynptr<Cell> r = p; p = q; MUST(p.raw() == &o2 && r.raw() == &o, "assigning a dynptr rebinds it"); use<T>(L(r), o, v); p = &o; }
    best::dynptr<const Cell> c = p; MUST(c->get() == p->get(), "a pointer to const denotes the same object"); if constexpr (!std::is_same_v<T, int>) { const T& k = o; best::dynptr<const Name> d = &k; MUST(d.raw() == &o && d->id() == tag<T> + 100, "a pointer to const denotes the same object"); MUST(Name::of(k)->id() == d->id(), "a pointer to const denotes the same object"); } REACH("done"); } END();
}
template <class T> static void both() {
  vp_no_crash(true); { int v = any<int>("v"); T o(v); best::dynptr<Cell, Name> p = &o; best::dynptr<Name, Cell> q = &o; MUST(p[best::types<Name>]->id() == tag<T> + 100 && q[best::types<Name>]->id() == tag<T> + 100 && Name::of(p)->id() == tag<T> + 100, "each interface is found by its type"); size_t how = vp_pick(0, 2); if (how == 0) use<T>(L(p[best::types<Cell>]), o, v); if (how == 1) use<T>(L(q[best::types<Cell>]), o, v); if (how == 2) use<T>(L(Cell::of(p)), o, v); REACH("done"); } END();
}
template <class T, class U> static void boxes() {
  vp_no_crash(true); { int v = any<int>("v"), w = any<int>("w"); T& o = *new (malloc(sizeof(T))) T(v); { T t(v); (void)t; } o.~T(); free(&o); best::dynbox<Cell> b = best::box(T(v)); MUST(b->get() == (v ^ tag<T>), "a dynbox holds what was put in"); size_t how = vp_pick(0, 4);
    if (how == 0) use<T>(L(b), *(T*)b.as_ptr().raw(), v);
    if (how == 1) { b = best::box(U(w)); MUST(b->get() == (w ^ tag<U>) && last_fn == tag<U>, "assigning a dynbox replaces what it holds"); use<U>(L(b), *(U*)b.as_ptr().raw(), w); }
    if (how == 2) { best::dynbox<Cell> c = std::move(b); MUST(c->get() == (v ^ tag<T>), "a moved dynbox holds the same object"); b = best::box(U(w)); MUST(b->get() == (w ^ tag<U>), "a moved-from dynbox can be assigned"); }
    if (how == 3) { best::dynbox<Cell> c = best::box(U(w)); c = std::move(b); MUST(c->get() == (v ^ tag<T>) && last_fn == tag<T>, "assigning a dynbox replaces what it holds"); }
    if (how == 4) { best::dynptr<Cell> p = b; MUST(p->get() == (v ^ tag<T>), "a pointer to a dynbox denotes its contents"); MUST(Cell::of(b)->get() == (v ^ tag<T>), "a dynbox implements its interface"); }
    REACH("done"); } END();
}
template <class T> static void copies() {
  vp_no_crash(true); { int v = any<int>("v"), w = any<int>("w"); best::dynbox<Cell> b = best::box(T(v)); auto c = b.try_copy(); MUST(c.has_value() == best::copyable<T>, "try_copy() succeeds exactly for copyable types"); if (c) { MUST((*c)->get() == (v ^ tag<T>) && (*c).as_ptr().raw() != b.as_ptr().raw(), "a copy holds an equal object"); (*c)->set(w); MUST(b->get() == (v ^ tag<T>) && (*c)->get() == (w ^ tag<T>), "a copy is independent"); REACH("copied"); } else REACH("not copied"); } END();
}
using IT = best::itable<Cell, Name>;
template <class T> static void tables() {
  vp_no_crash(true); { const auto& t = IT::of(best::types<T>); MUST(t.layout() == best::layout::of<T>() && t.can_copy() == best::copyable<T>, "an itable describes its type"); MUST(&t == &IT::of(best::types<T>), "there is one itable per type"); alignas(T) char m[sizeof(T)]; int v = any<int>("v"); T o(v); MUST((t[best::types<Cell>].get(&o) == (v ^ tag<T>) && t[best::types<Name>].id(&o) == tag<T> + 100), "each interface is found by its type"); if constexpr (best::copyable<T>) { t.copy(m, &o); MUST(raw(*(T*)m) == v, "copy() runs the copy constructor"); t.destroy(m); } REACH("done"); } END();
}
template <class T> static void arena() {
  vp_no_crash(true); { int v = any<int>("v"), w = any<int>("w"), id = any<int>("id"); using B = best::box<best::dyn<Cell>, Arena>; B b(Arena{id}, best::in_place, T(v)); MUST(b->get() == (v ^ tag<T>) && b.layout() == best::layout::of<T>() && b.allocator().id == id, "a dynbox holds what was put in"); size_t how = vp_pick(0, 2);
    if (how == 1) { B c(Arena{w}, best::in_place, A2(w)); c = std::move(b); MUST(c->get() == (v ^ tag<T>) && c.allocator().id == id, "assigning a dynbox replaces what it holds"); }
    if (how == 2) { auto c = b.try_copy(); MUST(c.has_value() == best::copyable<T>, "try_copy() succeeds exactly for copyable types"); if (c) MUST((*c)->get() == (v ^ tag<T>) && (*c).allocator().id == id, "a copy holds an equal object"); } REACH("done"); } END();
}
// Wrappers of function pointers.
static int plus(void* p, int x) { return *(int*)p ^ x; }
W(binder) { vp_no_crash(true); int s = any<int>("s"), x = any<int>("x"); best::vtable_binder<int(int)> f = plus; best::vtable_binder<int(int)> g = [](int& s, int x) { return s ^ x; }; best::vtable_binder<int(int) const> h = [](const int& s, int x) { return s ^ x; }; best::vtable_binder<int(int)> n, z = nullptr; MUST(f(&s, x) == (s ^ x) && g(&s, x) == (s ^ x) && h(&s, x) == (s ^ x), "a binder calls its function"); MUST(f && f != nullptr && !n && n == nullptr && !z && z == nullptr, "a binder is null exactly if it has no function"); n = f; MUST(n && n(&s, x) == (s ^ x), "a binder calls its function"); auto p = (int (*)(void*, int))f; MUST(p == plus, "a binder is its function"); REACH("done"); }
#define T5(f) W(f##_1) { f<A1>(); } W(f##_2) { f<A2>(); } W(f##_3) { f<A3>(); } W(f##_4) { f<A4>(); } W(f##_5) { f<A5>(); }
T5(arena) T5(ptrs) T5(both) T5(copies) T5(tables)
W(boxes_12) { boxes<A1, A2>(); } W(boxes_23) { boxes<A2, A3>(); } W(boxes_34) { boxes<A3, A4>(); } W(boxes_45) { boxes<A4, A5>(); } W(boxes_51) { boxes<A5, A1>(); }
CONTROL(copies) { copies<A1>(); best::dynbox<Cell> b = best::box(A1(1)); MUST(!b.try_copy().has_value(), "control"); }
