// R02: rows keep their elements; every operation puts each element where it says.
#include "vecsup.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/row.h"
using best::bounds; using best::row; using best::vals; using best::types; using best::bind;
struct Empty { };
static int val(const Empty&) { return 0; }
static int val(const best::empty&) { return 0; }
// Move-only elements: whatever comes out of an rvalue is moved, not copied.
struct Mov : Owner { using Owner::Owner; Mov(Mov&&) = default; Mov& operator=(Mov&&) = default; };
static int val(const Mov& m) { return m.get(); }
template <class T> struct V { int v = elem<T>("v"); operator T() const { return T(v); } };
#define EQ(r, ...) eq((r), std::initializer_list<int>{__VA_ARGS__})
template <class R> static void eq(const R& r, std::initializer_list<int> w) {
  MUST(R::size() == w.size() && R::is_empty() == (w.size() == 0), "the row has as many elements as it should");
  size_t i = 0; const int* p = w.begin(); r.each([&](const auto& x) { MUST(val(x) == p[i], "each element is where it should be"); ++i; }); MUST(i == w.size(), "each() visits every element");
}
#define END() MUST(vp_live_count() == 0 && vp_heap_live() == 0, "every element is destroyed exactly once")
// Construction, access in every form, copies and moves.
template <class A, class B, class C> static void make() {
  vp_no_crash(true); { int a = elem<A>("a"), b = elem<B>("b"), c = elem<C>("c"); row<A, B, C> r(a, b, c); EQ(r, a, b, c);
    MUST(val(r[best::index<0>]) == a && val(r[best::index<1>]) == b && val(r[best::index<2>]) == c, "indexing yields the element");
    MUST(&r[best::index<0>] == &r.at(best::index<0>) && &r[best::index<1>] == &r.template at<1>() && &r[best::index<2>] == &r.template get<2>(), "every accessor yields the same object");
    MUST(&r.first() == &r[best::index<0>] && &r.second() == &r[best::index<1>] && &r.last() == &r[best::index<2>], "first(), second() and last()"); MUST(r.object(best::index<1>).as_ptr() == &r[best::index<1>] , "object()");
    const auto& k = r; MUST(&k[best::index<1>] == &r[best::index<1>] && &k.first() == &r.first() && &k.last() == &r.last() && best::addr(std::move(r)[best::index<1>]) == &k[best::index<1>], "const access yields the same object");
    auto& [x, y, z] = r; MUST(&x == &r[best::index<0>] && &y == &r[best::index<1>] && &z == &r[best::index<2>], "structured bindings name the elements");
    size_t n = r.apply([&](A& p, B& q, C& s) { MUST(&p == &r[best::index<0>] && &q == &r[best::index<1>] && &s == &r[best::index<2>], "apply() passes the elements in order"); return 7; }); MUST(n == 7, "apply() returns what the callback does");
    auto f = r.as_ref(); MUST(&f[best::index<0>] == &r[best::index<0>] && &f[best::index<2>] == &r[best::index<2>], "as_ref() refers to the elements");
    row<A, B, C> s(r); EQ(s, a, b, c); EQ(r, a, b, c); row<A, B, C> t(std::move(s)); EQ(t, a, b, c);
    int a2 = elem<A>("a2"), b2 = elem<B>("b2"), c2 = elem<C>("c2"); row<A, B, C> u(a2, b2, c2); t = u; EQ(t, a2, b2, c2); EQ(u, a2, b2, c2); r = std::move(u); EQ(r, a2, b2, c2); REACH("done"); } END();
}
template <class A, class B> static void make2() {
  vp_no_crash(true); { int a = elem<A>("a"), b = elem<B>("b"); row<A, B> r(a, b); EQ(r, a, b); MUST(&r.first() == &r[best::index<0>] && &r.second() == &r[best::index<1>] && &r.last() == &r[best::index<1>], "first(), second() and last()"); row<A, B> s(r); EQ(s, a, b); row<A, B> t(std::move(s)); EQ(t, a, b); s = t; EQ(s, a, b); EQ(r, a, b); r = std::move(t); EQ(r, a, b); auto& [x, y] = r; MUST(&x == &r.first() && &y == &r.second(), "structured bindings name the elements");
    row<A> o(a); EQ(o, a); row<A> p(std::move(o)); EQ(p, a); MUST(&p.first() == &p.last(), "one element"); row<> e; EQ(e); REACH("done"); } END();
}
// References rebind on assignment; void and empty elements take up no value.
W(refs) { vp_no_crash(true); int x = any<int>("x"), y = any<int>("y"), x0 = x, y0 = y; row<int&, const int&, int> r(bind, x, y, 5), s(bind, y, x, 6); MUST(&r[best::index<0>] == &x && &r[best::index<1>] == &y && r[best::index<2>] == 5, "a row of references refers to what it was given"); r = s; MUST(&r[best::index<0>] == &y && &r[best::index<1>] == &x && r[best::index<2>] == 6, "assigning a row rebinds its references"); MUST(x == x0 && y == y0, "assigning a row does not assign through its references"); row b(bind, x, y); static_assert(best::same<decltype(b), row<int&, int&>>); MUST(&b.first() == &x && &b.second() == &y, "bind makes references"); b.first() = 3; MUST(x == 3, "a reference can be written through"); row v(x, y); x = 9; MUST(v.first() == 3, "a row of values is independent"); REACH("done"); }
W(voids) { vp_no_crash(true); int a = any<int>("a"), b = any<int>("b"); row<int, void, int, Empty> r(a, best::empty(), b, Empty()); EQ(r, a, 0, b, 0); auto q = r; EQ(q, a, 0, b, 0); MUST(q[best::index<0>] == a && q[best::index<2>] == b, "elements around a void"); MUST((void*)&q[best::index<0>] != (void*)&q[best::index<2>], "elements have their own places"); size_t n = r.apply([&](int& p, auto&&, int& s, Empty&) { return &p == &r[best::index<0>] && &s == &r[best::index<2>]; }); MUST(n == 1, "apply() with void elements"); row<> e; MUST(e == e && e.size() == 0, "the empty row"); row<void> w; MUST(w == w, "the row of void"); REACH("done"); }
// Comparison.
template <class A, class B> struct P { A a; B b; };
template <class X, class Y, class Z> static void cmp() {
  vp_no_crash(true); X a = any<X>("a"), d = any<X>("d"); Y b = any<Y>("b"), e = any<Y>("e"); Z c = any<Z>("c"), f = any<Z>("f"); row<X, Y, Z> r(a, b, c), s(d, e, f);
  bool q = a == d && b == e && c == f; MUST((r == s) == q && (r != s) == !q && r == r, "rows are equal exactly if all elements are"); auto o = a != d ? a <=> d : b != e ? b <=> e : c <=> f;
  MUST((r <=> s) == o && (r < s) == (o < 0) && (r > s) == (o > 0) && (r <= s) == (o <= 0) && (r >= s) == (o >= 0), "rows are ordered by the first element that differs"); row<X, Y> r2(a, b), s2(d, e); MUST((r2 == s2) == (a == d && b == e) && (r2 < s2) == (a < d || (a == d && b < e)), "rows of two"); row<X> r1(a), s1(d); MUST((r1 == s1) == (a == d) && (r1 < s1) == (a < d), "rows of one"); REACH("done");
}
W(cmp_hetero) { vp_no_crash(true); int a = any<int>("a"), b = any<int>("b"); int8_t c = any<int8_t>("c"); long d = any<long>("d"); row<int, int> r(a, b); row<int8_t, long> s(c, d); MUST((r == s) == (a == c && b == d), "rows of different types are compared element by element"); MUST((r < s) == (a < c || (a == c && b < d)), "rows of different types are ordered element by element"); REACH("done"); }
// Derived rows, from an lvalue, a const lvalue and an rvalue.
enum Cat { L, CL, R, CR };
template <Cat k, class X> static decltype(auto) as(X& x) { if constexpr (k == L) return (X&)x; else if constexpr (k == CL) return (const X&)x; else if constexpr (k == CR) return (const X&&)x; else return (X&&)x; }
template <class A, class B, class C, Cat k> static void access() {
  vp_no_crash(true); { row<A, B, C> r(elem<A>("a"), elem<B>("b"), elem<C>("c")); void *p[] = {&r[best::index<0>], &r[best::index<1>], &r[best::index<2>]}; row<B, C> q(elem<B>("d"), elem<C>("e")); row<A> o(elem<A>("f"));
#define AT(x, i) ((void*)best::addr(x) == p[i])
    MUST(AT(as<k>(r)[best::index<0>], 0) && AT(as<k>(r)[best::index<1>], 1) && AT(as<k>(r)[best::index<2>], 2), "[] yields the element");
    MUST(AT(as<k>(r).at(best::index<0>), 0) && AT(as<k>(r).template at<1>(), 1) && AT(as<k>(r).at(best::index<2>), 2), "at() yields the element");
    MUST(AT(as<k>(r).get(best::index<0>), 0) && AT(as<k>(r).template get<1>(), 1) && AT(as<k>(r).get(best::index<2>), 2), "get() yields the element");
    MUST(AT(*as<k>(r).object(best::index<0>), 0) && AT(*as<k>(r).object(best::index<1>), 1) && AT(*as<k>(r).template object<2>(), 2), "object() yields the element");
    MUST(AT(as<k>(r).first(), 0) && AT(as<k>(r).second(), 1) && AT(as<k>(r).last(), 2), "first(), second() and last() yield the element");
    MUST((void*)best::addr(as<k>(q).first()) == &q[best::index<0>] && (void*)best::addr(as<k>(q).second()) == &q[best::index<1>] && (void*)best::addr(as<k>(q).last()) == &q[best::index<1>] && (void*)best::addr(as<k>(o).last()) == &o[best::index<0>], "first(), second() and last() of short rows");
    bool ok = as<k>(r).apply([&](auto&& x, auto&& y, auto&& z) { return AT(x, 0) && AT(y, 1) && AT(z, 2); }); MUST(ok, "apply() passes the elements in order"); size_t i = 0; as<k>(r).each([&](auto&& x) { MUST(AT(x, i), "each() passes the elements in order"); ++i; }); MUST(i == 3, "each() visits every element");
    auto f = as<k>(r).as_ref(); MUST(AT(f.first(), 0) && AT(f.second(), 1) && AT(f.last(), 2), "as_ref() refers to the elements"); auto g = as<k>(r).as_args(); MUST(AT(g.row.first(), 0) && AT(g.row.second(), 1) && AT(g.row.last(), 2), "as_args() refers to the elements");
    auto&& [x, y, z] = as<k>(r); MUST(AT(x, 0) && AT(y, 1) && AT(z, 2), "structured bindings name the elements"); auto&& [u, v] = as<k>(q); MUST((void*)best::addr(u) == &q.first() && (void*)best::addr(v) == &q.second(), "structured bindings name the elements"); REACH("done"); } END();
}
template <class T, Cat k> static void build() {
  vp_no_crash(true); { int a = elem<T>("a"), b = elem<int>("b"), c = elem<T>("c"), x = elem<T>("x"), y = elem<T>("y");
    auto mk = [&] { return row<T, int, T>(a, b, c); }; auto kept = [&](auto& r) { if (k != R) EQ(r, a, b, c); };
    { auto r = mk(); auto s = as<k>(r).push(T(x)); static_assert(best::same<decltype(s), row<T, int, T, T>>); EQ(s, a, b, c, x); kept(r); }
    { auto r = mk(); T t(x); auto s = as<k>(r).push(bind, t); static_assert(best::same<decltype(s), row<T, int, T, T&>>); EQ(s, a, b, c, x); MUST(&s.last() == &t, "bind makes a reference"); kept(r); }
    { auto r = mk(); auto s = as<k>(r).push(types<T>, x); static_assert(best::same<decltype(s), row<T, int, T, T>>); EQ(s, a, b, c, x); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template insert<0>(T(x)); EQ(s, x, a, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template insert<1>(types<T>, x); EQ(s, a, x, b, c); kept(r); }
    { auto r = mk(); T t(x); auto s = as<k>(r).template insert<3>(bind, t); EQ(s, a, b, c, x); MUST(&s.last() == &t, "bind makes a reference"); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template update<0>(T(x)); EQ(s, x, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template update<2>(T(x)); EQ(s, a, b, x); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template update<2>(types<T>, x); EQ(s, a, b, x); kept(r); }
    { auto r = mk(); T t(x); auto s = as<k>(r).template update<0>(bind, t); EQ(s, x, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template insert<2>(T(x)); EQ(s, a, b, x, c); kept(r); }
    { auto r = mk(); T t(x); auto s = as<k>(r).template insert<1>(bind, t); EQ(s, a, x, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template update<1>(types<T>, x); static_assert(best::same<decltype(s), row<T, T, T>>); EQ(s, a, x, c); kept(r); }
    { auto r = mk(); T t(x); auto s = as<k>(r).template update<2>(bind, t); EQ(s, a, b, x); kept(r); }
    REACH("done"); } END();
}
template <class T, Cat k, Cat k2> static void cut() {
  vp_no_crash(true); { int a = elem<T>("a"), b = elem<int>("b"), c = elem<T>("c"), x = elem<T>("x"), y = elem<T>("y");
    auto mk = [&] { return row<T, int, T>(a, b, c); }; auto kept = [&](auto& r) { if (k != R) EQ(r, a, b, c); }; auto mk2 = [&] { return row<T, T>(x, y); }; auto kept2 = [&](auto& r) { if (k2 != R) EQ(r, x, y); };
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).join(as<k2>(q)); static_assert(best::same<decltype(s), row<T, int, T, T, T>>); EQ(s, a, b, c, x, y); kept(r); kept2(q); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r) + as<k2>(q); EQ(s, a, b, c, x, y); kept(r); kept2(q); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).join(); EQ(s, a, b, c); auto u = as<k2>(q).join(row<>(), row<int>(1), row<>(), row<int, int>(2, 3)); EQ(u, x, y, 1, 2, 3); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).template splice<bounds{.start = 1, .end = 2}>(as<k2>(q)); static_assert(best::same<decltype(s), row<T, T, T, T>>); EQ(s, a, x, y, c); kept(r); kept2(q); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).template splice<bounds{.start = 2}>(as<k2>(q)); EQ(s, a, b, x, y); kept(r); kept2(q); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).template splice<bounds{.start = 1, .count = 0}>(types<T, T>, as<k2>(q)); EQ(s, a, x, y, b, c); kept(r); kept2(q); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).template scatter<2, 0>(as<k2>(q)); EQ(s, y, b, x); kept(r); kept2(q); }
    { auto r = mk(); auto q = mk2(); auto s = as<k>(r).template scatter<1>(as<k2>(q)); static_assert(best::same<decltype(s), row<T, T, T>>); EQ(s, a, x, c); kept(r); }
    { auto r = mk(); auto q = row<int, int>(x, 4); auto s = as<k>(r).template scatter<0>(types<T>, as<k2>(q)); static_assert(best::same<decltype(s), row<T, int, T>>); EQ(s, x, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template remove<0>(); EQ(s, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template remove<1>(); static_assert(best::same<decltype(s), row<T, T>>); EQ(s, a, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template erase<bounds{.start = 1}>(); EQ(s, a); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template erase<bounds{.end = 2}>(); EQ(s, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template gather<2, 1>(); static_assert(best::same<decltype(s), row<T, int>>); EQ(s, c, b); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template at<bounds{.start = 1}>(); static_assert(best::same<decltype(s), row<int, T>>); EQ(s, b, c); kept(r); }
    { auto r = mk(); auto s = as<k>(r)[vals<bounds{.end = 2}>]; EQ(s, a, b); kept(r); }
    { auto r = mk(); auto s = as<k>(r).template select<T>(); if constexpr (!best::same<T, int>) { EQ(s, a, c); } else { EQ(s, a, b, c); } kept(r); }
    { auto r = mk(); auto s = as<k>(r).template select<char>(); EQ(s); kept(r); }
    REACH("done"); } END();
}
// each() and as_args() give every element exactly once, in order, movable from an rvalue.
template <class T> static void each() {
  vp_no_crash(true); { int a = elem<T>("a"), b = elem<T>("b"), c = elem<int>("c"); row<T, int, T> r(a, c, b); size_t i = 0; r.each([&](auto& x) { const void* w = i == 0 ? (void*)&r[best::index<0>] : i == 1 ? (void*)&r[best::index<1>] : (void*)&r[best::index<2>]; MUST((void*)&x == w, "each() passes the elements in order"); ++i; }); MUST(i == 3, "each() visits every element");
    { auto m = std::move(r).apply([](T&& x, int&& y, T&& z) { return row<T, int, T>(std::move(x), std::move(y), std::move(z)); }); EQ(m, a, c, b); auto args = m.as_args(); MUST(&args.row[best::index<0>] == &m[best::index<0>] && &args.row[best::index<2>] == &m[best::index<2>], "as_args() refers to the elements"); } REACH("done"); } END();
}
W(make_i) { make<int, int, int>(); } W(make_t) { make<Tracked, Tracked, Tracked>(); } W(make_o) { make<Owner, int, Tracked>(); } W(make_m) { make<uint8_t, Owner, Owner>(); }
W(make2_i) { make2<int, int>(); } W(make2_t) { make2<Tracked, Tracked>(); } W(make2_o) { make2<Owner, uint8_t>(); } W(make2_m) { make2<uint8_t, Tracked>(); }
W(cmp_i) { cmp<int, int, int>(); } W(cmp_m) { cmp<uint8_t, int64_t, int16_t>(); }
#define B3(T, t) W(build_##t##_l) { build<T, L>(); } W(build_##t##_c) { build<T, CL>(); } W(build_##t##_r) { build<T, R>(); } W(each_##t) { each<T>(); } \
  W(cut_##t##_ll) { cut<T, L, L>(); } W(cut_##t##_cr) { cut<T, CL, R>(); } W(cut_##t##_rc) { cut<T, R, CL>(); } W(cut_##t##_rr) { cut<T, R, R>(); }
B3(int, i) B3(Tracked, t) B3(Owner, o)
W(moveonly) { vp_no_crash(true); { int a = any<int>("a"), b = any<int>("b"), x = any<int>("x"); auto mk = [&] { return row<Mov, int, Mov>(Mov(a), 1, Mov(b)); };
  EQ(mk().push(Mov(x)), a, 1, b, x); EQ(mk().insert<1>(Mov(x)), a, x, 1, b); EQ(mk().update<2>(Mov(x)), a, 1, x); EQ(mk().join(row<Mov>(Mov(x))), a, 1, b, x); EQ((mk().splice<bounds{.start = 1, .end = 2}>(row<Mov>(Mov(x)))), a, x, b); EQ(mk().remove<1>(), a, b); EQ((mk().erase<bounds{.start = 1}>()), a); EQ((mk().gather<2, 0>()), b, a); EQ((mk().scatter<1>(row<Mov>(Mov(x)))), a, x, b); EQ((mk().at<bounds{.start = 1}>()), 1, b); EQ(mk().select<Mov>(), a, b); auto r = mk(); auto s = std::move(r); EQ(s, a, 1, b); r = std::move(s); EQ(r, a, 1, b); REACH("done"); } END(); }
#define ACC(nm, ...) W(acc_##nm##_l) { access<__VA_ARGS__, L>(); } W(acc_##nm##_c) { access<__VA_ARGS__, CL>(); } W(acc_##nm##_r) { access<__VA_ARGS__, R>(); } W(acc_##nm##_cr) { access<__VA_ARGS__, CR>(); }
ACC(i, int, int, int) ACC(m, Owner, uint8_t, Tracked)
CONTROL(order) { int a = any<int>("a"), b = any<int>("b"); row<int, int> r(a, b); auto s = r.gather<1, 0>(); MUST(s.first() == a, "control"); }
