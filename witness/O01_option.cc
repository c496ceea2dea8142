// O01: an option is either empty or holds one value; every operation respects that.
#include "optsup.h"
using best::option; using best::none;
struct Opt { bool has; int v; };
template <class T> static void mk(option<T>& o, Opt& r, const char* n) {
  r.has = vp_pick(0, 1); r.v = any<int>(n);
  if (r.has) o.emplace(r.v); else if (vp_pick(0, 1)) { o.emplace(1); o.reset(); }
}
template <class T> static void is(const option<T>& o, Opt r) {
  MUST(o.has_value() == r.has && o.is_empty() == !r.has && (bool)o == r.has && (o == none) == !r.has, "empty exactly when it should be");
  MUST((o.as_ptr() != nullptr) == r.has, "as_ptr is null exactly when empty");
  if (r.has) { MUST(val(*o) == r.v && val(*o.as_ptr()) == r.v && val(*o.operator->()) == r.v && val(o.value()) == r.v && val(o.value(best::unsafe("t"))) == r.v, "the value is the one put in"); REACH("some"); } else REACH("none");
}
template <class T> static void basic() { clean([] {
  option<T> a; Opt r; is(a, {false, 0}); mk(a, r, "a"); is(a, r);
  if (events<T>) MUST(vp_live_count() == r.has, "exactly the value is alive");
  switch (vp_pick(0, 7)) {
    case 0: a.reset(); r.has = false; break;
    case 1: a = none; r.has = false; break;
    case 2: { int x = any<int>("x"); auto& e = a.emplace(x); MUST(&e == a.as_ptr(), "emplace returns the new value"); r = {true, x}; break; }
    case 3: { int x = any<int>("x"); auto& e = a.or_emplace(x); if (!r.has) r = {true, x}; MUST(val(e) == r.v, "or_emplace returns the value"); break; }
    case 4: { int x = any<int>("x"); a = T(x); r = {true, x}; break; }
    case 5: { int x = any<int>("x"); a = option<T>(best::in_place, x); r = {true, x}; break; }
    case 6: { option<T> b(T(r.v)); is(b, {true, r.v}); option<T> c(none); is(c, {false, 0}); break; }
    default: { auto& s = a; a = s; a = std::move(s); if (events<T>) { if (r.has) r.v = val(*a); } break; }
  }
  is(a, r);
  if (events<T>) MUST(vp_live_count() == r.has, "exactly the value is alive");
}); }
template <class T> static void two() { clean([] {
  option<T> a, b; Opt r, q; mk(a, r, "a"); mk(b, q, "b");
  switch (vp_pick(0, 9)) {
    case 0: a = b; is(a, q); is(b, q); r = q; break;
    case 1: a = std::move(b); is(a, q); MUST(b.has_value() == q.has, "moving from an option keeps it engaged"); return;
    case 2: { option<T> c(a); is(c, r); break; }
    case 3: { option<T> c(std::move(a)); is(c, r); return; }
    case 4: { auto c = a & b; is(c, r.has ? q : Opt{false, 0}); break; }
    case 5: { auto c = a | b; is(c, r.has ? r : q); break; }
    case 6: { auto c = a ^ b; is(c, r.has == q.has ? Opt{false, 0} : r.has ? r : q); break; }
    case 7: { auto c = std::move(a) | b; is(c, r.has ? r : q); return; }
    case 8: { auto c = std::move(a) ^ b; is(c, r.has == q.has ? Opt{false, 0} : r.has ? r : q); return; }
    default: { option<T> d(std::move(a)); a = std::move(d); is(a, r); break; }
  }
  is(a, r); is(b, q);
}); }
template <class T> static void funct() { clean([] {
  option<T> a; Opt r; mk(a, r, "a"); const auto& ca = a;
  int calls = 0; bool keep = vp_pick(0, 1); int y = any<int>("y");
  auto f = [&](const T& t) { ++calls; return val(t) ^ 5; };
  auto g = [&](const T& t) { ++calls; return keep ? option<int>(val(t) ^ 9) : option<int>(); };
  auto p = [&](const T&) { ++calls; return keep; };
  Opt m{r.has, r.v ^ 5}, t{r.has && keep, r.v ^ 9};
  switch (vp_pick(0, 9)) {
    case 0: is(a.map(f), m); break;
    case 1: is(ca.map(f), m); break;
    case 2: is(std::move(a).map(f), m); break;
    case 3: { int z = a.map(y, f); MUST(z == (r.has ? m.v : y), "map with a default"); break; }
    case 4: is(a.then(g), t); break;
    case 5: is(std::move(a).then(g), t); break;
    case 6: is(ca.filter(p), {r.has && keep, r.v}); break;
    case 7: is(std::move(a).filter(p), {r.has && keep, r.v}); MUST(calls == r.has, "called exactly once, on a value"); return;
    case 8: MUST(&a.inspect(f) == &a, "inspect returns the option"); break;
    default: MUST(a.has_value(p) == (r.has && keep), "has_value(p)"); break;
  }
  MUST(calls == r.has, "called exactly once, on a value");
  is(a, r);
}); }
template <class T> static void deflt() { clean([] {
  option<T> a; Opt r; mk(a, r, "a"); const auto& ca = a; int y = any<int>("y"); int calls = 0;
  auto f = [&] { ++calls; return T(y); };
  switch (vp_pick(0, 3)) {
    case 0: { T t = ca.value_or(y); MUST(val(t) == (r.has ? r.v : y), "value_or"); is(a, r); break; }
    case 1: { T t = std::move(a).value_or(y); MUST(val(t) == (r.has ? r.v : y), "value_or"); break; }
    case 2: { T t = ca.value_or(f); MUST(val(t) == (r.has ? r.v : y) && calls == !r.has, "value_or"); is(a, r); break; }
    default: { T t = std::move(a).value_or(f); MUST(val(t) == (r.has ? r.v : y) && calls == !r.has, "value_or"); break; }
  }
}); }
template <class T> static void results() { clean([] {
  option<T> a; Opt r; mk(a, r, "a"); const auto& ca = a; int y = any<int>("y");
  auto okk = [&](const auto& x) { MUST(x.is_ok() == r.has && x.is_err() == !r.has, "ok exactly when there is a value"); if (r.has) MUST(val(*x.ok()) == r.v, "the value is carried over"); else MUST(*x.err() == y, "the alternative is carried over"); };
  auto ere = [&](const auto& x) { MUST(x.is_err() == r.has && x.is_ok() == !r.has, "err exactly when there is a value"); if (r.has) MUST(val(*x.err()) == r.v, "the value is carried over"); else MUST(*x.ok() == y, "the alternative is carried over"); };
  int calls = 0; auto f = [&] { ++calls; return y; };
  switch (vp_pick(0, 11)) {
    case 0: okk(a.template ok_or<long>(y)); is(a, r); break;
    case 1: okk(ca.template ok_or<long>(y)); is(a, r); break;
    case 2: okk(std::move(a).template ok_or<long>(y)); break;
    case 3: okk(a.ok_or(y)); is(a, r); break;
    case 4: okk(ca.ok_or(y)); is(a, r); break;
    case 5: okk(std::move(a).ok_or(y)); break;
    case 6: okk(a.ok_or(f)); is(a, r); break;
    case 7: okk(ca.ok_or(f)); is(a, r); break;
    case 8: ere(a.err_or(f)); is(a, r); break;
    case 9: ere(a.err_or(y)); is(a, r); break;
    case 10: ere(ca.template err_or<long>(y)); is(a, r); break;
    default: ere(std::move(a).err_or(y)); break;
  }
}); }
#define X(n, T) W(basic_##n) { basic<T>(); } W(two_##n) { two<T>(); } W(funct_##n) { funct<T>(); } W(deflt_##n) { deflt<T>(); } W(results_##n) { results<T>(); }
X(int, int) X(tracked, Tracked) X(nich, Nich) X(owner, Owner)
template <class T> static void order() { clean([] {
  option<T> a, b; Opt r, q; mk(a, r, "a"); mk(b, q, "b");
  bool eq = r.has == q.has && (!r.has || r.v == q.v);
  bool lt = r.has != q.has ? q.has : r.has && r.v < q.v;
  MUST((a == b) == eq && (a != b) == !eq, "equality");
  MUST((a < b) == lt && ((a <=> b) == 0) == eq && (a > b) == (!eq && !lt), "an empty option is least");
  MUST((a <=> none) == (r.has ? best::ord::greater : best::ord::equal), "order against none");
  REACH("done");
}); }
W(order_int) { order<int>(); } W(order_nich) { order<Nich>(); }
W(order_value) { clean([] { option<int> a; Opt r; mk(a, r, "a"); int x = any<int>("x");
  MUST((a == x) == (r.has && r.v == x), "equal to a value exactly when holding it"); MUST((a < x) == (!r.has || r.v < x) && (a > x) == (r.has && r.v > x), "order against a value"); REACH("done"); }); }
W(unwrap_none) { option<int> a; (void)*a; vp_violation("dereferencing an empty option goes through"); }
W(unwrap_none_arrow) { option<Nich> a; (void)a->v; vp_violation("dereferencing an empty option goes through"); }
W(unwrap_none_ref) { option<int&> a; (void)a.value(); vp_violation("dereferencing an empty option goes through"); }
W(unwrap_none_move) { option<Tracked> a; (void)std::move(a).value(); vp_violation("dereferencing an empty option goes through"); }
W(refs) { clean([] {
  int x = any<int>("x"), y = any<int>("y"); 
  option<int&> a; MUST(a.is_empty(), "default is empty"); bool h = vp_pick(0, 1);
  if (h) a = option<int&>(x);
  MUST(a.has_value() == h && a.as_ptr() == (h ? &x : nullptr), "holds the reference");
  option<int&> b = a; MUST(b.as_ptr() == a.as_ptr(), "copies share the referent");
  b = option<int&>(y); MUST(&*b == &y && a.as_ptr() == (h ? &x : nullptr), "assignment rebinds");
  a = (int*)nullptr; MUST(a.is_empty(), "null is empty"); a = &y; MUST(&*a == &y, "a pointer is a value");
  option<int> c = a; MUST(*c == y && &*c != &y, "converting from a reference copies");
  option<int> d(x); option<int&> e = d; MUST(&*e == &*d, "converting to a reference refers");
  option<int> d2(y); e = d2; MUST(&*e == &*d2 && *d == x, "assigning an option rebinds the reference"); e = option<int>(); MUST(e.is_empty(), "assigning empty empties"); 
  auto f = d.as_ref(); MUST(&*f == &*d, "as_ref refers"); d.reset(); MUST(d.as_ref().is_empty() && option<int&>(d).is_empty(), "empty converts to empty");
  auto g = b.copy(); MUST(*g == y && &*g != &y, "copy copies"); b = none; MUST(b.is_empty() && b.copy().is_empty(), "copy of empty");
  MUST(sizeof(option<int&>) == sizeof(int*) && sizeof(option<Nich>) == sizeof(Nich), "niches take no space");
  if (h) REACH("some"); else REACH("none");
}); }
W(voids) { clean([] {
  option<void> a; MUST(a.is_empty() && !a, "default is empty"); a.emplace(); MUST(a.has_value(), "engaged"); 
  option<void> b = a; MUST(b.has_value(), "copy"); b.reset(); MUST(!b && a, "reset"); b = a; MUST(b.has_value(), "assign"); b = none; MUST(!b, "none");
  int n = 0; auto m = a.map([&] { ++n; return 3; }); MUST(n == 1 && *m == 3, "map"); auto k = b.map([&] { ++n; return 3; }); MUST(n == 1 && !k, "map of empty");
  REACH("done");
}); }
W(convert) { clean([] {
  option<int> a; Opt r; mk(a, r, "a");
  option<long> b = a; is(a, r); MUST(b.has_value() == r.has && (!r.has || *b == r.v), "converts the value");
  option<Tracked> c(a); is(c, r); option<Tracked> d; d.emplace(3); d = a; is(d, r);
  option<Tracked> e(std::move(d)); is(e, r);
  REACH("done");
}); }
// Callbacks of an rvalue option may move the value out; those of an lvalue see it in place.
W(category) { clean([] {
  option<Tracked> a; Opt r; mk(a, r, "a"); const auto& ca = a; size_t form = vp_pick(0, 3), op = vp_pick(0, 2); int n = 0;
  auto f = [&]<class X>(X&& x) -> option<int> { ++n; MUST(std::is_lvalue_reference_v<X&&> == (form < 2) && std::is_const_v<std::remove_reference_t<X>> == (form % 2 == 1), "callbacks get the value with the category of the option"); MUST(&x == a.as_ptr(), "callbacks get the value itself"); return 1; };
  auto run = [&](auto&& o) { if (op == 0) { auto m = BEST_FWD(o).map(f); MUST(m.has_value() == r.has, "map keeps emptiness"); } else if (op == 1) { auto m = BEST_FWD(o).then(f); MUST(m.has_value() == r.has, "then keeps emptiness"); } else { auto&& m = BEST_FWD(o).inspect(f); MUST(&m == &a, "inspect returns the option"); } };
  switch (form) { case 0: run(a); break; case 1: run(ca); break; case 2: run(std::move(a)); break; default: run(std::move(ca)); }
  MUST(n == r.has, "called exactly once, on a value"); is(a, r);
}); }
// The same through every kind of reference to the option.
enum Cat { L, CL, R, CR };
template <Cat k, class X> static decltype(auto) as(X& x) { if constexpr (k == L) return (X&)x; else if constexpr (k == CL) return (const X&)x; else if constexpr (k == CR) return (const X&&)x; else return (X&&)x; }
template <class T, Cat k> static void cats() { clean([] {
  option<T> a; Opt r; mk(a, r, "a"); int y = any<int>("y"), calls = 0; auto f = [&] { ++calls; return y; };
  auto okk = [&](const auto& x) { MUST(x.is_ok() == r.has, "ok exactly when there is a value"); if (r.has) MUST(val(*x.ok()) == r.v, "the value is carried over"); else MUST(*x.err() == y, "the alternative is carried over"); };
  auto ere = [&](const auto& x) { MUST(x.is_err() == r.has, "err exactly when there is a value"); if (r.has) MUST(val(*x.err()) == r.v, "the value is carried over"); else MUST(*x.ok() == y, "the alternative is carried over"); };
  auto* p = a.as_ptr(); size_t op = vp_pick(0, 9);
  switch (op) {
    case 0: okk(as<k>(a).template ok_or<long>(y)); break; case 1: okk(as<k>(a).ok_or(y)); break; case 2: okk(as<k>(a).ok_or(f)); MUST(calls == !r.has, "called exactly when empty"); break;
    case 3: ere(as<k>(a).template err_or<long>(y)); break; case 4: ere(as<k>(a).err_or(y)); break; case 5: ere(as<k>(a).err_or(f)); MUST(calls == !r.has, "called exactly when empty"); break;
    case 6: { auto o = as<k>(a).as_ref(); MUST(o.has_value() == r.has && o.as_ptr() == p, "as_ref refers to the value"); is(a, r); break; }
    case 7: { auto o = as<k>(a).as_object(); MUST(o.has_value() == r.has, "as_object is empty exactly when the option is"); if (r.has) MUST(val(**o) == r.v, "as_object refers to the value"); is(a, r); break; }
    case 8: if (r.has) { auto&& x = as<k>(a).value(); MUST(&x == p, "value() is the value itself"); auto&& z = *as<k>(a); MUST(&z == p, "* is the value itself"); auto&& u = as<k>(a).value(best::unsafe("t")); MUST(&u == p, "value(unsafe) is the value itself"); is(a, r); } break;
    case 9: { int z = as<k>(a).map(y, [](const T& t) { return val(t) ^ 5; }); MUST(z == (r.has ? r.v ^ 5 : y), "map with a default"); is(a, r); break; }
  }
  if (k != R) is(a, r); else if (op < 6 && r.has) MUST(val(*a) == -1, "the value is moved out of an rvalue"); REACH("done");
}); }
W(cats_l) { cats<Tracked, L>(); } W(cats_cl) { cats<Tracked, CL>(); } W(cats_r) { cats<Tracked, R>(); } W(cats_cr) { cats<Tracked, CR>(); }
W(cats_nl) { cats<Nich, L>(); } W(cats_ncl) { cats<Nich, CL>(); } W(cats_nr) { cats<Nich, R>(); } W(cats_ncr) { cats<Nich, CR>(); }
template <class T, Cat k> static void novalue() { option<T> a; if (vp_pick(0, 1)) { a.emplace(3); a.reset(); } if (vp_pick(0, 1)) (void)as<k>(a).value(); else (void)*as<k>(a); vp_violation("reading an empty option goes through"); }
W(novalue_l) { novalue<Nich, L>(); } W(novalue_cl) { novalue<Nich, CL>(); } W(novalue_r) { novalue<Nich, R>(); } W(novalue_cr) { novalue<Tracked, CR>(); }
CONTROL(v) { option<int> a; Opt r; mk(a, r, "a"); is(a, {true, 4}); }
