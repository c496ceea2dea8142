// I01: iterators and their adaptors yield exactly what they should, in order, from either end.
#include "vecsup.h"
#include "textsup.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/text/str.h"
// An iterator over an array by value or reference, with nothing but next() and next_back().
template <class T> struct Src {
  T* b; T* e;
  using Item = T;
  best::option<T> next() { if (b == e) return best::none; return best::option<T>(best::in_place, *b++); }
  best::option<T> next_back() { if (b == e) return best::none; return best::option<T>(best::in_place, *--e); }
};
template <class T> struct RefSrc {
  T* b; T* e;
  best::option<T&> next() { if (b == e) return best::none; return best::option<T&>(*b++); }
  best::option<T&> next_back() { if (b == e) return best::none; return best::option<T&>(*--e); }
};
template <class T, size_t N> struct In {
  alignas(T) char raw[sizeof(T) * N]; int v[N]; size_t n = vp_pick(0, N);
  In() { for (size_t i = 0; i < n; ++i) { v[i] = elem<T>("a"); new (p() + i) T(v[i]); } }
  ~In() { for (size_t i = 0; i < n; ++i) p()[i].~T(); }
  T* p() { return (T*)raw; }
  auto it() { return best::iter(Src<T>{p(), p() + n}); }
  auto ref() { return best::iter(RefSrc<T>{p(), p() + n}); }
};
#define END() MUST(vp_live_count() == 0 && vp_heap_live() == 0, "every object is destroyed exactly once")
#define HINT(it, left) do { auto h_ = (it).size_hint(); MUST(h_.lower <= (left) && (!h_.upper || *h_.upper >= (left)), "the size hint bounds what is left"); } while (0)
// Drain `it` from both ends in any interleaving; want(i) checks the i-th item of m.
template <class I, class F> static void drain(I it, size_t m, F want) {
  size_t lo = 0, hi = m;
  for (size_t k = 0; k <= m; ++k) { HINT(it, hi - lo); bool f = true; if constexpr (I::double_ended) f = vp_split(vp_pick(0, 1));
    if (f) { auto x = it.next(); MUST(x.has_value() == (lo < hi), "it yields as many items as it should"); if (x) want(lo++, *x); }
    else if constexpr (I::double_ended) { auto x = it.next_back(); MUST(x.has_value() == (lo < hi), "it yields as many items as it should"); if (x) want(--hi, *x); } }
}
template <class I, class F> static void walk(I it, size_t m, F want) { size_t i = 0; for (auto&& x : it) { MUST(i < m, "it yields as many items as it should"); want(i++, x); } MUST(i == m, "it yields as many items as it should"); }
#define B(name, ...) template <class T> static void name() { vp_no_crash(true); { In<T, 2> a; size_t k = 0; (void)k; auto w = [&](size_t i, auto&& x) { MUST(val(x) == a.v[i], "items are yielded in order"); }; (void)w; auto rw = [&](size_t i, auto&& x) { w(a.n - 1 - i, x); }; (void)rw; __VA_ARGS__; REACH("done"); } END(); }
#define LAST(l, ...) do { auto l_ = l; MUST(l_.has_value() == (a.n > 0), "last() is none exactly if there are no items"); if (l_) { auto&& x = *l_; __VA_ARGS__; } } while (0)
B(plain, drain(a.it(), a.n, w)) B(plainr, drain(a.it().rev(), a.n, rw)) B(plainrr, drain(a.it().rev().rev(), a.n, w))
B(plainw, walk(a.it(), a.n, w); walk(a.it().rev(), a.n, rw))
B(plainl, MUST(a.it().count() == a.n && a.it().rev().count() == a.n, "count() is the number of items"); LAST(a.it().last(), w(a.n - 1, x)); LAST(a.it().rev().last(), w(0, x)))
B(plainc, auto v = a.it().to_vec(); MUST(v.size() == a.n, "to_vec() collects every item"); for (size_t i = 0; i < a.n; ++i) w(i, v[i]); best::vec<T> c = a.it().collect(); MUST(c.size() == a.n, "collect() collects every item"); for (size_t i = 0; i < a.n; ++i) w(i, c[i]))
// References.
#define R(name, ...) template <class T> static void name() { vp_no_crash(true); { In<T, 3> a; size_t k = 0; (void)k; auto w = [&](size_t i, T& x) { MUST(&x == a.p() + i, "references are passed on"); }; auto rw = [&](size_t i, T& x) { w(a.n - 1 - i, x); }; (void)rw; __VA_ARGS__; REACH("done"); } END(); }
R(refs, drain(a.ref(), a.n, w)) R(refsr, drain(a.ref().rev(), a.n, rw))
R(refsl, walk(a.ref(), a.n, w); LAST(a.ref().last(), w(a.n - 1, x)); LAST(a.ref().rev().last(), w(0, x)))
R(refsm, drain(a.ref().map([&](T& x) -> T& { ++k; return x; }), a.n, w); MUST(k == a.n, "map() calls back once per item"))
R(refsi, walk(a.ref().inspect([&](T& x) { w(k++, x); }), a.n, w); MUST(k == a.n, "inspect() calls back once per item"); k = 0; walk(a.ref().inspect([&] { ++k; }), a.n, w); MUST(k == a.n, "inspect() calls back once per item"))
R(refse, drain(a.ref().enumerate(), a.n, [&](size_t i, auto&& r) { MUST(r.first() == i, "enumerate() counts the items"); w(i, r.second()); }))
R(refst, drain(a.ref().take(2), a.n < 2 ? a.n : 2, w))
#define F [&](auto&& x) { ++k; return val(x) ^ 5; }
#define FW [&](size_t i, int x) { MUST(x == (a.v[i] ^ 5), "map() yields the results in order"); }
B(map, drain(a.it().map(F), a.n, FW); MUST(k == a.n, "map() calls back once per item"))
B(mapr, drain(a.it().map(F).rev(), a.n, [&](size_t i, int x) { (FW)(a.n - 1 - i, x); }); MUST(k == a.n, "map() calls back once per item"))
B(mapw, walk(a.it().map(F), a.n, FW); MUST(k == a.n, "map() calls back once per item"); k = 0; MUST(a.it().map(F).count() == a.n && k == a.n, "count() drives the iterator"); LAST(a.it().map(F).last(), (FW)(a.n - 1, x)))
B(mapc, auto v = a.it().map(F).to_vec(); MUST(v.size() == a.n && k == a.n, "to_vec() collects every item"); for (size_t i = 0; i < a.n; ++i) (FW)(i, v[i]))
B(inspect, drain(a.it().inspect([&](T&) { ++k; }), a.n, w); MUST(k == a.n, "inspect() calls back once per item"))
B(inspectw, walk(a.it().inspect([&] { ++k; }), a.n, w); MUST(k == a.n, "inspect() calls back once per item"); k = 0; walk(a.it().inspect([&](T& x) { w(k++, x); }), a.n, w); MUST(k == a.n, "inspect() calls back once per item"); k = 0; MUST(a.it().inspect([&] { ++k; }).count() == a.n && k == a.n, "count() drives the iterator"))
B(inspectc, auto v = a.it().inspect([&] { ++k; }).to_vec(); MUST(v.size() == a.n && k == a.n, "to_vec() collects every item"); for (size_t i = 0; i < a.n; ++i) w(i, v[i]))
#define EW(j) [&](size_t i, auto&& r) { MUST(r.first() == i && val(r.second()) == a.v[j], "enumerate() pairs each item with its index"); }
B(enumerate, drain(a.it().enumerate(), a.n, EW(i)))
B(enumeratew, walk(a.it().enumerate(), a.n, EW(i)); MUST(a.it().enumerate().count() == a.n, "count() is the number of items"); LAST(a.it().enumerate().last(), (EW(i))(a.n - 1, x)))
B(enumerater, walk(a.it().rev().enumerate(), a.n, EW(a.n - 1 - i)))
#define TM size_t t = any<size_t>("t"), m = t < a.n ? vp_pick(0, 2) : a.n; if (t < a.n) vp_assume(t == m)
B(take, TM; drain(a.it().take(t), m, w))
B(takew, TM; walk(a.it().take(t), m, w); MUST(a.it().take(t).count() == m, "take() yields at most so many items"); auto l = a.it().take(t).last(); MUST(l.has_value() == (m > 0), "last() is none exactly if there are no items"); if (l) w(m - 1, *l); walk(a.it().rev().take(t), m, rw))
B(takes, TM; drain(best::span<T>(a.p(), a.n).iter().take(t), m, w))
B(takem, TM; walk(a.it().map(F).take(t), m, FW); MUST(k == m, "take() takes no more than it yields"))
B(takec, TM; best::vec<T> v(best::span<T>(a.p(), a.n).iter().take(t)); MUST(v.size() == m, "to_vec() collects every item"); for (size_t i = 0; i < m; ++i) w(i, v[i]))
B(takee, TM; walk(best::span<T>(a.p(), a.n).iter().take(t).enumerate(), m, [&](size_t i, auto&& r) { MUST(r.first() == i, "enumerate() counts the items"); w(i, r.second()); }))
// Ranges of integers.
enum Kind { END_, INCL, COUNT, ALL_ };
template <class I> struct Exp { bool any = false; std::make_unsigned_t<I> off = 0; };  // off + 1 integers, if any
// Any integer of type I, and any e, given by its distance from s if it is larger.
template <class I> static I start(std::make_unsigned_t<I>* u) { using U = std::make_unsigned_t<I>; *u = any<U>("u"); if (vp_split(*u == 0)) *u = 0; return I(U(*u + U(std::numeric_limits<I>::min()))); }
template <class I> static I last(std::make_unsigned_t<I> u, I s, bool by, Exp<I>* x) { using U = std::make_unsigned_t<I>; if (vp_split(vp_pick(0, 1))) { U v; I e = start<I>(&v); vp_assume(by ? v <= u : v < u); return e; } x->any = true; x->off = any<U>("off"); if (std::is_same_v<I, int32_t> && vp_split(x->off < 4)) { size_t k = vp_pick(0, 3); vp_assume(x->off == k); x->off = k; } vp_assume(by ? x->off < U(~u) : x->off <= U(~u)); return I(U(U(s) + x->off + by)); }
template <class I, Kind kind> static best::int_range<I> range(Exp<I>* x) {
  using U = std::make_unsigned_t<I>; best::int_range<I> r; U u; I s = start<I>(&u); r.start = s;
  if (kind == END_) { I e = last<I>(u, s, 1, x); r.end = e; if (vp_split(vp_pick(0, 1))) r.including_end = any<I>("x"); }
  if (kind == INCL) { I e = last<I>(u, s, 0, x); r.including_end = e; if (vp_split(vp_pick(0, 1))) r.count = any<I>("x"); }
  if (kind == COUNT) { I c = any<I>("c"); vp_assume(c >= 0); vp_assume(U(c) <= U(~u)); r.count = c; x->any = c > 0; x->off = U(c) - 1; }
  if (kind == ALL_) { r.start = std::numeric_limits<I>::min(); x->any = true; x->off = U(-1); }
  return r;
}
template <class I, Kind kind> static void ints() {
  using U = std::make_unsigned_t<I>; vp_no_crash(true); Exp<I> e; auto r = range<I, kind>(&e); auto it = r.iter();
  for (size_t lo = 0, hi = 0; lo + hi < 4;) { bool more = e.any && lo + hi <= e.off; U left = e.off - U(lo + hi); auto h = it.size_hint(); MUST(h.lower == 0 || (more && h.lower - 1 <= left), "the size hint bounds what is left"); MUST(!h.upper || !more || (*h.upper > 0 && *h.upper - 1 >= left) || uint64_t(left) == ~uint64_t(0), "the size hint bounds what is left");
    bool f = vp_split(vp_pick(0, 1)); auto x = f ? it.next() : it.next_back(); MUST(x.has_value() == more, "a range yields as many integers as it should"); if (!x) { REACH("end"); break; } MUST(U(*x) == (f ? U(U(r.start) + U(lo)) : U(U(r.start) + e.off - U(hi))), "a range yields its integers in order"); f ? ++lo : ++hi; REACH("yield"); }
}
template <class I, Kind kind> static void sums() {
  using U = std::make_unsigned_t<I>; vp_no_crash(true); Exp<I> e; auto r = range<I, kind>(&e); MUST(r.iter().count() == (e.any ? size_t(e.off) + 1 : 0), "count() is the number of integers"); auto l = r.iter().last(); MUST(l.has_value() == e.any, "last() is none exactly for an empty range"); if (l) MUST(U(*l) == U(U(r.start) + e.off), "last() is the largest integer"); REACH("done");
}
// The size hints of text.
template <class E, size_t N> static void hints() { vp_no_crash(true); Txt<E, N> t; auto it = t.text().runes(); auto ix = t.text().rune_indices(); for (size_t i = 0; i < t.k; ++i) { HINT(it, t.k - i); HINT(ix, t.k - i); auto c = it.next(); auto d = ix.next(); MUST(c && d, "text yields its runes"); } HINT(it, 0u); HINT(ix, 0u); REACH("done"); }
template <class E, size_t N> static void prehints() { vp_no_crash(true); best::code<E> c[N]; vp_bytes(c, sizeof c, "c"); size_t n = vp_pick(0, N); best::pretext<E> p(best::span<const best::code<E>>(c, n)); size_t m = 0; for (size_t i = 0; i < n; ++m) { uint32_t v; size_t k = refdec<E>(c + i, n - i, &v); i += k ? k : 1; } auto it = p.runes(); auto tr = p.try_runes(); for (size_t i = 0; i <= m; ++i) { HINT(it, m - i); HINT(tr, m - i); auto x = it.next(); auto y = tr.next(); MUST(x.has_value() == (i < m) && y.has_value() == (i < m), "a pretext yields as many runes as it should"); } REACH("done"); }
#define ALL(f) W(f##_i) { f<int>(); } W(f##_t) { f<Tracked>(); } W(f##_o) { f<Owner>(); }
ALL(plain) ALL(plainr) ALL(plainrr) ALL(plainw) ALL(plainl) ALL(plainc) ALL(refs) ALL(refsr) ALL(refsl) ALL(refsm) ALL(refsi) ALL(refse) ALL(refst) ALL(map) ALL(mapr) ALL(mapw) ALL(mapc) ALL(inspect) ALL(inspectw) ALL(inspectc) ALL(enumerate) ALL(enumeratew) ALL(enumerater) ALL(take) ALL(takew) ALL(takes) ALL(takem) ALL(takec) ALL(takee)
#define INT(nm, I) W(ints_##nm##_end) { ints<I, END_>(); } W(ints_##nm##_incl) { ints<I, INCL>(); } W(ints_##nm##_count) { ints<I, COUNT>(); } W(ints_##nm##_all) { ints<I, ALL_>(); } W(sums_##nm##_end) { sums<I, END_>(); } W(sums_##nm##_incl) { sums<I, INCL>(); } W(sums_##nm##_count) { sums<I, COUNT>(); } W(sums_##nm##_all) { sums<I, ALL_>(); }
INT(u8, uint8_t) INT(i8, int8_t) INT(u16, uint16_t) INT(i32, int32_t) INT(u64, uint64_t) INT(i64, int64_t)
W(hints_8) { hints<utf8, 2>(); } W(hints_16) { hints<utf16, 2>(); } W(hints_32) { hints<utf32, 3>(); } W(hints_a) { hints<ascii, 3>(); } W(pre_8) { prehints<utf8, 3>(); } W(pre_16) { prehints<utf16, 3>(); } W(pre_32) { prehints<utf32, 3>(); } W(pre_a) { prehints<ascii, 3>(); }
CONTROL(take) { In<int, 3> a; MUST(a.it().take(2).count() == 2, "control"); }
