// B01: bounds arithmetic and checked access of spans, for every length.
#include "vp.h"
#include <limits>
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/memory/span.h"

using opt = best::bounds;
struct Want { bool ok; size_t start, count; };
// An arbitrary bounds value of every form, and what it denotes for length n.
static best::bounds form(size_t n, Want& w) {
  size_t a = any<size_t>("start"), b = any<size_t>("b");
  switch (vp_pick(0, 6)) {
    case 0: w = {a <= n, a, n - a}; return {.start = a};
    case 1: w = {a <= b && b <= n, a, b - a}; return {.start = a, .end = b};
    case 2: w = {a <= b && b < n, a, b - a + 1}; return {.start = a, .including_end = b};
    case 3: w = {a <= n && b <= n - a, a, b}; return {.start = a, .count = b};
    case 4: w = {b <= n, 0, b}; return {.end = b};
    case 5: w = {b < n, 0, b + 1}; return {.including_end = b};
    default: w = {b <= n, 0, b}; return {.count = b};
  }
}
W(try_compute_count) {
  vp_no_crash(true);
  size_t n = any<size_t>("n"); Want w;
  auto b = form(n, w);
  auto r = b.try_compute_count(n);
  MUST(r.has_value() == w.ok, "bounds are accepted exactly when they lie within the length");
  if (w.ok) { MUST(*r == w.count, "count of the bounds"); REACH("ok"); } else REACH("rejected");
}
W(compute_count_ok) {
  vp_no_crash(true);
  size_t n = any<size_t>("n"); Want w;
  auto b = form(n, w);
  vp_assume(w.ok);
  MUST(b.compute_count(n) == w.count, "count of the bounds");
  REACH("ok");
}
W(compute_count_bad) {
  size_t n = any<size_t>("n"); Want w;
  auto b = form(n, w);
  vp_assume(!w.ok);
  MUST_CRASH(b.compute_count(n), "out-of-range bounds must crash");
}
W(unbounded) {
  vp_no_crash(true);
  size_t a = any<size_t>("a"), b = any<size_t>("b");
  using O = decltype(best::bounds{}.try_compute_count(0));
  O none{};
  MUST(!best::bounds{.start = a}.try_compute_count(none).has_value(), "no end and no length has no count");
  auto e = best::bounds{.start = a, .end = b}.try_compute_count(none);
  MUST(e.has_value() == (a <= b), "end before start is rejected");
  if (a <= b) MUST(*e == b - a, "count");
  auto c = best::bounds{.start = a, .count = b}.try_compute_count(none);
  MUST(c.has_value() == (b <= (size_t)-1 - a), "start + count must be representable");
  if (c) { MUST(*c == b, "count"); REACH("ok"); }
}

template <class T> static best::span<T> anyspan(size_t& n) {
  n = any<size_t>("n");
  vp_assume(n <= (size_t)1 << 40);
  T* p = (T*)vp_array(n * sizeof(T), alignof(T), "elems");
  return best::span<T>(p, n);
}
struct T12 { int a, b, c; };
template <class T> static void index() {
  vp_no_crash(true);
  size_t n; auto s = anyspan<T>(n); T* p = s.data().raw();
  size_t i = any<size_t>("i");
  auto r = s.at(i);
  MUST(r.has_value() == (i < n), "at() is some exactly for in-range indices");
  if (i < n) {
    MUST(&*r == p + i, "at() designates the element");
    MUST(&s[i] == p + i, "operator[] designates the element");
    REACH("in");
  } else REACH("out");
  auto f = s.first(), l = s.last();
  MUST(f.has_value() == (n != 0) && l.has_value() == (n != 0), "first/last of an empty span are none");
  if (n) MUST(&*f == p && &*l == p + (n - 1), "first and last element");
  MUST(s.is_empty() == (n == 0) && s.size() == n, "size");
}
template <class T> static void index_bad() {
  size_t n; auto s = anyspan<T>(n);
  size_t i = any<size_t>("i"), j = any<size_t>("j");
  vp_assume(i >= n);
  switch (vp_pick(0, 2)) {
    case 0: MUST_CRASH((void)s[i], "out-of-range index must crash"); break;
    case 1: MUST_CRASH(s.swap(i, j), "out-of-range swap must crash"); break;
    case 2: MUST_CRASH(s.swap(j, i), "out-of-range swap must crash"); break;
  }
}
template <class T> static void slice() {
  vp_no_crash(true);
  size_t n; auto s = anyspan<T>(n); T* p = s.data().raw();
  Want w; auto b = form(n, w);
  auto r = s.at(b);
  MUST(r.has_value() == w.ok, "at(bounds) is some exactly for in-range bounds");
  if (!w.ok) { REACH("out"); return; }
  MUST(r->data().raw() == p + w.start && r->size() == w.count, "at(bounds) designates the elements");
  auto q = s[b];
  MUST(q.data().raw() == p + w.start && q.size() == w.count, "operator[](bounds) designates the elements");
  auto u = s.at(best::unsafe("in range"), b);
  MUST(u.data().raw() == p + w.start && u.size() == w.count, "unchecked access designates the same elements");
  REACH("in");
}
template <class T> static void slice_bad() {
  size_t n; auto s = anyspan<T>(n);
  Want w; auto b = form(n, w);
  vp_assume(!w.ok);
  MUST_CRASH((void)s[b], "out-of-range slice must crash");
}
template <class T> static void splits() {
  vp_no_crash(true);
  size_t n; auto s = anyspan<T>(n); T* p = s.data().raw();
  size_t i = any<size_t>("i");
  switch (vp_pick(0, 7)) {
    case 0: {
      auto r = s.split_at(i);
      MUST(r.has_value() == (i <= n), "split_at is some exactly up to the length");
      if (r) { MUST((*r)[0].data().raw() == p && (*r)[0].size() == i, "split_at prefix"); MUST((*r)[1].data().raw() == p + i && (*r)[1].size() == n - i, "split_at rest"); REACH("split"); }
      break; }
    case 1: {
      auto t = s; auto r = t.take_first(i);
      MUST(r.has_value() == (i <= n), "take_first is some exactly up to the length");
      if (r) { MUST(r->data().raw() == p && r->size() == i && t.data().raw() == p + i && t.size() == n - i, "take_first"); REACH("takef"); }
      else MUST(t.data().raw() == p && t.size() == n, "failed take_first leaves the span alone");
      break; }
    case 2: {
      auto t = s; auto r = t.take_last(i);
      MUST(r.has_value() == (i <= n), "take_last is some exactly up to the length");
      if (r) { MUST(r->data().raw() == p + (n - i) && r->size() == i && t.data().raw() == p && t.size() == n - i, "take_last"); REACH("takel"); }
      else MUST(t.data().raw() == p && t.size() == n, "failed take_last leaves the span alone");
      break; }
    case 3: {
      auto r = s.split_first();
      MUST(r.has_value() == (n > 0), "split_first of an empty span is none");
      if (r) { MUST(&r->first() == p && r->second().data().raw() == p + 1 && r->second().size() == n - 1, "split_first"); REACH("sf"); }
      break; }
    case 4: {
      auto r = s.split_last();
      MUST(r.has_value() == (n > 0), "split_last of an empty span is none");
      if (r) { MUST(&r->first() == p + (n - 1) && r->second().data().raw() == p && r->second().size() == n - 1, "split_last"); REACH("sl"); }
      break; }
    case 5: {
      auto r = s.split_first(best::index<3>);
      MUST(r.has_value() == (n >= 3), "split_first<3> needs three elements");
      if (r) { MUST(r->first().data().raw() == p && r->first().size() == 3 && r->second().data().raw() == p + 3 && r->second().size() == n - 3, "split_first<3>"); REACH("sf3"); }
      break; }
    case 6: {
      auto r = s.split_last(best::index<3>);
      MUST(r.has_value() == (n >= 3), "split_last<3> needs three elements");
      if (r) { MUST(r->first().data().raw() == p + (n - 3) && r->first().size() == 3 && r->second().data().raw() == p && r->second().size() == n - 3, "split_last<3>"); REACH("sl3"); }
      break; }
    case 7: {
      auto f = s.first(best::index<2>); auto l = s.last(best::index<2>);
      MUST(f.has_value() == (n >= 2) && l.has_value() == (n >= 2), "first<2>/last<2> need two elements");
      if (f) { MUST(f->data().raw() == p && l->data().raw() == p + (n - 2), "first<2>/last<2>"); REACH("fl2"); }
      break; }
  }
}
#define EACH(F) W(F##_char) { F<char>(); } W(F##_int) { F<int>(); } W(F##_t12) { F<T12>(); }
EACH(index) EACH(index_bad) EACH(slice) EACH(slice_bad) EACH(splits)

// static extents
W(static_slice) {
  vp_no_crash(true);
  static int a[5];
  best::span<int, 5> s(a);
  size_t i = any<size_t>("i");
  MUST(s.at(i).has_value() == (i < 5), "at() of a static span");
  if (i < 5) { MUST(&s[i] == a + i, "operator[] of a static span"); REACH("in"); }
  Want w; auto b = form(5, w);
  auto r = s.at(b);
  MUST(r.has_value() == w.ok, "at(bounds) of a static span");
  if (r) MUST(r->data().raw() == a + w.start && r->size() == w.count, "slice of a static span");
  auto m = s[best::vals<best::bounds{.start = 1, .count = 3}>];
  MUST(m.data().raw() == a + 1 && m.size() == 3, "compile-time bounds");
  MUST(&s[best::index<4>] == a + 4, "compile-time index");
}
W(static_slice_bad) {
  static int a[5];
  best::span<int, 5> s(a);
  if (vp_split(any<bool>("which"))) { size_t i = any<size_t>("i"); vp_assume(i >= 5); MUST_CRASH((void)s[i], "out-of-range index of a static span must crash"); }
  else { Want w; auto b = form(5, w); vp_assume(!w.ok); MUST_CRASH((void)s[b], "out-of-range slice of a static span must crash"); }
}
W(static_ctor) {
  size_t n; auto s = anyspan<int>(n);
  vp_no_crash(n == 4);
  best::span<int, 4> t(s.data(), n);
  MUST(n == 4, "a static-extent span refuses a pointer and length of another size");
  MUST(t.data().raw() == s.data().raw(), "static span designates the elements");
  best::span<int, 4> u(s);
  REACH("made");
}
W(static_ctor_range) {
  size_t n; auto s = anyspan<int>(n);
  vp_assume(n != 4);
  MUST_CRASH((best::span<int, 4>(s)), "a static-extent span refuses a range of another size");
}
// vectors and arrays forward to the same accesses
W(vec_index) {
  size_t n = vp_pick(0, 4);
  best::vec<int> v;
  for (size_t i = 0; i < n; ++i) v.push((int)i * 3);
  size_t i = any<size_t>("i");
  vp_no_crash(true);
  auto r = v.at(i);
  MUST(r.has_value() == (i < n), "vec::at() is some exactly for in-range indices");
  if (i < n) { MUST(&*r == v.data().raw() + i && v[i] == (int)i * 3, "vec element"); REACH("in"); }
  Want w; auto b = form(n, w);
  auto q = v.at(b);
  MUST(q.has_value() == w.ok, "vec::at(bounds)");
  if (q) { MUST(q->data().raw() == v.data().raw() + w.start && q->size() == w.count, "vec slice"); MUST(v[b].size() == w.count, "vec slice"); }
}
W(vec_index_bad) {
  size_t n = vp_pick(0, 3);
  best::vec<int> v;
  for (size_t i = 0; i < n; ++i) v.push((int)i * 3);
  if (vp_split(any<bool>("which"))) { size_t i = any<size_t>("i"); vp_assume(i >= n); MUST_CRASH((void)v[i], "out-of-range vec index must crash"); }
  else { Want w; auto b = form(n, w); vp_assume(!w.ok); MUST_CRASH((void)v[b], "out-of-range vec slice must crash"); }
}
// iterating an int range visits every integer in order
template <class I> static void iterate() {
  vp_no_crash(true);
  I a = any<I>("a"); size_t k = vp_pick(0, 4);
  vp_assume(a <= (I)(std::numeric_limits<I>::max() - (I)k));
  I e = a + (I)k;
  best::int_range<I> r = {.start = a};
  switch (vp_pick(0, 2)) { case 0: r.end = e; break; case 1: r.count = (I)k; break; case 2: vp_assume(k > 0); r.including_end = (I)(e - 1); break; }
  if (vp_split(any<bool>("back"))) {
    auto it = r.iter(); I want = e; size_t seen = 0;
    while (auto x = it.next_back()) { --want; ++seen; MUST(*x == want, "iterates in reverse order"); MUST(seen <= k, "visits no more than the range"); }
    MUST(seen == k, "visits the whole range"); REACH("back");
  } else {
    I want = a; size_t seen = 0;
    for (I x : r) { MUST(x == want, "iterates in order"); ++want; ++seen; MUST(seen <= k, "visits no more than the range"); }
    MUST(seen == k, "visits the whole range"); REACH("fwd");
  }
}
W(iterate_u8) { iterate<uint8_t>(); }
W(iterate_size) { iterate<size_t>(); }
W(iterate_i32) { iterate<int32_t>(); }
W(iterate_all_u8) {
  vp_no_crash(true);
  size_t seen = 0;
  for (uint8_t x : best::int_range<uint8_t>{}) { MUST(x == (uint8_t)seen, "iterates in order"); ++seen; }
  MUST(seen == 256, "the unbounded range visits every integer"); REACH("all");
}
W(wrapping) { vp_no_crash(true); size_t st = any<size_t>("s"), e = any<size_t>("e"), mx = any<size_t>("m"); best::bounds b; b.start = st; size_t want; 
  switch (vp_pick(0, 3)) { case 0: b.end = e; want = e - st; break; case 1: b.including_end = e; want = e - st + 1; break; case 2: b.count = e; want = e; break; default: want = mx - st; }
  auto n = b.wrapping_normalize(mx); MUST(n.start == st && n.count == want && !n.end && !n.including_end, "wrapping_normalize keeps the start and computes the count modulo 2^64"); REACH("done"); }
CONTROL(off_by_one) { size_t n; auto s = anyspan<int>(n); size_t i = any<size_t>("i"); auto r = s.at(i); MUST(r.has_value() == (i <= n), "control"); }
CONTROL(no_crash_expected) { size_t n; auto s = anyspan<int>(n); vp_no_crash(true); (void)s[any<size_t>("i")]; }
