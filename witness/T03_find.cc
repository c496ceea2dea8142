// T03: searching, splitting and stripping text by rune, string (in any encoding) or predicate agree with their definitions.
#include "textsup.h"
#include <string_view>
// Patterns: how many runes they match, and whether they match at rune i.
template <class E> struct PR { Txt<E, 1> d; static constexpr size_t len = 1; PR() : d("d", 1) {} template <class H> bool match(const H& h, size_t i) const { return h.same(i, d, 0); } template <class H> void link(const H& h) const { h.link(d); } auto pat() const { return *rune::from_int(d.r[0]); } };
struct PP { uint32_t lim; static constexpr size_t len = 1; template <class H> bool match(const H& h, size_t i) const { return h.r[i] < lim; } template <class H> void link(const H&) const {} auto pat() const { return [lim = lim](rune r) { return r.to_int() < lim; }; } };
template <class F, size_t M, bool Pre = false> struct PT { Txt<F, M> d; size_t len; PT() : d("d", 1), len(d.k) {} template <class H> bool match(const H& h, size_t i) const { for (size_t j = 0; j < len; ++j) if (!h.same(i + j, d, j)) return false; return true; } template <class H> void link(const H& h) const { h.link(d); } auto pat() const { if constexpr (Pre) return d.pre(); else return d.text(); } };
static PP pp() { return {any<uint32_t>("lim")}; }
static constexpr size_t No = -1;
template <class H, class P> static size_t ffind(const H& h, const P& p, size_t from = 0, size_t to = No) { if (to == No) to = h.k; for (size_t i = from; i + p.len <= to; ++i) if (p.match(h, i)) return i; return No; }
template <class H, class P> static size_t rrfind(const H& h, const P& p, size_t to) { for (size_t i = to; i-- > 0;) if (i + p.len <= to && p.match(h, i)) return i; return No; }
template <bool Pre, class H> static auto hay(const H& h) { if constexpr (Pre) return h.pre(); else return h.text(); }
template <class E, size_t N, bool Pre, class P> static void find(P p) {
  vp_no_crash(true); Txt<E, N> h; p.link(h); auto t = hay<Pre>(h); auto q = p.pat(); size_t e = ffind(h, p), l = rrfind(h, p, h.k);
  auto f = t.find(q); MUST(f.has_value() == (e != No), "find succeeds exactly when the pattern occurs"); if (f) { MUST(*f == h.at[e], "find gives the first occurrence"); REACH("found"); } else REACH("absent");
  MUST(t.contains(q) == (e != No), "contains agrees with find");
  auto g = t.rfind(q); MUST(g.has_value() == (e != No), "rfind succeeds exactly when the pattern occurs"); if (g) MUST(*g == h.at[l], "rfind gives the last occurrence");
}
template <class E, size_t N, bool Pre, class P> static void once(P p) {
  vp_no_crash(true); Txt<E, N> h; p.link(h); auto t = hay<Pre>(h); auto q = p.pat(); size_t e = ffind(h, p), l = rrfind(h, p, h.k);
  auto s = t.split_once(q); MUST(s.has_value() == (e != No), "split_once succeeds exactly when the pattern occurs"); if (s) { size_t z = h.at[e + p.len]; MUST(is(s->first(), h.p, h.at[e]) && is(s->second(), h.p + z, h.n - z), "split_once gives what is before and after the first occurrence"); REACH("found"); } else REACH("absent");
  auto r = t.rsplit_once(q); MUST(r.has_value() == (e != No), "rsplit_once succeeds exactly when the pattern occurs"); if (r) { size_t z = h.at[l + p.len]; MUST(is(r->first(), h.p, h.at[l]) && is(r->second(), h.p + z, h.n - z), "rsplit_once gives what is before and after the last occurrence"); }
}
template <class E, size_t N, bool Pre, class P> static void ends(P p) {
  vp_no_crash(true); Txt<E, N> h; p.link(h); auto t = hay<Pre>(h); auto q = p.pat(); bool a = p.len <= h.k && p.match(h, 0), b = p.len <= h.k && p.match(h, h.k - p.len);
  MUST(t.starts_with(q) == a && t.ends_with(q) == b, "starts_with/ends_with"); size_t x = a ? h.at[p.len] : 0, y = b ? h.at[h.k - p.len] : 0;
  auto s = t.strip_prefix(q); MUST(s.has_value() == a, "strip_prefix succeeds exactly when the text starts with the pattern"); if (s) { MUST(is(*s, h.p + x, h.n - x), "strip_prefix gives the rest"); REACH("pre"); }
  auto r = t.strip_suffix(q); MUST(r.has_value() == b, "strip_suffix succeeds exactly when the text ends with the pattern"); if (r) { MUST(is(*r, h.p, y), "strip_suffix gives the rest"); REACH("suf"); }
  auto c = t; MUST(c.consume_prefix(q) == a, "consume_prefix"); if (a) MUST(is(c, h.p + x, h.n - x), "consume_prefix removes the pattern"); else MUST(is(c, h.p, h.n), "a failed consume changes nothing");
  auto d = t; MUST(d.consume_suffix(q) == b, "consume_suffix"); if (b) MUST(is(d, h.p, y), "consume_suffix removes the pattern"); else MUST(is(d, h.p, h.n), "a failed consume changes nothing");
}
template <class E, size_t N, bool Pre, class P> static void split(P p) {
  vp_no_crash(true); Txt<E, N> h; p.link(h); auto t = hay<Pre>(h); auto q = p.pat(); auto it = t.split(q); size_t from = 0; 
  for (;;) { size_t e = ffind(h, p, from); auto s = it.next(); size_t z = e == No ? h.n : h.at[e]; MUST(s.has_value() && is(*s, h.p + h.at[from], z - h.at[from]), "split gives the pieces in order"); if (e == No) break; from = e + p.len; REACH("piece"); }
  MUST(!it.next() && !it.next(), "split ends after the last piece"); REACH("done");
}
template <class P> static auto mksplit(best::text<utf8> t, P p) { return t.split(p.pat()); }
W(split_temp) { vp_no_crash(true); PP p = pp(); Txt<utf8, 2> h; auto it = mksplit(h.text(), p); size_t from = 0; for (;;) { size_t e = ffind(h, p, from); auto s = it.next(); size_t z = e == No ? h.n : h.at[e]; MUST(s.has_value() && is(*s, h.p + h.at[from], z - h.at[from]), "a split iterator owns its predicate"); if (e == No) break; from = e + 1; } REACH("done"); }
W(empty) { vp_no_crash(true); Txt<utf8, 2> h; Txt<utf8, 1> d; vp_assume(d.k == 0); auto t = h.text(); auto q = d.text(); MUST(*t.find(q) == 0 && t.contains(q), "the empty string occurs at the start"); MUST(*t.rfind(q) == h.n, "the empty string occurs at the end"); auto s = t.split_once(q); MUST(s && is(s->first(), h.p, 0) && is(s->second(), h.p, h.n), "splitting at the empty string"); auto r = t.rsplit_once(q); MUST(r && is(r->first(), h.p, h.n) && is(r->second(), h.p + h.n, 0), "splitting at the last empty string"); MUST(t.starts_with(q) && t.ends_with(q) && is(*t.strip_prefix(q), h.p, h.n) && is(*t.strip_suffix(q), h.p, h.n), "the empty string is a prefix and a suffix"); REACH("done"); }
// Text stays well-formed whatever it is split by.
static bool wf(const best::text<utf8>& t, const Txt<utf8, 1>& h) { return h.boundary(t.data() - h.p) && h.boundary(t.data() - h.p + t.size()); }
W(valid) { vp_no_crash(true); Txt<utf8, 1> h; char b[2]; vp_bytes(b, 2, "b"); size_t n = vp_pick(1, 2); best::pretext<utf8> d(best::span<const char>(b, n)); auto t = h.text();
  if (auto s = t.strip_prefix(d)) { MUST(wf(*s, h), "stripping keeps text well-formed"); REACH("pre"); } if (auto s = t.strip_suffix(d)) { MUST(wf(*s, h), "stripping keeps text well-formed"); REACH("suf"); }
  if (auto s = t.split_once(d)) { MUST(wf(s->first(), h) && wf(s->second(), h), "splitting keeps text well-formed"); REACH("once"); } if (auto s = t.rsplit_once(d)) { MUST(wf(s->first(), h) && wf(s->second(), h), "splitting keeps text well-formed"); } REACH("done"); }
W(valid_split) { vp_no_crash(true); Txt<utf8, 1> h; char b[2]; vp_bytes(b, 2, "b"); size_t n = vp_pick(1, 2); best::pretext<utf8> d(best::span<const char>(b, n)); auto it = h.text().split(d); while (auto s = it.next()) MUST(wf(*s, h), "splitting keeps text well-formed"); REACH("done"); }
#define OPS(nm, E, N, Pre, mkp) W(find_##nm) { find<E, N, Pre>(mkp); } W(once_##nm) { once<E, N, Pre>(mkp); } W(ends_##nm) { ends<E, N, Pre>(mkp); } W(split_##nm) { split<E, N, Pre>(mkp); }
OPS(rune8, utf8, 2, false, PR<utf8>()) OPS(rune16, utf16, 2, false, PR<utf16>()) OPS(rune32, utf32, 2, false, PR<utf32>()) OPS(runeascii, ascii, 2, false, PR<ascii>()) OPS(otherascii, ascii, 1, false, PR<utf32>()) OPS(rune8p, utf8, 2, true, PR<utf8>()) OPS(rune1p, latin1, 2, true, PR<latin1>()) OPS(other1p, latin1, 1, true, PR<utf32>())
OPS(pred8, utf8, 2, false, pp()) OPS(pred16, utf16, 2, false, pp()) OPS(pred8p, utf8, 2, true, pp())
typedef PT<utf8, 1> T8; typedef PT<ascii, 2> TA; typedef PT<utf16, 1> T16; typedef PT<latin1, 2> T1; typedef PT<utf32, 2> T32; typedef PT<utf8, 1, true> T8p;
OPS(t8, utf8, 2, false, T8()) OPS(t8p, utf8, 2, true, T8p()) OPS(t16, utf16, 2, false, T16()) OPS(ta, ascii, 3, false, TA()) OPS(t32, utf32, 2, true, T32())
OPS(x8_16, utf8, 2, false, T16()) OPS(x16_8, utf16, 2, false, T8()) OPS(x32_a, utf32, 2, false, TA()) OPS(x8_1, utf8, 2, false, (PT<latin1, 1>())) OPS(x1_8, latin1, 2, true, T8p()) OPS(xa_32, ascii, 2, false, T32())
CONTROL(v) { Txt<utf8, 2> h; PR<utf8> p; auto f = h.text().find(p.pat()); MUST(!f || *f == 0, "control"); }
