// F01: formatting prints exactly the text that the template and the specs call for.
#include "vecsup.h"
#include "textsup.h"
#include "best/text/format.h"
// What should be printed.
struct Want {
  char c[400]; size_t n = 0;
  void b(char x) { c[n++] = x; }
  void s(const char* p) { for (; *p; ++p) b(*p); }
  void r(uint32_t v) { n += refenc<utf8>(v, c + n); }
  void is(const best::strbuf& o) const { MUST(o.size() == n, "as much is printed as should be"); for (size_t i = 0; i < n; ++i) MUST(o.data()[i] == c[i], "what is printed is what should be"); }
};
using spec = best::format_spec;
// Formats a value with a spec that is not known at compile time.
template <class T> struct With { const spec& s; const T& v; friend void BestFmt(auto& f, const With& w) { f.format(w.s, w.v); } };
template <class T> static best::strbuf show(const spec& s, const T& v) { return best::format("{:?}", With<T>{s, v}); }
// The digits of a value, most significant first.
struct Digits { char c[64]; size_t n = 0; bool neg = false; };
template <class T> static Digits digits(T v, unsigned base, bool up) {
  Digits d; uint64_t m = v; if (v < 0) { d.neg = true; m = -m; } char t[64]; size_t n = 0;
  do { unsigned x = m % base; t[n++] = x < 10 ? '0' + x : (up ? 'A' : 'a') - 10 + x; m /= base; } while (m != 0);
  for (size_t i = 0; i < n; ++i) d.c[i] = t[n - 1 - i]; d.n = n; return d;
}
template <class T> static void num() {
  vp_no_crash(true); T v = any<T>("v"); Want w; Digits d = digits(v, 10, false); if (d.neg) w.b('-'); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); w.is(best::format("{}", v)); REACH("done");
}
W(u8) { num<uint8_t>(); } W(i8) { num<int8_t>(); } W(u16) { num<uint16_t>(); } W(i16) { num<int16_t>(); } W(u32) { num<uint32_t>(); } W(i32) { num<int32_t>(); } W(u64) { num<uint64_t>(); } W(i64) { num<int64_t>(); }
// A spec with arbitrary flags, and a width of 0, lo or hi.
static spec anyspec(size_t lo, size_t hi) {
  spec s; s.alt = vp_pick(0, 1); size_t i = lo ? vp_pick(0, 2) : vp_pick(0, 1) * 2; s.width = i == 0 ? 0 : i == 1 ? lo : hi;
  switch (vp_pick(0, 4)) { case 1: s.alignment = spec::Left; break; case 2: s.alignment = spec::Center; break; case 3: s.alignment = spec::Right; break; case 4: s.sign_aware_padding = true; }
  s.fill = *rune::from_int(any<uint32_t>("fill") & 0x7f); return s;
}
// Text of n runes, padded as the spec says.
template <class F> static void pad(Want& w, const spec& s, size_t n, spec::align def, F body) {
  size_t p = s.width > n ? s.width - n : 0; auto a = s.alignment.value_or(def); size_t l = a == spec::Left ? 0 : a == spec::Right ? p : p / 2;
  for (size_t i = 0; i < l; ++i) w.r(s.fill.to_int()); body(); for (size_t i = l; i < p; ++i) w.r(s.fill.to_int());
}
template <class T> static void num(char method, size_t lo, size_t hi) {
  vp_no_crash(true); T v = any<T>("v"); spec s = anyspec(lo, hi); if (method != 'd') s.method = *rune::from_int(method);
  unsigned base = method == 'b' ? 2 : method == 'o' ? 8 : method == 'd' ? 10 : 16; const char* pre = !s.alt || method == 'd' ? "" : method == 'b' ? "0b" : method == 'o' ? "0" : "0x";
  Digits d = digits(v, base, method == 'X'); size_t n = d.n + d.neg; for (const char* q = pre; *q; ++q) ++n; Want w;
  auto head = [&] { if (d.neg) w.b('-'); w.s(pre); }; auto tail = [&] { for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); };
  if (s.sign_aware_padding) { head(); for (; n < s.width; ++n) w.b('0'); tail(); } else pad(w, s, n, spec::Right, [&] { head(); tail(); });
  w.is(show(s, v)); REACH("done");
}
#define NUM(T) W(dec_##T) { num<T>('d', 3, 6); } W(hex_##T) { num<T>('x', 2, 7); } W(HEX_##T) { num<T>('X', 4, 6); } W(oct_##T) { num<T>('o', 3, 6); } W(bin_##T) { num<T>('b', 0, 7); }
NUM(int8_t) NUM(uint8_t)
// Strings: the precision is the most runes that are printed, the width the least.
template <class E, size_t N> static void str(bool pre, bool prec = false) {
  vp_no_crash(true); Txt<E, N> t; spec s; size_t k = t.k;
  if (prec) switch (vp_pick(1, 2)) { case 1: s.prec = uint32_t(vp_pick(0, N + 1)); if (*s.prec < k) k = *s.prec; break; case 2: s.prec = uint32_t(-1); }
  switch (vp_pick(0, prec ? 1 : 2)) { case 1: s.width = N + 2; break; case 2: s.width = N; }
  if (s.width) switch (vp_pick(0, 3)) { case 1: s.alignment = spec::Left; break; case 2: s.alignment = spec::Center; break; case 3: s.alignment = spec::Right; break; }
  s.fill = *rune::from_int(any<uint32_t>("fill") & 0x7f); Want w;
  pad(w, s, k, spec::Left, [&] { for (size_t i = 0; i < k; ++i) w.r(t.r[i]); });
  if (pre) w.is(show(s, t.pre())); else w.is(show(s, t.text())); REACH("done");
}
#define STR(nm, E, N, pre) W(str_##nm) { str<E, N>(pre); } W(prec_##nm) { str<E, N>(pre, true); }
STR(8, utf8, 2, false) STR(p8, utf8, 1, true) STR(16, utf16, 1, false) STR(32, utf32, 1, false) STR(1, latin1, 2, false) STR(p16, utf16, 1, true)
// Quoting.
static void quoted(Want& w, uint32_t r) {
  static const char esc[] = "\'\"\\", to[] = "abtnvfr"; for (int i = 0; i < 3; ++i) if (vp_split(r == uint32_t(esc[i]))) { w.b('\\'); w.b(esc[i]); return; }
  if (vp_split(r == 0)) { w.s("\\0"); return; }
  if (vp_split(r >= 7 && r <= 13)) { uint32_t x = r; for (int i = 0; i < 7; ++i) if (vp_split(x == 7u + i)) { w.b('\\'); w.b(to[i]); return; } }
  if (vp_split(r < 32 || r == 127)) { w.s("\\x"); w.b('0' + (r >> 4)); uint32_t d = r & 15; w.b(d < 10 ? '0' + d : 'a' - 10 + d); return; }
  if (vp_split(r == 0x200d)) { w.s("\\u200D"); return; }
  w.r(r);
}
W(quote_rune) { vp_no_crash(true); Txt<utf8, 1> t("t", 1); Want w; w.b('\''); quoted(w, t.r[0]); w.b('\''); rune r = *rune::from_int(t.r[0]); w.is(vp_split(vp_pick(0, 1)) ? best::format("{:q}", r) : best::format("{:?}", r)); REACH("done"); }
W(quote_str) { vp_no_crash(true); Txt<utf8, 1> t; Want w; w.b('"'); for (size_t i = 0; i < t.k; ++i) quoted(w, t.r[i]); w.b('"'); w.is(vp_split(vp_pick(0, 1)) ? best::format("{:q}", t.text()) : best::format("{:?}", t.text())); REACH("done"); }
W(rune) { vp_no_crash(true); Txt<utf8, 1> t("t", 1); Want w; w.r(t.r[0]); w.is(best::format("{}", *rune::from_int(t.r[0]))); REACH("done"); }
// Blocks: an entry per line, indented by the depth, with '#'; all on one line without.
struct Pt { int8_t x; const char* y; friend void BestFmt(auto& f, const Pt& p) { auto r = f.record("Pt"); r.field("x", p.x); r.field("y", p.y); } };
struct Tree { const Tree* kid; size_t n; bool tuple; const char* leaf; const char* title; bool one;
  friend void BestFmt(auto& f, const Tree& t) {
    if (t.leaf) { f.write(best::str(*best::str::from_nul(t.leaf))); return; }
    auto b = t.tuple ? f.tuple(*best::str::from_nul(t.title)) : f.list(*best::str::from_nul(t.title)); if (t.one) b.advise_size(t.n);
    for (size_t i = 0; i < t.n; ++i) b.entry(t.kid[i]);
  } };
struct Pretty { Want w; bool nl = false; size_t ind = 0; bool alt;
  void b(char c) { if (c == '\n') { w.b(c); nl = true; return; } if (nl) { nl = false; for (size_t i = 0; i < ind; ++i) w.s("  "); } w.b(c); }
  void s(const char* p) { for (; *p; ++p) b(*p); }
  void tree(const Tree& t) {
    if (t.leaf) { s(t.leaf); return; }
    if (*t.title) { s(t.title); b(' '); } bool lines = alt && !(t.one && t.n == 1); b(t.tuple ? '(' : '['); if (lines) ++ind;
    for (size_t i = 0; i < t.n; ++i) { if (i) b(','); if (lines) b('\n'); else if (i) b(' '); tree(t.kid[i]); }
    if (lines) { if (t.n) s(",\n"); --ind; } b(t.tuple ? ')' : ']');
  } };
static Tree leaf(size_t n) { static const char* l[] = {"", "a\nbc", "a\n\n", "ab", "\n", "\n\nb"}; return {nullptr, 0, false, l[vp_pick(0, n)], nullptr, false}; }
static void blocks(size_t depth) {
  vp_no_crash(true); Tree in[2] = {leaf(depth == 2 ? 2 : 5), {nullptr, 0, false, "q", nullptr, false}}, mid[2] = {{nullptr, 0, false, "m\nn", nullptr, false}, {in, vp_pick(0, 2), bool(vp_pick(0, 1)), nullptr, vp_pick(0, 1) ? "T" : "", bool(vp_pick(0, 1))}};
  Tree t = mid[1]; if (depth == 2) { size_t n = vp_pick(1, 2); t = {mid + 2 - n, n, false, nullptr, "", bool(vp_pick(0, 1))}; }
  Pretty p; p.alt = depth == 2 || vp_pick(0, 1); p.tree(t); spec s; s.alt = p.alt; s.debug = true; p.w.is(show(s, t)); REACH("done");
}
W(blocks_1) { blocks(1); } W(blocks_2) { blocks(2); }
W(record) {
  vp_no_crash(true); Pt p{5, "ab"}; bool alt = vp_pick(0, 1), dbg = vp_pick(0, 1); spec s; s.alt = alt; s.debug = dbg; Want w;
  w.s("Pt {"); w.s(alt ? "\n  " : ""); w.s("x: 5,"); w.s(alt ? "\n  " : " "); w.s("y: "); w.s(dbg ? "\"ab\"" : "ab"); w.s(alt ? ",\n}" : "}"); w.is(show(s, p)); REACH("done");
}
// Templates: the grammar, over every short replacement field.
struct Ev { bool ok; size_t idx; spec s; };
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool parse(const char* p, const char* e, Ev& v) {  // between the braces
  auto num = [&](uint32_t& n) { if (p == e || !vp_split(dig(*p))) return false; n = 0; while (p != e && vp_split(dig(*p))) n = n * 10 + (*p++ - '0'); return true; };
  auto eat = [&](char c) { if (p != e && vp_split(*p == c)) { ++p; return true; } return false; };
  uint32_t n; v.idx = 0; v.s = spec(); if (num(n)) v.idx = n; if (p == e) return true; if (!eat(':')) return false; if (p == e) return true;
  if (eat('!')) { v.s.pass_through = v.s.debug = true; return p == e; }
  auto al = [&](const char* q) { if (q >= e) return -1; if (vp_split(*q == '<')) return 0; if (vp_split(*q == '^')) return 1; if (vp_split(*q == '>')) return 2; return -1; };
  bool a = false; if (int k = al(p + 1); k >= 0) { v.s.fill = *rune::from_int(*p); v.s.alignment = spec::align(k); p += 2; a = true; } else if (k = al(p); k >= 0) { v.s.alignment = spec::align(k); ++p; a = true; }
  if (eat('#')) v.s.alt = true; if (eat('0')) { if (a) return false; v.s.sign_aware_padding = true; }
  if (num(n)) { if (n == 0) return false; v.s.width = n; } else if (a || v.s.sign_aware_padding) return false;
  if (eat('.')) { if (!num(n)) n = 0; v.s.prec = n; }
  if (p != e && vp_split((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'))) v.s.method = *rune::from_int(*p++);
  if (eat('?')) v.s.debug = true; return p == e;
}
template <size_t N> static void field() {
  vp_no_crash(true); char b[N + 2]; vp_bytes(b, N, "t"); char buf[N + 4]; size_t n = vp_pick(N ? 1 : 0, N); buf[0] = '{'; for (size_t i = 0; i < n; ++i) { vp_assume(b[i] > 0 && b[i] != '{' && b[i] != '}'); buf[i + 1] = b[i]; } buf[n + 1] = '}';
  Ev w, g; w.ok = parse(buf + 1, buf + n + 1, w); size_t calls = 0;
  g.ok = best::format_internal::visit_template(static_cast<const char*>(buf), n + 2, [&](best::str) { ++calls; return true; }, [&](size_t i, const spec& s) { ++calls; g.idx = i; g.s = s; return true; });
  MUST(g.ok == w.ok, "exactly the replacement fields of the grammar are accepted"); if (!w.ok) { REACH("rejected"); return; }
  MUST(calls == 1 && g.idx == w.idx, "a field refers to the argument it names"); MUST(g.s == w.s, "a field has the spec it spells out"); REACH("accepted");
}
W(field_1) { field<1>(); } W(field_2) { field<2>(); } W(field_3) { field<3>(); } W(field_4) { field<4>(); } W(field_5) { field<5>(); } W(field_6) { field<6>(); } W(field_7) { field<7>(); }
W(template) {  // text and fields, in order; fields without a number count up
  vp_no_crash(true); char buf[40], want[40]; size_t n = 0, m = 0, idx = 0; bool ok = true, brace = false;
  for (size_t k = vp_pick(0, 4); k--;) {
    auto put = [&](const char* p) { while (*p) buf[n++] = *p++; }; auto arg = [&](size_t i, char c) { if (ok) { want[m++] = '<'; want[m++] = '0' + i; want[m++] = c; } };
    switch (vp_pick(0, 8)) {
      case 0: put("ab"); if (ok) { want[m++] = 'a'; want[m++] = 'b'; } break; case 1: put("{{"); if (ok) want[m++] = '{'; break; case 2: put("}}"); if (ok) want[m++] = '}'; break;
      case 3: put("{}"); arg(idx++, '-'); break; case 4: put("{2}"); arg(2, '-'); break; case 5: put("{:?}"); arg(idx++, '?'); break; case 6: put("{:!}"); arg(idx++, '!'); break; case 7: put("{3:!}"); arg(3, '!'); break; case 8: put("{:x}"); arg(idx++, 'x'); break;
    }
  }
  switch (vp_pick(0, 2)) { case 1: buf[n++] = '{'; ok = false; break; case 2: buf[n++] = '}'; ok = false; break; }
  (void)brace; char got[40]; size_t g = 0;
  bool r = best::format_internal::visit_template(static_cast<const char*>(buf), n, [&](best::str t) { for (size_t i = 0; i < t.size(); ++i) got[g++] = t.data()[i]; return true; }, [&](size_t i, const spec& s) { got[g++] = '<'; got[g++] = '0' + i; got[g++] = s.pass_through ? '!' : s.debug ? '?' : s.method ? 'x' : '-'; return true; });
  MUST(r == ok, "exactly well-formed templates are accepted"); if (!ok) { REACH("rejected"); return; }
  MUST(g == m, "text and fields are visited in order"); for (size_t i = 0; i < m; ++i) MUST(got[i] == want[i], "text and fields are visited in order"); REACH("accepted");
}
W(args) {  // each field prints the argument it names; {:!} prints with the spec in force
  vp_no_crash(true); int8_t a = any<int8_t>("a"); uint8_t b = any<uint8_t>("b"); Want w; auto put = [&](Digits d) { if (d.neg) w.b('-'); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); };
  w.s("x"); put(digits(b, 16, false)); w.s("{"); put(digits(a, 10, false)); w.s(" "); put(digits(b, 10, false)); w.s("}"); put(digits(a, 2, false));
  w.is(best::format("x{1:x}{{{} {}}}{0:b}", a, b)); REACH("done");
}
struct Mix { uint8_t v; friend void BestFmt(auto& f, const Mix& x) { f.format("{:x}|{:!}|{:q}|{:!}", x.v, x.v, "q", x.v); } friend constexpr void BestFmtQuery(auto& q, Mix*) { q = q.template of<uint8_t>; } };
struct Seq { uint8_t v; friend void BestFmt(auto& f, const Seq& x) { spec s; s.method = rune('x'); auto l = f.list(); l.entry(x.v).entry(s, x.v).entry(x.v); l.pair(x.v, x.v).pair(s, x.v, s, x.v).pair(x.v, x.v); l.finish(); f.format(x.v); } friend constexpr void BestFmtQuery(auto& q, Seq*) { q = q.template of<uint8_t>; } };
W(restore) {  // each spec is in force for its value only
  vp_no_crash(true); uint8_t v = any<uint8_t>("v"); Digits d = digits(v, 10, false), x = digits(v, 16, false), o = digits(v, 8, false); Want w; auto put = [&](Digits& d) { for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); };
  bool oct = vp_pick(0, 1); Digits& n = oct ? o : d;
  if (vp_pick(0, 1)) { put(x); w.b('|'); put(n); w.s("|\"q\"|"); put(n); w.is(oct ? best::format("{:o}", Mix{v}) : best::format("{}", Mix{v})); }
  else { w.b('['); put(n); w.s(", "); put(x); w.s(", "); put(n); w.s(", "); put(n); w.s(": "); put(n); w.s(", "); put(x); w.s(": "); put(x); w.s(", "); put(n); w.s(": "); put(n); w.b(']'); put(n); w.is(oct ? best::format("{:o}", Seq{v}) : best::format("{}", Seq{v})); }
  REACH("done");
}
struct Fwd { uint8_t v; friend void BestFmt(auto& f, const Fwd& x) { f.format("<{:!}|{}|{:!}>", x.v, x.v, x.v); } friend constexpr void BestFmtQuery(auto& q, Fwd*) { q = q.template of<uint8_t>; } };
W(forward) { vp_no_crash(true); uint8_t v = any<uint8_t>("v"); Digits d = digits(v, 10, false), x = digits(v, 16, true); Want w; auto put = [&](Digits& d) { for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); }; w.b('<'); put(x); w.b('|'); put(d); w.b('|'); put(x); w.b('>'); w.is(best::format("{:X}", Fwd{v})); REACH("done"); }
W(append) { vp_no_crash(true); { best::strbuf b; b.push(best::str("ab")); uint8_t v = any<uint8_t>("v"); Digits d = digits(v, 10, false); Want w; w.s("ab"); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); best::format(b, "{}", v); w.is(b); REACH("done"); } MUST(vp_heap_live() == 0, "all memory is returned"); }
W(bool_) { vp_no_crash(true); bool b = vp_pick(0, 1); Want w; w.s(b ? "true" : "false"); w.is(best::format("{}", b)); REACH("done"); }
W(opt) {
  vp_no_crash(true); best::option<uint8_t> o; Want w; uint8_t v = any<uint8_t>("v"); bool x = vp_pick(0, 1), h = vp_pick(0, 1); if (h) o = v;
  Digits d = digits(v, x ? 16 : 10, false); if (h) { w.s("option("); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); w.b(')'); } else w.s("none"); w.is(x ? best::format("{:x?}", o) : best::format("{:?}", o)); REACH("done");
}
W(res) {
  vp_no_crash(true); bool e = vp_pick(0, 1), x = vp_pick(0, 1); uint8_t v = any<uint8_t>("v"); best::result<uint8_t, int8_t> r = best::ok(v); if (e) r = best::err(int8_t(v)); Want w; Digits d = e ? digits(int8_t(v), x ? 16 : 10, false) : digits(v, x ? 16 : 10, false);
  w.s(e ? "err(" : "ok("); if (d.neg) w.b('-'); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); w.b(')'); w.is(x ? best::format("{:x?}", r) : best::format("{:?}", r)); REACH("done");
}
W(row_) { vp_no_crash(true); uint8_t v = any<uint8_t>("v"); Digits d = digits(v, 10, false); best::row<uint8_t, bool> r(v, true); Want w; bool alt = vp_pick(0, 1); w.s(alt ? "(\n  " : "("); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); w.s(alt ? ",\n  true,\n)" : ", true)"); w.is(alt ? best::format("{:#?}", r) : best::format("{:?}", r)); REACH("done"); }
W(char16) { vp_no_crash(true); char16_t c = any<uint16_t>("c"); Want w; w.r(vp_split(c >= 0xd800 && c < 0xe000) ? 0xfffd : c); w.is(best::format("{}", c)); REACH("done"); }
W(char32) {
  vp_no_crash(true); char32_t c = any<uint32_t>("c"); Want w; if (vp_split(c >= 0xd800 && c < 0xe000)) w.r(0xfffd); else if (vp_split(c < 0x110000)) w.r(c); else vp_assume((c & 0xffff00) == 0 || c < 0x110010);
  if (c >= 0x110000) { Digits d = digits(uint32_t(c), 16, true); w.s("<U+"); for (size_t i = 0; i < d.n; ++i) w.b(d.c[i]); w.b('>'); } w.is(best::format("{}", c)); REACH("done");
}
// Which templates are accepted for which arguments is decided when a use is type-checked.
#define ACC(f) []<class... A>(std::type_identity<A>...) constexpr { return requires(A... a) { best::format(f, a...); }; }
#define YES(f, ...) static_assert(ACC(f)(__VA_ARGS__), "this template fits its arguments: " f)
#define NO(f, ...) static_assert(!ACC(f)(__VA_ARGS__), "this template does not fit its arguments: " f)
template <class T> inline constexpr std::type_identity<T> ty;
struct Plain { int x; friend void BestFmt(auto& f, const Plain& p) { f.write("p"); } friend constexpr void BestFmtQuery(auto& q, Plain*) { q.requires_debug = false; } };
struct Dbg { int x; friend void BestFmt(auto& f, const Dbg& p) { f.write("d"); } };
YES("{}", ty<int>); YES("{:?}", ty<int>); YES("{:x}", ty<int>); YES("{:X}", ty<uint8_t>); YES("{:o}", ty<long>); YES("{:#b}", ty<short>); YES("{:<5}", ty<int>); YES("{:05}", ty<int>); YES("{:!}", ty<int>);
NO("{:q}", ty<int>); NO("{:p}", ty<int>); NO("{:z}", ty<int>); NO("{:.3}", ty<int>); NO("{:05.3}", ty<int>); NO("{:x", ty<int>); NO("{", ty<int>); NO("}", ty<int>); NO("{:0}", ty<int>); NO("{:x5}", ty<int>); NO("{:<}", ty<int>); NO("{:xx}", ty<int>); NO("{:??}", ty<int>);
YES("{}", ty<best::str>); YES("{:?}", ty<best::str>); YES("{:q}", ty<best::str>); YES("{:.3}", ty<best::str>); YES("{:*^9.3?}", ty<best::str>); NO("{:x}", ty<best::str>); NO("{:b}", ty<best::str>); NO("{:p}", ty<best::str>);
YES("{}", ty<bool>); YES("{:5}", ty<bool>); NO("{:x}", ty<bool>); NO("{:.1}", ty<bool>); YES("{:p}", ty<int*>); YES("{}", ty<int*>); NO("{:x}", ty<int*>); NO("{:5}", ty<int*>);
YES("{}", ty<Plain>); YES("{:?}", ty<Plain>); NO("{:5}", ty<Plain>); NO("{:.2}", ty<Plain>); NO("{:x}", ty<Plain>); YES("{:?}", ty<Dbg>); NO("{}", ty<Dbg>); NO("{:5?}", ty<Dbg>);
YES("{} {}", ty<int>, ty<best::str>); YES("{1} {0:x}", ty<int>, ty<best::str>); NO("{0} {1:x}", ty<int>, ty<best::str>); NO("{} {} {}", ty<int>, ty<int>); NO("{2}", ty<int>, ty<int>); YES("{1}{1}", ty<int>, ty<int>); NO("{}", ); YES("", ); YES("{{}}", ); NO("{{}", );
// A record whose second field has a spec of its own.
struct Sp { uint8_t v; friend void BestFmt(auto& f, const Sp& x) { spec s; s.method = rune('x'); auto r = f.record("S"); r.field("a", x.v); r.field("b", s, x.v); r.field("c", x.v); } };
W(field_spec) { vp_no_crash(true); uint8_t v = vp_pick(0, 1) ? 10 : 255; auto t = best::format("{:?}", Sp{v}); best::str want = v == 10 ? best::str("S {a: 10, b: a, c: 10}") : best::str("S {a: 255, b: ff, c: 255}"); MUST(t == want, "each field prints with its own spec, separated"); REACH("done"); }
// A template that ends inside a field is rejected without reading past its end.
W(unterminated) { vp_no_crash(true); static const char full[] = "{0:*<#5.3x?"; constexpr size_t N = sizeof(full) - 1; char b[N]; size_t k = vp_pick(1, N); for (size_t i = 0; i < k; ++i) b[N - k + i] = full[i];
  bool r = best::format_internal::visit_template(static_cast<const char*>(b + N - k), k, [&](best::str) { return true; }, [&](size_t, const spec&) { return true; }); MUST(!r, "a template that ends inside a field is rejected"); REACH("done"); }
CONTROL(v) { uint8_t v = any<uint8_t>("v"); Want w; Digits d = digits(v, 10, false); for (size_t i = d.n; i--;) w.b(d.c[i]); w.is(best::format("{}", v)); }
