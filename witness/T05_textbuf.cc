// T05: a textbuf holds exactly the runes pushed to it, in its encoding, and owns its memory.
#include "vecsup.h"
#include "textsup.h"
#include <string_view>
#include "best/text/strbuf.h"
// What the buffer should hold.
template <class E> struct Want {
  best::code<E> c[64]; size_t n = 0;
  bool rune(uint32_t v) { size_t l = refenc<E>(v, c + n); n += l; return l != 0; }
  void lossy(uint32_t v) { rune(v) || rune(0xfffd) || rune('?'); }
  void raw(const best::code<E>* p, size_t k) { for (size_t i = 0; i < k; ++i) c[n++] = p[i]; }
};
template <class B, class E> static void is(const B& b, const Want<E>& w) {
  MUST(b.size() == w.n && b.is_empty() == (w.n == 0) && b.capacity() >= w.n, "the size is that of what was pushed");
  for (size_t i = 0; i < w.n; ++i) MUST(b.data()[i] == w.c[i], "the contents are what was pushed");
  auto t = b.as_text(); MUST(t.data() == b.data() && t.size() == b.size() && b->size() == b.size(), "as_text() is the contents");
}
#define ENDHEAP() MUST(vp_heap_live() == 0, "all memory is returned")
// A buffer with some ASCII in it, close to the end of the inline storage, or already on the heap.
template <class B, class E> static void fill(B& b, Want<E>& w, bool all = true) {
  size_t in = b.capacity(), n; if (all) { n = vp_pick(0, 6); n = n == 6 ? in + 1 : n == 5 ? 0 : in - n; } else { n = vp_pick(0, 3); n = n == 0 ? 0 : n == 1 ? in - 2 : n == 2 ? in : in + 1; }
  for (size_t i = 0; i < n; ++i) { MUST(b.push(best::rune('a')), "ASCII can be pushed"); w.rune('a'); }
}
template <class E> static void push() {
  vp_no_crash(true); { best::textbuf<E, Arena> b(Arena{3}); Want<E> w; fill(b, w); rune r = mk(); bool ok = w.rune(r.to_int());
  MUST(b.push(r) == ok, "push() succeeds exactly if the encoding can represent the rune"); is(b, w); MUST(b.allocator().id == 3, "the allocator is kept"); if (ok) REACH("pushed"); else REACH("refused"); } ENDHEAP();
}
template <class E> static void lossy() { vp_no_crash(true); { best::textbuf<E, Arena> b(Arena{3}); Want<E> w; fill(b, w); rune r = mk(); w.lossy(r.to_int()); b.push_lossy(r); is(b, w); REACH("pushed"); } ENDHEAP(); }
template <class E, class F, size_t N> static void text() {
  vp_no_crash(true); { best::textbuf<E, Arena> b(Arena{3}); Want<E> w; fill(b, w, false); Txt<F, N> t; size_t n = w.n; bool ok = true; for (size_t i = 0; i < t.k && ok; ++i) ok = w.rune(t.r[i]); if (!ok) w.n = n;
  bool got = vp_split(vp_pick(0, 1)) ? b.push(t.text()) : b.push(t.pre()); MUST(got == ok, "push() succeeds exactly if the encoding can represent every rune"); is(b, w); if (ok) REACH("pushed"); else REACH("refused"); } ENDHEAP();
}
template <class E, class F, size_t N> static void textl() {
  vp_no_crash(true); { best::textbuf<E, Arena> b(Arena{3}); Want<E> w; fill(b, w, false); Txt<F, N> t; for (size_t i = 0; i < t.k; ++i) w.lossy(t.r[i]);
  if (vp_split(vp_pick(0, 1))) b.push_lossy(t.text()); else b.push_lossy(t.pre()); is(b, w); REACH("pushed"); } ENDHEAP();
}
template <class E, class F, size_t N> static void bad() {  // ill-formed pretexts
  vp_no_crash(true); { best::textbuf<E, Arena> b(Arena{3}), l(Arena{4}); Want<E> w, x; best::code<F> c[N]; vp_bytes(c, sizeof c, "c"); size_t n = vp_pick(1, N); best::pretext<F> p(best::span<const best::code<F>>(c, n)); bool ok = true;
  for (size_t i = 0; i < n;) { uint32_t v; size_t k = refdec<F>(c + i, n - i, &v); if (!k) { v = 0xfffd; k = 1; } i += k; ok = ok && w.rune(v); x.lossy(v); } if (!ok) w.n = 0;
  MUST(b.push(p) == ok, "an ill-formed unit is pushed as U+FFFD"); is(b, w); l.push_lossy(p); is(l, x); REACH("pushed"); } ENDHEAP();
}
template <class E, size_t N> static void trunc() {
  Txt<E, N> t; best::textbuf<E, Arena> b(Arena{3}, t.text()); size_t n = any<size_t>("n"); bool ok = n > t.n || t.boundary(n);
  vp_no_crash(ok); Want<E> w; w.raw(t.p, n < t.n ? n : t.n); b.truncate(n); MUST(ok, "truncating in the middle of a rune crashes"); is(b, w); REACH("ok"); b.clear(); MUST(b.is_empty() && b.size() == 0, "clear() leaves nothing"); b.reserve(5); MUST(b.capacity() >= 5 && b.is_empty(), "reserve() changes nothing but the capacity");
}
template <class E, size_t N> static void make() {
  vp_no_crash(true); { Txt<E, N> t; Want<E> w; w.raw(t.p, t.n); using B = best::textbuf<E, Arena>; B a(Arena{3}, t.text()); is(a, w);
  B c(a); is(c, w); is(a, w); MUST(c.data() != a.data(), "a copy is separate"); MUST(c.allocator().id == 3, "a copy has the allocator"); B d(std::move(c)); is(d, w); MUST(c.push(rune('x')) || true, "a moved-from buffer can be reused"); is(d, w);
  B e(Arena{3}); e.push(rune('q')); e = a; is(e, w); is(a, w); B f(Arena{3}); f.push(rune('q')); f = std::move(e); is(f, w);
  MUST(a == d && (a <=> d) == 0 && a == t.text() && a.as_text() == t.text(), "equal contents are equal"); d.push(rune('x')); MUST(a != d && (a <=> d) < 0, "a prefix is less"); is(a, w);
  auto u = B::transcode(Arena{5}, t.text()); MUST(u.has_value(), "transcoding to the same encoding succeeds"); is(*u, w); MUST(u->allocator().id == 5, "transcode() uses the allocator it is given"); REACH("done"); } ENDHEAP();
}
template <class E, size_t N> static void from() {
  vp_no_crash(true); { best::code<E> c[N]; vp_bytes(c, sizeof c, "c"); size_t n = vp_pick(0, N), i = 0; bool ok = true; while (ok && i < n) { uint32_t v; size_t k = refdec<E>(c + i, n - i, &v); ok = k != 0; i += k; }
  using B = best::textbuf<E, Arena>; Want<E> w; w.raw(c, n); best::pretext<E> p(best::span<const best::code<E>>(c, n));
  auto b = B::from(Arena{4}, p); MUST(b.has_value() == ok, "from() succeeds exactly for well-formed text"); if (b) { is(*b, w); MUST(b->allocator().id == 4, "from() uses the allocator it is given"); REACH("valid"); } else REACH("invalid");
  typename B::buf v(Arena{6}, best::span<const best::code<E>>(c, n)); auto d = B::from(std::move(v)); MUST(d.has_value() == ok, "from(buf) succeeds exactly for well-formed text"); if (d) { is(*d, w); MUST(d->allocator().id == 6, "from(buf) keeps the buffer's allocator"); typename B::buf x = std::move(*d).into_buf(); MUST(x.size() == n, "into_buf() gives the code units"); } } ENDHEAP();
}
template <class E, class F, size_t N> static void trans() {
  vp_no_crash(true); { Txt<F, N> t; Want<E> w; bool ok = true; for (size_t i = 0; i < t.k && ok; ++i) ok = w.rune(t.r[i]); auto b = best::textbuf<E, Arena>::transcode(Arena{5}, t.text()); MUST(b.has_value() == ok, "transcode() succeeds exactly if the encoding can represent every rune"); if (b) { is(*b, w); MUST(b->allocator().id == 5, "transcode() uses the allocator it is given"); REACH("ok"); } else REACH("refused"); } ENDHEAP();
}
W(plain) { vp_no_crash(true); { best::strbuf b("h\u00e9y"); Want<utf8> w; w.rune('h'); w.rune(0xe9); w.rune('y'); is(b, w); best::strbuf e; MUST(e.is_empty() && e.size() == 0, "a default buffer is empty"); b.push("!"); w.rune('!'); b.push(u"\u00e9"); w.rune(0xe9); b.push_lossy(U"\u00e9"); w.rune(0xe9); b.push(std::string_view("z")); w.rune('z'); is(b, w); best::str s = b; MUST(s.data() == b.data() && s.size() == b.size(), "a buffer converts to text"); auto n = best::strbuf::from_nul("abc"); MUST(n && n->size() == 3 && *n == best::str("abc"), "from_nul"); auto z = best::strbuf::from_nul(nullptr); MUST(z && z->is_empty(), "from_nul(nullptr) is empty"); REACH("done"); } ENDHEAP(); }
W(push_8) { push<utf8>(); } W(push_w) { push<wtf8>(); } W(push_16) { push<utf16>(); } W(push_32) { push<utf32>(); } W(push_a) { push<ascii>(); } W(push_1) { push<latin1>(); }
W(lossy_8) { lossy<utf8>(); } W(lossy_w) { lossy<wtf8>(); } W(lossy_16) { lossy<utf16>(); } W(lossy_32) { lossy<utf32>(); } W(lossy_a) { lossy<ascii>(); } W(lossy_1) { lossy<latin1>(); }
#define PAIR(nm, E, F, N) W(text_##nm) { text<E, F, N>(); } W(textl_##nm) { textl<E, F, N>(); } W(trans_##nm) { trans<E, F, N>(); }
PAIR(8_8, utf8, utf8, 2) PAIR(16_16, utf16, utf16, 2) PAIR(8_16, utf8, utf16, 2) PAIR(16_8, utf16, utf8, 2) PAIR(8_32, utf8, utf32, 2) PAIR(32_8, utf32, utf8, 2) PAIR(a_8, ascii, utf8, 2) PAIR(1_16, latin1, utf16, 2) PAIR(8_1, utf8, latin1, 2) PAIR(1_8, latin1, utf8, 2) PAIR(8_w, utf8, wtf8, 2)
W(bad_8_8) { bad<utf8, utf8, 3>(); } W(bad_16_8) { bad<utf16, utf8, 3>(); } W(bad_8_16) { bad<utf8, utf16, 3>(); } W(bad_a_32) { bad<ascii, utf32, 2>(); } W(bad_1_a) { bad<latin1, ascii, 3>(); }
W(trunc_8) { trunc<utf8, 2>(); } W(trunc_16) { trunc<utf16, 2>(); } W(trunc_1) { trunc<latin1, 2>(); }
W(make_8) { make<utf8, 1>(); } W(make_16) { make<utf16, 1>(); } W(make_32) { make<utf32, 2>(); } W(make_a) { make<ascii, 2>(); }
W(from_8) { from<utf8, 4>(); } W(from_16) { from<utf16, 3>(); } W(from_32) { from<utf32, 2>(); } W(from_a) { from<ascii, 2>(); }
CONTROL(v) { best::strbuf b; rune r = mk(); MUST(b.push(r), "control"); }
