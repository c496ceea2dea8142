// U01: a rune is a Unicode code point; construction, classification, case and digits follow ASCII/Unicode.
#include "vp.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/text/rune.h"
#include "best/text/utf8.h"
using best::rune;
static bool in(uint32_t v, uint32_t a, uint32_t b) { return v >= a && v <= b; }
static bool scalar(uint32_t v) { return v <= 0x10ffff && !in(v, 0xd800, 0xdfff); }
static rune mk() { uint32_t v = any<uint32_t>("r"); vp_assume(v <= 0x10ffff); return *rune::from_int_allow_surrogates(v); }
W(from_int) { vp_no_crash(true); uint32_t v = any<uint32_t>("v"); auto r = rune::from_int(v); MUST(r.has_value() == scalar(v), "from_int accepts exactly the Unicode scalar values"); if (r) { MUST(r->to_int() == v && uint32_t(*r) == v, "a rune keeps its value"); REACH("scalar"); } else REACH("none"); }
W(from_signed) { vp_no_crash(true); int32_t v = any<int32_t>("v"); auto r = rune::from_int(v); MUST(r.has_value() == (v >= 0 && scalar(v)), "from_int accepts exactly the Unicode scalar values"); if (r) MUST(r->to_int() == uint32_t(v), "a rune keeps its value"); auto q = rune::from_int_allow_surrogates(v); MUST(q.has_value() == (v >= 0 && v <= 0x10ffff), "allow_surrogates accepts exactly the code points"); if (q) MUST(q->to_int() == uint32_t(v), "a rune keeps its value"); REACH("done"); }
W(surrogates) { vp_no_crash(true); uint32_t v = any<uint32_t>("v"); auto r = rune::from_int_allow_surrogates(v); MUST(r.has_value() == (v <= 0x10ffff), "allow_surrogates accepts exactly the code points"); if (r) { MUST(r->to_int() == v, "a rune keeps its value"); MUST(r->is_unpaired_surrogate() == in(v, 0xd800, 0xdfff) && r->is_high_surrogate() == in(v, 0xd800, 0xdbff) && r->is_low_surrogate() == in(v, 0xdc00, 0xdfff), "surrogates"); REACH("some"); } else REACH("none"); }
W(niche) { vp_no_crash(true); best::option<rune> o; MUST(!o.has_value(), "empty"); rune r = mk(); o = r; MUST(o.has_value() && *o == r, "every rune can be held by an option"); o = best::none; MUST(!o.has_value(), "empty"); rune d; MUST(d.to_int() == 0, "a default rune is NUL"); rune e = {}; MUST(e.to_int() == 0, "a default rune is NUL"); MUST(rune::Replacement.to_int() == 0xfffd, "replacement"); REACH("done"); }
W(ascii) { vp_no_crash(true); rune r = mk(); uint32_t v = r.to_int(); bool up = in(v, 'A', 'Z'), lo = in(v, 'a', 'z'), dg = in(v, '0', '9');
  MUST(r.is_ascii() == (v < 128), "is_ascii"); MUST(r.is_ascii_upper() == up && r.is_ascii_lower() == lo && r.is_ascii_alpha() == (up || lo), "letters"); MUST(r.is_ascii_digit() == dg && r.is_ascii_alnum() == (up || lo || dg), "digits");
  MUST(r.is_ascii_hex() == (dg || in(v, 'a', 'f') || in(v, 'A', 'F')), "hex"); MUST(r.is_ascii_control() == (v < 0x20 || v == 0x7f), "control"); REACH("done"); }
W(ascii_rest) { vp_no_crash(true); rune r = mk(); uint32_t v = r.to_int(); bool print = in(v, 0x21, 0x7e), al = in(v, 'A', 'Z') || in(v, 'a', 'z') || in(v, '0', '9');
  MUST(r.is_ascii_punct() == (print && !al), "punctuation is what is printable and not alphanumeric"); MUST(r.is_ascii_space() == (v == ' ' || v == '\t' || v == '\n' || v == '\f' || v == '\r'), "space"); REACH("done"); }
W(case) { vp_no_crash(true); rune r = mk(); uint32_t v = r.to_int(); MUST(r.to_ascii_lower().to_int() == (in(v, 'A', 'Z') ? v + 32 : v), "to_ascii_lower"); MUST(r.to_ascii_upper().to_int() == (in(v, 'a', 'z') ? v - 32 : v), "to_ascii_upper"); REACH("done"); }
static uint32_t val(uint32_t v) { if (in(v, '0', '9')) return v - '0'; if (in(v, 'a', 'z')) return v - 'a' + 10; if (in(v, 'A', 'Z')) return v - 'A' + 10; return 99; }
W(to_digit) { vp_no_crash(true); rune r = mk(); uint32_t x = any<uint32_t>("radix"); vp_assume(x <= 36); auto d = r.to_digit(x); uint32_t e = val(r.to_int()); MUST(d.has_value() == (e < x) && r.is_digit(x) == (e < x), "to_digit accepts exactly the digits of the radix"); if (d) { MUST(*d == e, "to_digit gives the digit's value"); REACH("digit"); } else REACH("none"); }
W(from_digit) { vp_no_crash(true); uint32_t n = any<uint32_t>("n"), x = vp_pick(0, 36); auto r = rune::from_digit(n, x); MUST(r.has_value() == (n < x), "from_digit accepts exactly the radix's digits"); if (!r) { REACH("none"); return; } uint32_t v = r->to_int(); MUST(val(v) == n && !in(v, 'A', 'Z'), "from_digit gives the lower case digit"); auto b = r->to_digit(x); MUST(b && *b == n, "digits round-trip"); REACH("digit"); }
W(default_radix) { vp_no_crash(true); rune r = mk(); MUST(r.is_digit() == in(r, '0', '9') && r.to_digit().has_value() == in(r, '0', '9'), "the default radix is ten"); REACH("done"); }
W(bad_radix_to) { rune r = mk(); uint32_t x = any<uint32_t>("radix"); vp_assume(x > 36); (void)r.to_digit(x); vp_violation("a radix above 36 is accepted"); }
W(bad_radix_is) { rune r = mk(); uint32_t x = any<uint32_t>("radix"); vp_assume(x > 36); (void)r.is_digit(x); vp_violation("a radix above 36 is accepted"); }
W(bad_radix_from) { uint32_t x = any<uint32_t>("radix"); vp_assume(x > 36); (void)rune::from_digit(any<uint32_t>("n"), x); vp_violation("a radix above 36 is accepted"); }
W(order) { vp_no_crash(true); rune a = mk(), b = mk(); MUST((a == b) == (a.to_int() == b.to_int()) && (a < b) == (a.to_int() < b.to_int()) && (a <= b) == (a.to_int() <= b.to_int()), "runes compare as their values"); REACH("done"); }
CONTROL(v) { rune r = mk(); MUST(r.is_ascii_alnum() || r.to_int() != '_', "control"); }
