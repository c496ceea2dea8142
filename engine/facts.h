// Numeric components of the product domain attached to an abstract state:
//   * unsigned intervals for arbitrary terms,
//   * exact value sets for leaves of at most 8 bits,
//   * a conjunction of linear integer inequalities (convex-polyhedra style,
//     emptiness decided by Fourier-Motzkin elimination with a few case splits
//     on wrap-around quotients).
// All transfer functions over-approximate.
#pragma once
#include <ctime>
#include "term.h"
#include <bitset>
#include <map>
#include <set>

// Processor time after which emptiness is no longer decided (answers stay conservative), see Interp::report.
inline double cpuNow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double searchUntil = 1e18;
inline bool searchOver() { return searchUntil < 1e17 && cpuNow() > searchUntil; }

struct Rg { u64 lo, hi; bool empty() const { return lo > hi; } };
using BS = std::bitset<256>;

struct LE {  // linear expression over atoms
  std::vector<std::pair<int, i128>> v;
  i128 c = 0;
};

struct Facts;

struct FM {
  // rows: sum a_i x_i + c >= 0
  struct Row { std::vector<std::pair<int, i128>> v; i128 c; bool eq = false; };
  std::vector<Row> rows;
  struct Var { i128 lo, hi; };
  std::vector<Var> vars;
  std::map<std::pair<u64, int>, int> atomId;  // (term id, lo<<8|len) -> var
  std::vector<int> splits;
  std::vector<LE> diseq;
  bool blown = false;
  const Facts* F;
  int newVar(i128 lo, i128 hi) { vars.push_back({lo, hi}); return (int)vars.size() - 1; }
  int atom(T t);
  int segAtom(const Seg& s);
  static void addTo(LE& a, const LE& b, i128 k) {
    for (auto& [x, c] : b.v) a.v.push_back({x, c * k});
    a.c += b.c * k;
  }
  static void norm(std::vector<std::pair<int, i128>>& v) {
    std::sort(v.begin(), v.end());
    size_t o = 0;
    for (size_t i = 0; i < v.size();) {
      int x = v[i].first; i128 c = 0;
      while (i < v.size() && v[i].first == x) c += v[i++].second;
      if (c) v[o++] = {x, c};
    }
    v.resize(o);
  }
  LE toInt(T t, int depth = 0);
  LE toSInt(T t);
  int signVar(T t, const LE& s);
  void ge0(LE e, bool eq = false) { norm(e.v); rows.push_back({std::move(e.v), e.c, eq}); }
  bool addCond(T t, bool val);  // adds rows for the atom; false if nothing added
  static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b && ((a < 0) != (b < 0))) --q; return q; }
  // returns true if definitely infeasible
  static bool solve(std::vector<Row> rows, int nv, const std::vector<Var>& vars);
  bool infeasible();
};

struct Facts {
  std::vector<T> cons;                       // atoms known true (negations wrapped in Not)
  std::unordered_map<T, char> known;
  std::unordered_map<T, Rg> rng;
  std::unordered_map<T, BS> sets;
  // sums/products known not to wrap: term -> (left, right, right factor)
  struct Exact { T a, b; i128 k; };
  std::unordered_map<T, Exact> exU, exS;
  mutable std::unordered_map<T, Rg> memo;
  bool dead = false;

  static BS full(unsigned w) { BS b; for (unsigned i = 0; i < (1u << w); ++i) b.set(i); return b; }
  BS setOf(T s) const { auto it = sets.find(s); return it != sets.end() ? it->second : full(s->w); }

  // enumerate the values of t when it depends on one small leaf
  bool smallLeaf(T t) const { return t->leaves.size() == 1 && t->leaves[0]->w <= 8; }

  Rg range(T t) const {
    if (t->isC()) return {t->c, t->c};
    auto it = memo.find(t);
    if (it != memo.end()) return it->second;
    memo[t] = {0, maskw(t->w)};
    Rg r = range0(t);
    auto k = rng.find(t);
    if (k != rng.end()) { r.lo = std::max(r.lo, k->second.lo); r.hi = std::min(r.hi, k->second.hi); }
    memo[t] = r;
    return r;
  }
  Rg segRange(const Seg& s) const {
    if (s.lo == 0 && s.len == s.t->w) return range(s.t);
    Rg r = range(s.t), o{0, maskw(s.len)};
    if (!r.empty()) {
      u64 a = r.lo >> s.lo, b = r.hi >> s.lo;
      if (s.lo + s.len >= s.t->w) o = {a, b};
      else if ((a >> s.len) == (b >> s.len)) o = {a & maskw(s.len), b & maskw(s.len)};
    }
    T st = P.concat({s});
    if (st->k == K::Concat && st->segs.size() == 1) {
      auto k = rng.find(st);
      if (k != rng.end()) { o.lo = std::max(o.lo, k->second.lo); o.hi = std::min(o.hi, k->second.hi); }
      if (smallLeaf(s.t) && s.t->k == K::Sym) {
        BS b = setOf(s.t);
        u64 mn = ~0ull, mx = 0;
        for (unsigned i = 0; i < 256; ++i) if (b[i]) { u64 v = (i >> s.lo) & maskw(s.len); mn = std::min(mn, v); mx = std::max(mx, v); }
        o.lo = std::max(o.lo, mn); o.hi = std::min(o.hi, mx);
      }
    }
    return o;
  }
  Rg segRange1(T t, unsigned lo, unsigned len) const {
    T s = P.slice(t, lo, len);
    return range(s);
  }
  Rg range0(T t) const {
    u64 m = maskw(t->w);
    if (smallLeaf(t)) {
      T l = t->leaves[0];
      BS b = setOf(l);
      u64 mn = ~0ull, mx = 0; bool any = false;
      for (unsigned i = 0; i < (1u << l->w); ++i) if (b[i]) {
        Env e; e.v[l] = i; u64 v = e.ev(t);
        if (e.bad) continue;
        any = true; mn = std::min(mn, v); mx = std::max(mx, v);
      }
      if (any) return {mn, mx};
      return {1, 0};
    }
    switch (t->k) {
      case K::Sym: return {0, m};
      case K::Concat: {
        if (t->segs.size() == 1) return segRange(t->segs[0]);
        u64 lo = 0, hi = 0; unsigned pos = 0;
        for (auto& s : t->segs) {
          Rg r = segRange(s);
          if (r.empty()) return r;
          lo |= r.lo << pos; hi |= r.hi << pos; pos += s.len;
        }
        return {lo, hi};
      }
      case K::Lin: {
        i128 lo = sx(t->c, t->w), hi = lo;
        for (auto& [c, x] : t->lin) {
          Rg r = range(x);
          if (r.empty()) return r;
          i128 k = sx(c, t->w);
          if (k > 0) { lo += k * r.lo; hi += k * r.hi; } else { lo += k * r.hi; hi += k * r.lo; }
        }
        i128 M = (i128)1 << t->w;
        i128 q = FM::fdiv(lo, M);
        if (q == FM::fdiv(hi, M)) return {(u64)(lo - q * M), (u64)(hi - q * M)};
        return {0, m};
      }
      case K::SExt: {
        unsigned n = t->a[0]->w; Rg r = range(t->a[0]);
        u64 h = 1ull << (n - 1);
        if (r.hi < h) return r;
        if (r.lo >= h) return {(u64)sx(r.lo, n) & m, (u64)sx(r.hi, n) & m};
        return {0, m};
      }
      case K::Not: case K::Eq: case K::Ult: case K::Slt: {
        int d = quick(t);
        if (d >= 0) return {(u64)d, (u64)d};
        return {0, 1};
      }
      case K::Mul: {
        Rg a = range(t->a[0]), b = range(t->a[1]);
        if ((u128)a.hi * b.hi <= m) return {a.lo * b.lo, a.hi * b.hi};
        return {0, m};
      }
      case K::UDiv: { Rg a = range(t->a[0]), b = range(t->a[1]); if (a.empty() || b.empty()) return {1, 0};
        u64 bl = std::max<u64>(b.lo, 1);
        if (bl < 2) { T rem = P.op(K::URem, t->w, {t->a[0], t->a[1]}); auto it = known.find(P.eq(rem, P.C(0, t->w)));
          if ((it != known.end() && !it->second) || range(rem).lo > 0) bl = 2; }
        return {b.hi ? a.lo / b.hi : 0, a.hi / bl}; }
      case K::URem: { Rg a = range(t->a[0]), b = range(t->a[1]); if (a.empty() || b.empty()) return {1, 0};
        if (a.hi < b.lo) return a;
        return {0, std::min(a.hi, b.hi ? b.hi - 1 : 0)}; }
      case K::Shl: { Rg a = range(t->a[0]), b = range(t->a[1]);
        if (b.hi < t->w && ((u128)a.hi << b.hi) <= m) return {a.lo << b.lo, a.hi << b.hi};
        return {0, m}; }
      case K::LShr: { Rg a = range(t->a[0]), b = range(t->a[1]);
        return {b.hi < t->w ? a.lo >> b.hi : 0, b.lo < t->w ? a.hi >> b.lo : 0}; }
      case K::And: { Rg a = range(t->a[0]), b = range(t->a[1]); return {0, std::min(a.hi, b.hi)}; }
      case K::Or: case K::Xor: { Rg a = range(t->a[0]), b = range(t->a[1]);
        u64 x = a.hi | b.hi; u64 up = x ? maskw(64 - __builtin_clzll(x)) : 0;
        return {t->k == K::Or ? std::max(a.lo, b.lo) : 0, up}; }
      case K::Ctlz: { Rg a = range(t->a[0]); bool bad = false; unsigned w = t->a[0]->w;
        return {TermPool::evalOp(K::Ctlz, w, w, a.hi, 0, bad), TermPool::evalOp(K::Ctlz, w, w, a.lo, 0, bad)}; }
      case K::Cttz: { Rg a = range(t->a[0]); unsigned w = t->a[0]->w;
        Rg o{0, a.lo > 0 ? (u64)std::min<unsigned>(w - 1, 63 - __builtin_clzll(a.hi | 1)) : w};
        for (unsigned i = 0; i < w; ++i) {
          Rg b = segRange1(t->a[0], i, 1);
          if (b.lo == 1) { o.hi = std::min<u64>(o.hi, i); break; }
        }
        for (unsigned i = w; i > 0; --i) {  // low i bits all zero?
          Rg b = segRange1(t->a[0], 0, i);
          if (b.hi == 0) { o.lo = std::max<u64>(o.lo, i); break; }
        }
        return o; }
      case K::Ctpop: {
        unsigned w = t->a[0]->w; u64 ub = 0;
        for (unsigned i = 0; i < w; ++i) ub += segRange1(t->a[0], i, 1).hi;
        u64 lb = 0; unsigned n = w;
        while (n) {
          Rg r = segRange1(t->a[0], 0, n);
          if (r.lo == 0) break;
          ++lb;
          unsigned hb = 63 - __builtin_clzll(r.lo);
          if (hb != 63 - (unsigned)__builtin_clzll(r.hi)) break;
          n = hb;
        }
        Rg a = range(t->a[0]);
        if (a.hi) ub = std::min<u64>(ub, 64 - __builtin_clzll(a.hi)); else ub = 0;
        return {lb, ub}; }
      case K::UAddO: { Rg a = range(t->a[0]), b = range(t->a[1]); u64 mm = maskw(t->a[0]->w);
        return {(u128)a.lo + b.lo > mm ? 1u : 0u, (u128)a.hi + b.hi > mm ? 1u : 0u}; }
      case K::UMulO: { Rg a = range(t->a[0]), b = range(t->a[1]); u64 mm = maskw(t->a[0]->w);
        return {(u128)a.lo * b.lo > mm ? 1u : 0u, (u128)a.hi * b.hi > mm ? 1u : 0u}; }
      case K::SAddO: case K::SSubO: case K::SMulO: {
        unsigned w = t->a[0]->w; i128 al, ah, bl, bh; srange(t->a[0], al, ah); srange(t->a[1], bl, bh);
        i128 lo, hi;
        if (t->k == K::SAddO) { lo = al + bl; hi = ah + bh; }
        else if (t->k == K::SSubO) { lo = al - bh; hi = ah - bl; }
        else { i128 c[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
        i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
        if (lo >= mn && hi <= mx) return {0, 0};
        if (lo > mx || hi < mn) return {1, 1};
        return {0, 1};
      }
      case K::SDiv: case K::SRem: {
        i128 lo = -((i128)1 << (t->w - 1)), hi = -lo - 1; srangeDiv(t, lo, hi);
        if (lo > hi) return {1, 0};
        if (lo >= 0 || hi < 0) return {(u64)lo & m, (u64)hi & m};
        return {0, m};
      }
      default: return {0, m};
    }
  }
  void srangeDiv(T t, i128& lo, i128& hi) const {
    unsigned w = t->w;
      i128 al, ah, bl, bh; srange(t->a[0], al, ah); srange(t->a[1], bl, bh);
      auto ab = [](i128 v) { return v < 0 ? -v : v; };
      i128 am = std::max(ab(al), ab(ah)), bm = std::max(ab(bl), ab(bh));
      i128 bmin = bl > 0 ? bl : bh < 0 ? -bh : 1;
      i128 l, u;
      if (t->k == K::SRem) {
        i128 m = std::min(am, bm - 1);
        l = al >= 0 ? 0 : -m; u = ah <= 0 ? 0 : m;
      } else {
        T rem = P.op(K::SRem, w, {t->a[0], t->a[1]});
        if (bmin < 2) { auto it = known.find(P.eq(rem, P.C(0, w))); if (it != known.end() && !it->second) bmin = 2; else { Rg rr = range(rem); if (rr.lo > 0) bmin = 2; } }
        i128 m = am / bmin;
        bool ap = al >= 0, an = ah <= 0, bp = bl > 0, bn = bh < 0;
        l = (ap && bp) || (an && bn) ? 0 : -m; u = (ap && bn) || (an && bp) ? 0 : m;
      }
      lo = std::max(lo, l); hi = std::min(hi, u);
      }
  void srange(T t, i128& lo, i128& hi) const {
    unsigned w = t->w; Rg r = range(t); u64 h = 1ull << (w - 1);
    if (r.hi < h || r.lo >= h) { lo = sx(r.lo, w); hi = sx(r.hi, w); return; }
    lo = -(i128)h; hi = (i128)h - 1;
    if (t->k == K::SExt) { srange(t->a[0], lo, hi); }
    if (t->k == K::SDiv || t->k == K::SRem) srangeDiv(t, lo, hi);
    if (t->k == K::Lin) {
      i128 l = sx(t->c, w), u = l;
      for (auto& [c, x] : t->lin) {
        i128 a, b; srange(x, a, b); i128 k = sx(c, w);
        if (k > 0) { l += k * a; u += k * b; } else { l += k * b; u += k * a; }
      }
      if (l >= lo && u <= hi) { lo = l; hi = u; }
      if (auto x = exS.find(t); x != exS.end()) {
        i128 a, b, p, q; srange(x->second.a, a, b);
        if (x->second.b) { srange(x->second.b, p, q); i128 k = x->second.k; p *= k; q *= k; if (p > q) std::swap(p, q); a += p; b += q; }
        else { a *= x->second.k; b *= x->second.k; if (a > b) std::swap(a, b); }
        lo = std::max(lo, a); hi = std::min(hi, b);
      }
    }
  }
  bool constOf(T t, u64& v) const {
    if (t->isC()) { v = t->c; return true; }
    Rg r = range(t);
    if (r.lo == r.hi) { v = r.lo; return true; }
    return false;
  }
  // equality of two bit ranges implies the equality of corresponding parts of them
  struct SliceEq { T x, y; unsigned lx, ly, n; };
  std::vector<SliceEq> sliceEqs;
  static bool sliceEqOf(T t, SliceEq& q) {
    auto part = [](T a, T& x, unsigned& lo, unsigned& n) {
      if (a->isC()) return false;
      if (a->k != K::Concat) { x = a; lo = 0; n = a->w; return true; }
      if (a->segs.size() != 1 || a->segs[0].t->isC()) return false;
      x = a->segs[0].t; lo = a->segs[0].lo; n = a->segs[0].len; return true;
    };
    unsigned n2;
    if (!part(t->a[0], q.x, q.lx, q.n) || !part(t->a[1], q.y, q.ly, n2) || n2 != q.n) return false;
    if (q.x->id > q.y->id) { std::swap(q.x, q.y); std::swap(q.lx, q.ly); }
    return true;
  }
  // cheap decision: -1 unknown
  int quick(T t) const {
    if (t->isC()) return (int)t->c;
    auto it = known.find(t);
    if (it != known.end()) return it->second;
    switch (t->k) {
      case K::Not: { int d = quick(t->a[0]); return d < 0 ? -1 : !d; }
      case K::And: case K::Or: case K::Xor: {
        if (t->w != 1) return -1;
        int x = quick(t->a[0]), y = quick(t->a[1]);
        if (t->k == K::And) { if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; return -1; }
        if (t->k == K::Or) { if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; return -1; }
        if (x >= 0 && y >= 0) return x ^ y;
        return -1;
      }
      case K::Eq: {
        if (smallLeaf(t)) { Rg r = range(t); return r.lo == r.hi ? (int)r.lo : -1; }
        if (!sliceEqs.empty()) {
          SliceEq q;
          if (sliceEqOf(t, q)) for (auto& e : sliceEqs) if (e.x == q.x && e.y == q.y && q.lx >= e.lx && q.lx - e.lx == q.ly - e.ly && q.lx - e.lx + q.n <= e.n) return 1;
        }
        Rg a = range(t->a[0]), b = range(t->a[1]);
        if (a.hi < b.lo || b.hi < a.lo) return 0;
        if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1;
        return -1;
      }
      case K::Ult: {
        if (smallLeaf(t)) { Rg r = range(t); return r.lo == r.hi ? (int)r.lo : -1; }
        Rg a = range(t->a[0]), b = range(t->a[1]);
        if (a.hi < b.lo) return 1;
        if (a.lo >= b.hi) return 0;
        return -1;
      }
      case K::Slt: {
        if (smallLeaf(t)) { Rg r = range(t); return r.lo == r.hi ? (int)r.lo : -1; }
        i128 al, ah, bl, bh; srange(t->a[0], al, ah); srange(t->a[1], bl, bh);
        if (ah < bl) return 1;
        if (al >= bh) return 0;
        return -1;
      }
      default: {
        Rg r = range(t);
        return r.lo == r.hi ? (int)r.lo : -1;
      }
    }
  }
  // full decision
  int decide(T t) {
    int d = quick(t);
    if (d >= 0) return d;
    if (t->k == K::Not) { d = decide(t->a[0]); return d < 0 ? -1 : !d; }
    if (t->w == 1 && (t->k == K::And || t->k == K::Or)) {
      int x = decide(t->a[0]), y = decide(t->a[1]);
      if (t->k == K::And) { if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; }
      else { if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; }
      // fallthrough: product enumeration
    }
    d = enumDecide(t);
    if (d >= 0) return d;
    if (t->k == K::Eq || t->k == K::Ult || t->k == K::Slt || t->k == K::UAddO || t->k == K::SAddO || t->k == K::SSubO || t->k == K::UMulO || t->k == K::SMulO) {
      if (fmInfeasible(t, true)) return 0;
      if (fmInfeasible(t, false)) return 1;
    }
    return -1;
  }
  // exact enumeration over the product of small leaf sets
  int enumDecide(T t) const {
    if (t->leaves.size() < 2 || t->leaves.size() > 3) return -1;
    u64 prod = 1;
    for (T l : t->leaves) {
      if (l->w > 8) { Rg r = range(l); if (r.lo != r.hi) return -1; }
      else prod *= setOf(l).count();
      if (prod > 4096) return -1;
    }
    int res = -2;
    Env e;
    std::function<bool(size_t)> go = [&](size_t i) -> bool {
      if (i == t->leaves.size()) {
        e.memo.clear();
        int v = (int)e.ev(t);
        if (e.bad) return false;
        if (res == -2) res = v; else if (res != v) return false;
        return true;
      }
      T l = t->leaves[i];
      if (l->w > 8) { e.v[l] = range(l).lo; return go(i + 1); }
      BS b = setOf(l);
      for (unsigned v = 0; v < (1u << l->w); ++v) if (b[v]) { e.v[l] = v; if (!go(i + 1)) return false; }
      return true;
    };
    if (!go(0)) return -1;
    return res == -2 ? -1 : res;
  }
  bool fmInfeasible(T t, bool val) const {
    FM fm; fm.F = this;
    std::set<T> leaves;
    if (t) {
      fm.addCond(t, val);
      for (T l : t->leaves) leaves.insert(l);
    }
    // connected constraints
    std::vector<char> used(cons.size(), 0);
    bool ch = true; int rounds = 0;
    size_t n = 0;
    std::vector<T> eqs;
    if (t && val && t->k == K::Eq) eqs.push_back(t);
    while (ch && rounds++ < 8) {
      ch = false;
      for (size_t i = cons.size(); i-- > 0;) {
        if (used[i]) continue;
        T c = cons[i];
        T b = c->k == K::Not ? c->a[0] : c;
        bool conn = !t;
        for (T l : b->leaves) if (leaves.count(l)) { conn = true; break; }
        if (!conn) continue;
        if (b->k == K::Eq && c->k == K::Not) {
          used[i] = 1;
          bool near = !t;
          if (t) { near = true; for (T l : b->leaves) if (!std::binary_search(t->leaves.begin(), t->leaves.end(), l, [](T p, T q) { return p->id < q->id; })) { near = false; break; } }
          if (near && fm.diseq.size() < 3) {
            LE e; FM::addTo(e, fm.toInt(b->a[0]), 1); FM::addTo(e, fm.toInt(b->a[1]), -1);
            FM::norm(e.v);
            fm.diseq.push_back(e);
          }
          continue;
        }
        used[i] = 1; ch = true;
        if (++n > 60) { signedEqs(fm, eqs); return fm.infeasible(); }
        if (b->k == K::Eq) eqs.push_back(b);
        fm.addCond(b, c->k != K::Not);
        for (T l : b->leaves) leaves.insert(l);
      }
      if (!t) break;
    }
    signedEqs(fm, eqs);
    return fm.infeasible();
  }
  // equal terms also have equal signed values
  void signedEqs(FM& fm, const std::vector<T>& eqs) const {
    for (T b : eqs) {
      bool sg = false;
      for (int i = 0; i < 2; ++i) if (fm.atomId.count({(u64)b->a[i]->id, -3})) sg = true;
      if (!sg) continue;
      LE e; FM::addTo(e, fm.toSInt(b->a[0]), 1); FM::addTo(e, fm.toSInt(b->a[1]), -1); fm.ge0(e, true);
    }
  }

  // ---- refinement
  void setRange(T t, u64 lo, u64 hi, int depth = 0) {
    if (dead) return;
    Rg r = range(t);
    if (lo <= r.lo && hi >= r.hi) return;
    lo = std::max(lo, r.lo); hi = std::min(hi, r.hi);
    if (lo > hi) { dead = true; return; }
    memo.clear();
    if (t->isC()) return;
    if (t->k == K::Sym && t->w <= 8) {
      BS b = setOf(t);
      for (unsigned i = 0; i < (1u << t->w); ++i) if (i < lo || i > hi) b.reset(i);
      sets[t] = b;
      if (b.none()) dead = true;
      return;
    }
    rng[t] = {lo, hi};
    if (depth > 8) return;
    if (t->k == K::Concat) {
      if (t->segs.size() == 1) {
        const Seg& s = t->segs[0];
        // slice [s.lo, +len) of s.t in [lo,hi]
        if (s.lo + s.len == s.t->w) {
          u64 l = lo << s.lo, h = (hi << s.lo) | maskw(s.lo);
          setRange(s.t, l, h, depth + 1);
        } else if (s.t->k == K::Sym && s.t->w <= 8) {
          BS b = setOf(s.t);
          for (unsigned i = 0; i < (1u << s.t->w); ++i) { u64 v = (i >> s.lo) & maskw(s.len); if (v < lo || v > hi) b.reset(i); }
          sets[s.t] = b; memo.clear();
          if (b.none()) dead = true;
        } else {
          // higher bits known constant?
          Rg hr = segRange({s.t, (uint8_t)(s.lo + s.len), (uint8_t)(s.t->w - s.lo - s.len)});
          if (hr.lo == hr.hi) {
            u64 top = s.lo + s.len >= 64 ? 0 : hr.lo << (s.lo + s.len);
            setRange(s.t, top | (lo << s.lo), top | (hi << s.lo) | maskw(s.lo), depth + 1);
          }
        }
        return;
      }
      unsigned pos = t->w;
      u64 l = lo, h = hi;
      for (size_t i = t->segs.size(); i-- > 0;) {
        auto& s = t->segs[i];
        pos -= s.len;
        u64 sl = l >> pos, sh = h >> pos;
        if (!s.t->isC()) setRange(P.slice(s.t, s.lo, s.len), sl, sh, depth + 1);
        Rg sr = segRange(s);
        if (dead) return;
        if (sl != sh && sr.lo != sr.hi) break;
        u64 v = sr.lo;
        if (sl < v) l = 0; else l &= maskw(pos);
        if (sh > v) h = maskw(pos); else h &= maskw(pos);
      }
      return;
    }
    if (t->k == K::Lin) {
      // each variable bounded by the rest when no wrap is possible
      i128 L = sx(t->c, t->w), H = L;
      i128 M = (i128)1 << t->w;
      for (auto& [c, x] : t->lin) { Rg q = range(x); i128 k = sx(c, t->w); if (k > 0) { L += k * q.lo; H += k * q.hi; } else { L += k * q.hi; H += k * q.lo; } }
      if (t->lin.size() == 1 && (t->lin[0].first == 1)) {
        // x = t - c (mod M): if [lo-c, hi-c] does not straddle 0 mod M
        u64 m = maskw(t->w);
        u64 a = (lo - t->c) & m, b = (hi - t->c) & m;
        if (a <= b) setRange(t->lin[0].second, a, b, depth + 1);
        else {
          Rg q = range(t->lin[0].second);
          // allowed: [a, m] u [0, b]
          if (q.lo > b) setRange(t->lin[0].second, std::max(a, q.lo), q.hi, depth + 1);
          else if (q.hi < a) setRange(t->lin[0].second, q.lo, std::min(b, q.hi), depth + 1);
        }
        return;
      }
      if (t->lin.size() == 1 && t->lin[0].first == maskw(t->w)) {
        u64 m = maskw(t->w);
        u64 a = (t->c - hi) & m, b = (t->c - lo) & m;
        T x = t->lin[0].second;
        if (a <= b) setRange(x, a, b, depth + 1);
        else { Rg q = range(x);
          if (q.lo > b) setRange(x, std::max(a, q.lo), q.hi, depth + 1);
          else if (q.hi < a) setRange(x, q.lo, std::min(b, q.hi), depth + 1); }
        return;
      }
      i128 q = FM::fdiv(L, M);
      if (q != FM::fdiv(H, M)) return;
      i128 off = q * M;
      for (auto& [c, x] : t->lin) {
        Rg qr = range(x); i128 k = sx(c, t->w);
        i128 rl = L - (k > 0 ? k * qr.lo : k * qr.hi), rh = H - (k > 0 ? k * qr.hi : k * qr.lo);
        // k*x in [lo+off-rh, hi+off-rl]
        i128 kl = (i128)lo + off - rh, kh = (i128)hi + off - rl;
        i128 xl, xh;
        if (k > 0) { xl = -FM::fdiv(-kl, k); xh = FM::fdiv(kh, k); }
        else { xl = -FM::fdiv(kh, -k); xl = -FM::fdiv(kh, -k); xh = FM::fdiv(-kl, -k); xl = -FM::fdiv(kh, -k); }
        if (xl < 0) xl = 0;
        if (xh > (i128)maskw(x->w)) xh = maskw(x->w);
        if (xl > xh) { dead = true; return; }
        setRange(x, (u64)xl, (u64)xh, depth + 1);
        if (dead) return;
      }
      return;
    }
    if (t->k == K::SExt) {
      unsigned n = t->a[0]->w; u64 h = 1ull << (n - 1);
      if (hi < h) setRange(t->a[0], lo, hi, depth + 1);
      else if (lo >= (maskw(t->w) ^ maskw(n - 1))) setRange(t->a[0], lo & maskw(n), hi & maskw(n), depth + 1);
      return;
    }
    if (t->k == K::Ctlz) {
      unsigned w = t->a[0]->w;
      u64 xh = lo >= w ? 0 : maskw(w - lo), xl = hi >= w ? 0 : 1ull << (w - 1 - hi);
      setRange(t->a[0], xl, xh, depth + 1);
      return;
    }
    if (t->k == K::UDiv && t->a[1]->isC() && t->a[1]->c) {
      u64 d = t->a[1]->c; u128 h = (u128)hi * d + d - 1;
      setRange(t->a[0], lo * d, h > maskw(t->w) ? maskw(t->w) : (u64)h, depth + 1);
      return;
    }
    if (t->w == 1 && lo == hi) { assume(t, lo); }
  }
  void filterSmall(T t, bool val) {
    T l = t->leaves[0];
    BS b = setOf(l);
    for (unsigned i = 0; i < (1u << l->w); ++i) if (b[i]) {
      Env e; e.v[l] = i; u64 v = e.ev(t);
      if (!e.bad && (bool)v != val) b.reset(i);
    }
    sets[l] = b; memo.clear();
    if (b.none()) dead = true;
  }
  void assume(T t, bool val) {
    if (dead) return;
    if (t->isC()) { if ((bool)t->c != val) dead = true; return; }
    if (t->k == K::Not) return assume(t->a[0], !val);
    if (t->w == 1 && ((t->k == K::And && val) || (t->k == K::Or && !val))) { assume(t->a[0], val); assume(t->a[1], val); return; }
    auto it = known.find(t);
    if (it != known.end()) { if (it->second != val) dead = true; return; }
    known[t] = val; memo.clear();
    if (!val) noteExact(t);
    if (val && t->k == K::Eq) { SliceEq q; if (sliceEqOf(t, q)) sliceEqs.push_back(q); }
    cons.push_back(val ? t : P.lnot(t));
    if (t->w == 1 && (t->k == K::And || t->k == K::Or)) {
      int x = quick(t->a[0]), y = quick(t->a[1]);
      if (t->k == K::Or && val) { if (x == 0) assume(t->a[1], true); else if (y == 0) assume(t->a[0], true); }
      if (t->k == K::And && !val) { if (x == 1) assume(t->a[1], false); else if (y == 1) assume(t->a[0], false); }
      if (smallLeaf(t)) filterSmall(t, val);
      return;
    }
    if (t->w == 1 && t->k == K::Xor) {
      for (int i = 0; i < 2; ++i) { int x = quick(t->a[i]); if (x >= 0) { assume(t->a[1 - i], x ^ val); break; } }
    }
    if (smallLeaf(t)) { filterSmall(t, val); if (dead) return; }
    prop(t, val);
    for (int round = 0; round < 2 && !dead; ++round) {
      size_t n = cons.size();
      for (size_t i = 0; i < n && !dead; ++i) {
        T c = cons[i]; T b = c->k == K::Not ? c->a[0] : c;
        bool sh = false;
        for (T l : b->leaves) if (std::binary_search(t->leaves.begin(), t->leaves.end(), l, [](T p, T q) { return p->id < q->id; })) { sh = true; break; }
        if (sh) prop(b, c->k != K::Not);
      }
    }
  }
  void noteExact(T t) {
    T a = t->a.size() > 1 ? t->a[0] : nullptr, b = a ? t->a[1] : nullptr;
    auto put = [&](std::unordered_map<T, Exact>& m, T r, Exact e) { if (r->k == K::Lin) m.emplace(r, e); };
    switch (t->k) {
      case K::UAddO: put(exU, P.add(a, b), {a, b, 1}); break;
      case K::SAddO: put(exS, P.add(a, b), {a, b, 1}); break;
      case K::SSubO: put(exS, P.sub(a, b), {a, b, -1}); break;
      case K::UMulO: case K::SMulO: {
        if (a->isC()) std::swap(a, b);
        if (!b->isC()) break;
        bool sg = t->k == K::SMulO;
        put(sg ? exS : exU, P.mulc(a, b->c), {a, nullptr, sg ? (i128)sx(b->c, b->w) : (i128)b->c});
        break;
      }
      default: break;
    }
  }
  void prop(T t, bool val) {
    if (dead) return;
    switch (t->k) {
      case K::Sym: setRange(t, val, val); break;
      case K::Concat: setRange(t, val, val); break;
      case K::Eq: {
        Rg a = range(t->a[0]), b = range(t->a[1]);
        if (val) {
          u64 lo = std::max(a.lo, b.lo), hi = std::min(a.hi, b.hi);
          if (lo > hi) { dead = true; return; }
          setRange(t->a[0], lo, hi); setRange(t->a[1], lo, hi);
        } else {
          if (b.lo == b.hi) { if (a.lo == a.hi && a.lo == b.lo) { dead = true; return; } if (a.lo == b.lo) setRange(t->a[0], a.lo + 1, a.hi); else if (a.hi == b.lo) setRange(t->a[0], a.lo, a.hi - 1); }
          else if (a.lo == a.hi) { if (b.lo == a.lo) setRange(t->a[1], b.lo + 1, b.hi); else if (b.hi == a.lo) setRange(t->a[1], b.lo, b.hi - 1); }
        }
        break;
      }
      case K::Ult: {
        T x = t->a[0], y = t->a[1];
        Rg a = range(x), b = range(y);
        if (val) {
          if (b.hi == 0 || a.lo == maskw(x->w)) { dead = true; return; }
          setRange(x, a.lo, std::min(a.hi, b.hi - 1)); if (dead) return;
          setRange(y, std::max(b.lo, a.lo + 1), b.hi);
        } else {
          setRange(x, std::max(a.lo, b.lo), a.hi); if (dead) return;
          setRange(y, b.lo, std::min(b.hi, a.hi));
        }
        break;
      }
      case K::Slt: {
        T x = t->a[0], y = t->a[1]; unsigned w = x->w; i128 al, ah, bl, bh;
        srange(x, al, ah); srange(y, bl, bh);
        auto ss = [&](T z, i128 l, i128 h) {
          if (l > h) { dead = true; return; }
          if (l >= 0 || h < 0) setRange(z, (u64)l & maskw(w), (u64)h & maskw(w));
        };
        if (val) { ss(x, al, std::min(ah, bh - 1)); if (!dead) ss(y, std::max(bl, al + 1), bh); }
        else { ss(x, std::max(al, bl), ah); if (!dead) ss(y, bl, std::min(bh, ah)); }
        break;
      }
      case K::And: case K::Or:
        if (t->w == 1) {
          int x = quick(t->a[0]), y = quick(t->a[1]);
          if (t->k == K::Or && val) { if (x == 0 && y == 0) dead = true; else if (x == 0) assume(t->a[1], true); else if (y == 0) assume(t->a[0], true); }
          if (t->k == K::And && !val) { if (x == 1 && y == 1) dead = true; else if (x == 1) assume(t->a[1], false); else if (y == 1) assume(t->a[0], false); }
        }
        break;
      case K::Xor:
        if (t->w == 1) for (int i = 0; i < 2; ++i) { int x = quick(t->a[i]); if (x >= 0) { assume(t->a[1 - i], x ^ val); break; } }
        break;
      case K::UMulO:
        if (!val) {
          for (int i = 0; i < 2; ++i) {
            Rg a = range(t->a[i]);
            if (a.lo > 0) { u64 m = maskw(t->a[0]->w); setRange(t->a[1 - i], 0, m / a.lo); }
            if (dead) return;
          }
        }
        break;
      case K::UAddO:
        if (!val) for (int i = 0; i < 2; ++i) {
          Rg a = range(t->a[i]); u64 m = maskw(t->a[0]->w);
          setRange(t->a[1 - i], 0, m - a.lo);
          if (dead) return;
        }
        break;
      default: break;
    }
  }

  // ---- emptiness by bisection: every box of leaf values is excluded by the numeric components
  bool empty(int& budget) const {
    if (dead) return true;
    if (--budget < 0 || searchOver()) return false;
    Facts f = *this;
    auto vals = [&](T l, u64& lo, u64& hi, u64& n) {
      if (l->w <= 8) {
        BS b = f.setOf(l); n = b.count(); lo = 256; hi = 0;
        for (unsigned i = 0; i < (1u << l->w); ++i) if (b[i]) { lo = std::min<u64>(lo, i); hi = i; }
      } else { Rg r = f.range(l); lo = r.lo; hi = r.hi; n = hi - lo + (hi - lo != ~0ull); }
    };
    auto size = [&] { u64 q = 0; for (auto& [t, r] : f.rng) q += r.hi - r.lo; for (auto& [t, b] : f.sets) q += b.count(); return q; };
    for (int round = 0; round < 4; ++round) {
      u64 was = size();
      for (T c : cons) {
        if (f.dead) return true;
        T b = c->k == K::Not ? c->a[0] : c; bool v = c->k != K::Not;
        int q = f.quick(b);
        if (q >= 0 && q != (int)v) return true;
        f.prop(b, v);
      }
      if (f.dead) return true;
      if (size() == was) break;
    }
    T best = nullptr; u64 bn = 0, blo = 0, bhi = 0;
    Env e;
    for (T c : cons) {
      bool all = true;
      for (T l : c->leaves) {
        u64 lo, hi, n; vals(l, lo, hi, n);
        if (n == 1) { e.v[l] = lo; continue; }
        all = false;
        if (!best || n < bn) { best = l; bn = n; blo = lo; bhi = hi; }
      }
      if (all) { e.memo.clear(); e.bad = false; if (!e.ev(c) && !e.bad) return true; }
    }
    if (!best) return false;
    if (f.fmInfeasible(nullptr, true)) return true;
    u64 mid = blo + (bhi - blo) / 2;
    for (int h = 0; h < 2; ++h) {
      Facts g = f;
      g.memo.clear();
      g.setRange(best, h ? mid + 1 : blo, h ? bhi : mid);
      if (!g.dead && !g.empty(budget)) return false;
    }
    return true;
  }

  // ---- concretisation non-emptiness: find a valuation satisfying all facts
  bool model(Env& out, u64 budget = 60000) const {
    std::set<T> ls;
    for (T c : cons) for (T l : c->leaves) ls.insert(l);
    std::vector<T> leaves(ls.begin(), ls.end());
    std::sort(leaves.begin(), leaves.end(), [](T a, T b) { return a->id < b->id; });
    // candidate constants
    std::set<u64> consts{0, 1, 2};
    std::set<T> seen;
    std::function<void(T)> walk = [&](T t) {
      if (!seen.insert(t).second) return;
      if (t->isC()) { consts.insert(t->c); return; }
      if (t->k == K::Lin) consts.insert(t->c), consts.insert(0 - t->c);
      for (T x : t->a) walk(x);
      for (auto& s : t->segs) walk(s.t);
      for (auto& [c, x] : t->lin) walk(x);
    };
    for (T c : cons) walk(c);
    // per-leaf position: constraints checkable once all their leaves are assigned
    std::unordered_map<T, size_t> pos;
    for (size_t i = 0; i < leaves.size(); ++i) pos[leaves[i]] = i;
    std::vector<std::vector<T>> at(leaves.size() + 1);
    for (T c : cons) { size_t m = 0; for (T l : c->leaves) m = std::max(m, pos[l] + 1); at[m].push_back(c); }
    Env e;
    u64 n = 0;
    std::function<bool(size_t, const Facts&)> go = [&](size_t i, const Facts& f) -> bool {
      if (i == leaves.size()) return true;
      T l = leaves[i];
      std::vector<u64> cand;
      if (l->w <= 8) { BS b = f.setOf(l); for (unsigned v = 0; v < (1u << l->w); ++v) if (b[v]) cand.push_back(v); }
      else {
        Rg r = f.range(l);
        auto push = [&](u64 v) { v &= maskw(l->w); if (v >= r.lo && v <= r.hi && std::find(cand.begin(), cand.end(), v) == cand.end()) cand.push_back(v); };
        push(r.lo); push(r.hi); push(r.lo + 1); push(r.hi - 1);
        for (u64 c : consts) { push(c); push(c - 1); push(c + 1); push(c >> 1); push((c >> 1) + 1); push(~c); }
        for (size_t j = 0; j < i; ++j) { u64 v = e.v[leaves[j]]; push(v); push(v + 1); push(v - 1); push(0 - v); push(~v); for (size_t k = 0; k < j; ++k) { push(v + e.v[leaves[k]]); push(v - e.v[leaves[k]]); } }
        push(r.lo + (r.hi - r.lo) / 2);
        push(0x9e3779b97f4a7c15ull % (r.hi - r.lo ? r.hi - r.lo : 1) + r.lo);
        if (cand.size() > 80) cand.resize(80);
      }
      bool refine = i < 24;
      for (u64 v : cand) {
        if (++n > budget) return false;
        e.v[l] = v; e.memo.clear();
        bool ok = true;
        for (T c : at[i + 1]) { e.bad = false; if (!e.ev(c) || e.bad) { ok = false; break; } }
        if (!ok) continue;
        if (refine) {
          Facts g = f;
          g.setRange(l, v, v);
          for (T c : cons) { if (g.dead) break; if (std::binary_search(c->leaves.begin(), c->leaves.end(), l, [](T p, T q) { return p->id < q->id; })) g.prop(c->k == K::Not ? c->a[0] : c, c->k != K::Not); }
          if (g.dead) continue;
          if (go(i + 1, g)) return true;
        } else if (go(i + 1, f)) return true;
      }
      return false;
    };
    bool r = go(0, *this);
    if (r) { for (T c : at[0]) { e.memo.clear(); if (!e.ev(c)) return false; } out = e; }
    return r;
  }
};

inline int FM::atom(T t) {
  auto k = std::make_pair((u64)t->id, -1);
  auto it = atomId.find(k);
  if (it != atomId.end()) return it->second;
  Rg r = F->range(t);
  int v = newVar((i128)r.lo, (i128)r.hi);
  atomId[k] = v;
  if (t->k == K::UDiv && t->a[1]->isC() && t->a[1]->c) {
    LE x = toInt(t->a[0]);
    LE e = x; e.v.push_back({v, -(i128)t->a[1]->c}); ge0(e);          // x - d q >= 0
    LE f; addTo(f, x, -1); f.v.push_back({v, (i128)t->a[1]->c}); f.c += t->a[1]->c - 1; ge0(f);
  }
  if (t->k == K::URem && t->a[1]->isC() && t->a[1]->c) {
    int q = atom(P.op(K::UDiv, t->w, {t->a[0], t->a[1]}));
    LE e = toInt(t->a[0]); e.v.push_back({q, -(i128)t->a[1]->c}); e.v.push_back({v, -1}); ge0(e, true);
  }
  return v;
}
inline int FM::segAtom(const Seg& s) {
  if (s.lo == 0 && s.len == s.t->w) {
    return atom(s.t);
  }
  auto k = std::make_pair((u64)s.t->id, (int)s.lo << 8 | s.len);
  auto it = atomId.find(k);
  if (it != atomId.end()) return it->second;
  Rg r = F->segRange(s);
  int v = newVar((i128)r.lo, (i128)r.hi);
  atomId[k] = v;
  // linkage: t = high*2^(lo+len) + v*2^lo + low
  LE e = toInt(s.t, 1);
  LE link; addTo(link, e, 1);
  link.v.push_back({v, -((i128)1 << s.lo)});
  if (s.lo) { Rg q = F->segRange({s.t, 0, s.lo}); int l = newVar(q.lo, q.hi); atomId[{(u64)s.t->id, (int)0 << 8 | s.lo}] = l; link.v.push_back({l, -1}); }
  unsigned top = s.t->w - s.lo - s.len;
  if (top) { Seg hs{s.t, (uint8_t)(s.lo + s.len), (uint8_t)top}; Rg q = F->segRange(hs); int h = newVar(q.lo, q.hi); atomId[{(u64)s.t->id, (int)hs.lo << 8 | hs.len}] = h; link.v.push_back({h, -((i128)1 << (s.lo + s.len))}); }
  ge0(link, true);
  // top bits of the slice known: it is that constant and a shorter slice
  for (unsigned k = 1; k < s.len; ++k) {
    Rg q = F->segRange({s.t, (uint8_t)(s.lo + k), (uint8_t)(s.len - k)});
    if (q.lo != q.hi) continue;
    LE e2; e2.c = -(i128)(q.lo << k); e2.v.push_back({v, 1}); e2.v.push_back({segAtom({s.t, s.lo, (uint8_t)k}), -1});
    ge0(e2, true);
    break;
  }
  return v;
}
// 0/1 variable: is the (signed, exact) value s of t negative?
inline int FM::signVar(T t, const LE& s) {
  auto key = std::make_pair((u64)t->id, -4);
  auto it = atomId.find(key);
  if (it != atomId.end()) return it->second;
  i128 h = (i128)1 << (t->w - 1);
  int v = newVar(0, 1); atomId[key] = v; splits.push_back(v);
  LE a; addTo(a, s, 1); a.v.push_back({v, h}); ge0(a);                    // s >= -h v
  LE b; addTo(b, s, -1); b.c += h - 1; b.v.push_back({v, -h}); ge0(b);    // s <= h-1 - h v
  return v;
}
inline LE FM::toInt(T t, int depth) {
  LE e;
  switch (t->k) {
    case K::Const: e.c = t->c; return e;
    case K::Concat: {
      if (depth > 40) break;
      unsigned pos = 0;
      for (auto& s : t->segs) {
        if (s.t->isC()) e.c += (i128)s.t->c << pos;
        else if (s.lo == 0 && s.len == s.t->w) addTo(e, toInt(s.t, depth + 1), (i128)1 << pos);
        else e.v.push_back({segAtom(s), (i128)1 << pos});
        pos += s.len;
      }
      return e;
    }
    case K::Lin: {
      if (depth > 40) break;
      if (auto x = F->exU.find(t); x != F->exU.end()) {
        if (x->second.b) { addTo(e, toInt(x->second.a, depth + 1), 1); addTo(e, toInt(x->second.b, depth + 1), x->second.k); }
        else addTo(e, toInt(x->second.a, depth + 1), x->second.k);
        return e;
      }
      if (F->exS.count(t) && depth < 38) {
        e = toSInt(t);
        Rg r = F->range(t); u64 h = 1ull << (t->w - 1);
        if (r.hi < h) return e;
        if (r.lo >= h) { e.c += (i128)1 << t->w; return e; }
        e.v.push_back({signVar(t, e), (i128)1 << t->w});
        return e;
      }
      auto key = std::make_pair((u64)t->id, -2);
      auto ck = atomId.find(key);
      e.c = sx(t->c, t->w);
      for (auto& [c, x] : t->lin) addTo(e, toInt(x, depth + 1), sx(c, t->w));
      norm(e.v);
      i128 lo = e.c, hi = e.c;
      for (auto& [x, c] : e.v) { if (c > 0) { lo += c * vars[x].lo; hi += c * vars[x].hi; } else { lo += c * vars[x].hi; hi += c * vars[x].lo; } }
      i128 M = (i128)1 << t->w;
      i128 ql = fdiv(lo, M), qh = fdiv(hi, M);
      if (ql == qh) { e.c -= ql * M; return e; }
      int kv;
      if (ck != atomId.end()) kv = ck->second;
      else {
        kv = newVar(ql, qh); atomId[key] = kv;
        if (qh - ql <= 64) splits.push_back(kv);
        LE f = e; f.v.push_back({kv, -M});
        Rg r = F->range(t);
        LE g = f; g.c -= r.lo; ge0(g);
        LE h; addTo(h, f, -1); h.c += r.hi; ge0(h);
      }
      e.v.push_back({kv, -M});
      return e;
    }
    case K::SExt: {
      if (F->exS.count(t->a[0])) {
        LE x = toSInt(t->a[0]);
        Rg r = F->range(t->a[0]); u64 h = 1ull << (t->a[0]->w - 1);
        if (r.hi < h) return x;
        if (r.lo >= h) { x.c += (i128)1 << t->w; return x; }
        x.v.push_back({signVar(t->a[0], x), (i128)1 << t->w});
        return x;
      }
      LE x = toInt(t->a[0], depth + 1);
      unsigned n = t->a[0]->w;
      Rg r = F->range(t->a[0]);
      u64 h = 1ull << (n - 1);
      if (r.hi < h) return x;
      if (r.lo >= h) { x.c += ((i128)1 << t->w) - ((i128)1 << n); return x; }
      auto key = std::make_pair((u64)t->a[0]->id, -3);
      int s;
      auto it = atomId.find(key);
      if (it != atomId.end()) s = it->second;
      else {
        s = newVar(0, 1); atomId[key] = s; splits.push_back(s);
        LE a = x; a.v.push_back({s, -(i128)h}); ge0(a);
        LE b; addTo(b, x, -1); b.c += (i128)h - 1; b.v.push_back({s, (i128)h}); ge0(b);
      }
      x.v.push_back({s, ((i128)1 << t->w) - ((i128)1 << n)});
      return x;
    }
    default: break;
  }
  e.v.push_back({atom(t), 1});
  return e;
}
inline LE FM::toSInt(T t) {
  unsigned w = t->w;
  if (t->isC()) { LE e; e.c = sx(t->c, w); return e; }
  if (t->k == K::SExt) return toSInt(t->a[0]);
  if (auto x = F->exS.find(t); x != F->exS.end()) {
    LE e; addTo(e, toSInt(x->second.a), x->second.b ? 1 : x->second.k);
    if (x->second.b) addTo(e, toSInt(x->second.b), x->second.k);
    return e;
  }
  if (t->k == K::Lin && t->lin.size() < 40) {
    LE e; e.c = sx(t->c, w);
    for (auto& [c, x] : t->lin) addTo(e, toSInt(x), sx(c, w));
    norm(e.v);
    i128 lo = e.c, hi = e.c, h = (i128)1 << (w - 1);
    for (auto& [x, c] : e.v) { if (c > 0) { lo += c * vars[x].lo; hi += c * vars[x].hi; } else { lo += c * vars[x].hi; hi += c * vars[x].lo; } }
    if (lo >= -h && hi < h) return e;
    // x + 2^(w-1) is signed what x is unsigned, less 2^(w-1)
    if (((t->c - (u64)h + 32) & maskw(w)) <= 64 && w >= 8) { LE x = toInt(P.add(t, P.C((u64)h, w))); x.c -= h; return x; }
  }
  LE x = toInt(t);
  Rg r = F->range(t);
  u64 h = 1ull << (w - 1);
  if (r.hi < h) return x;
  if (r.lo >= h) { x.c -= (i128)1 << w; return x; }
  auto key = std::make_pair((u64)t->id, -3);
  int s;
  auto it = atomId.find(key);
  if (it != atomId.end()) s = it->second;
  else {
    s = newVar(0, 1); atomId[key] = s; splits.push_back(s);
    LE a = x; a.v.push_back({s, -(i128)h}); ge0(a);
    LE b; addTo(b, x, -1); b.c += (i128)h - 1; b.v.push_back({s, (i128)h}); ge0(b);
  }
  x.v.push_back({s, -((i128)1 << w)});
  return x;
}
inline bool FM::addCond(T t, bool val) {
  auto diff = [&](LE a, LE b, i128 off) { LE e; addTo(e, a, 1); addTo(e, b, -1); e.c += off; ge0(e); };
  switch (t->k) {
    case K::Eq: {
      if (!val) return false;
      LE a = toInt(t->a[0]), b = toInt(t->a[1]);
      LE e; addTo(e, a, 1); addTo(e, b, -1); ge0(e, true);
      return true;
    }
    case K::Ult: {
      LE a = toInt(t->a[0]), b = toInt(t->a[1]);
      if (val) diff(b, a, -1); else diff(a, b, 0);
      return true;
    }
    case K::Slt: {
      LE a = toSInt(t->a[0]), b = toSInt(t->a[1]);
      if (val) diff(b, a, -1); else diff(a, b, 0);
      return true;
    }
    case K::UAddO: {
      LE e; addTo(e, toInt(t->a[0]), 1); addTo(e, toInt(t->a[1]), 1);
      i128 M = (i128)1 << t->a[0]->w;
      if (val) { e.c -= M; ge0(e); } else { LE f; addTo(f, e, -1); f.c += M - 1; ge0(f); }
      return true;
    }
    case K::UMulO: {
      T a = t->a[0], b = t->a[1];
      if (a->isC()) std::swap(a, b);
      if (!b->isC()) return false;
      LE e; addTo(e, toInt(a), (i128)b->c);
      i128 M = (i128)1 << a->w;
      if (val) { e.c -= M; ge0(e); } else { LE f; addTo(f, e, -1); f.c += M - 1; ge0(f); }
      return true;
    }
    case K::SAddO: case K::SSubO: case K::SMulO: {
      LE e; i128 L, H, al, ah, bl, bh;
      F->srange(t->a[0], al, ah); F->srange(t->a[1], bl, bh);
      if (t->k == K::SMulO) {
        T a = t->a[0], b = t->a[1];
        if (a->isC()) { std::swap(a, b); std::swap(al, bl); std::swap(ah, bh); }
        if (!b->isC()) return false;
        i128 k = sx(b->c, b->w);
        addTo(e, toSInt(a), k);
        L = std::min(al * k, ah * k); H = std::max(al * k, ah * k);
      } else {
        int sg = t->k == K::SAddO ? 1 : -1;
        addTo(e, toSInt(t->a[0]), 1); addTo(e, toSInt(t->a[1]), sg);
        L = al + (sg > 0 ? bl : -bh); H = ah + (sg > 0 ? bh : -bl);
      }
      i128 h = (i128)1 << (t->a[0]->w - 1);
      if (!val) {
        LE f; addTo(f, e, -1); f.c += h - 1; ge0(f);
        e.c += h; ge0(e);
      } else if (L >= -h) { e.c -= h; ge0(e); }          // above the maximum
      else if (H < h) { LE f; addTo(f, e, -1); f.c += -h - 1; ge0(f); }  // below the minimum
      else {
        int s = newVar(0, 1); splits.push_back(s);
        LE up; addTo(up, e, 1); up.c -= h; up.v.push_back({s, h - L}); ge0(up);
        LE dn; addTo(dn, e, -1); dn.c += -h - 1 + (H + h + 1); dn.v.push_back({s, -(H + h + 1)}); ge0(dn);
      }
      return true;
    }
    default: return false;
  }
}
inline bool FM::solve(std::vector<Row> rows, int nv, const std::vector<Var>& vars) {
  std::vector<char> used(nv, 0);
  for (auto& r : rows) for (auto& [x, c] : r.v) used[x] = 1;
  for (int i = 0; i < nv; ++i) if (used[i]) {
    rows.push_back({{{i, 1}}, -vars[i].lo, false});
    rows.push_back({{{i, -1}}, vars[i].hi, false});
  }
  auto tidy = [](Row& r) -> int {  // 0 keep, 1 drop, 2 contradiction
    norm(r.v);
    if (r.v.empty()) { if (r.eq ? r.c != 0 : r.c < 0) return 2; return 1; }
    i128 g = 0;
    for (auto& [x, c] : r.v) g = gcd(g, c);
    if (g > 1) {
      for (auto& [x, c] : r.v) c /= g;
      if (r.eq) { if (r.c % g) return 2; r.c /= g; } else r.c = fdiv(r.c, g);
    }
    return 0;
  };
  const i128 LIM = (i128)1 << 90;
  auto combine = [&](const Row& a, i128 ka, const Row& b, i128 kb, Row& o) -> bool {
    o.v.clear();
    if (ka > ((i128)1 << 66) || ka < -((i128)1 << 66) || kb > ((i128)1 << 66) || kb < -((i128)1 << 66)) return false;
    auto mul = [&](i128 x, i128 k, i128& r) { return !__builtin_mul_overflow(x, k, &r); };
    for (auto& [x, c] : a.v) { i128 r; if (!mul(c, ka, r)) return false; o.v.push_back({x, r}); }
    for (auto& [x, c] : b.v) { i128 r; if (!mul(c, kb, r)) return false; o.v.push_back({x, r}); }
    i128 r1, r2; if (!mul(a.c, ka, r1) || !mul(b.c, kb, r2)) return false;
    if (__builtin_add_overflow(r1, r2, &o.c)) return false;
    return true;
  };
  auto big = [&](Row& r) { for (auto& [x, c] : r.v) if (c > LIM || c < -LIM) return true; return false; };
  // equalities first
  for (auto& r : rows) { int k = tidy(r); if (k == 2) return true; if (k == 1) r.v.clear(); }
  for (;;) {
    int pick = -1, px = -1;
    for (size_t i = 0; i < rows.size() && pick < 0; ++i) if (rows[i].eq && !rows[i].v.empty())
      for (auto& [x, c] : rows[i].v) if (c == 1 || c == -1) { pick = (int)i; px = x; break; }
    if (pick < 0) break;
    Row e = rows[pick]; rows[pick].v.clear(); rows[pick].eq = false; rows[pick].c = 0;
    i128 ce = 0; for (auto& [x, c] : e.v) if (x == px) ce = c;
    for (auto& r : rows) {
      i128 cr = 0; for (auto& [x, c] : r.v) if (x == px) cr = c;
      if (!cr) continue;
      Row o; o.eq = r.eq;
      if (!combine(r, 1, e, -cr * ce, o)) { r.v.clear(); r.c = 0; r.eq = false; continue; }
      int k = tidy(o); if (k == 2) return true;
      if (k == 1 || big(o)) { r.v.clear(); r.c = 0; r.eq = false; } else r = o;
    }
  }
  std::vector<Row> q;
  for (auto& r : rows) {
    if (r.v.empty()) continue;
    if (r.eq) { Row n = r; for (auto& [x, c] : n.v) c = -c; n.c = -n.c; n.eq = false; q.push_back(n); r.eq = false; }
    q.push_back(r);
  }
  for (int iter = 0; iter < nv + 1; ++iter) {
    // dedupe: same lhs keep the tightest
    std::sort(q.begin(), q.end(), [](const Row& a, const Row& b) { if (a.v != b.v) return a.v < b.v; return a.c < b.c; });
    q.erase(std::unique(q.begin(), q.end(), [](const Row& a, const Row& b) { return a.v == b.v; }), q.end());
    std::map<int, std::pair<int, int>> cnt;
    for (auto& r : q) for (auto& [x, c] : r.v) (c > 0 ? cnt[x].first : cnt[x].second)++;
    if (cnt.empty()) break;
    int bx = -1; long best = 1L << 60;
    for (auto& [x, pn] : cnt) { long s = (long)pn.first * pn.second - pn.first - pn.second; if (s < best) { best = s; bx = x; } }
    std::vector<Row> pos, neg, rest;
    for (auto& r : q) {
      i128 c0 = 0; for (auto& [x, c] : r.v) if (x == bx) c0 = c;
      if (c0 > 0) pos.push_back(r); else if (c0 < 0) neg.push_back(r); else rest.push_back(r);
    }
    if (pos.size() * neg.size() + rest.size() > 1200) return false;
    for (auto& p : pos) for (auto& n : neg) {
      i128 cp = 0, cn = 0;
      for (auto& [x, c] : p.v) if (x == bx) cp = c;
      for (auto& [x, c] : n.v) if (x == bx) cn = -c;
      i128 g = gcd(cp, cn);
      Row o;
      if (!combine(p, cn / g, n, cp / g, o)) continue;
      int k = tidy(o);
      if (k == 2) return true;
      if (k == 1 || big(o)) continue;
      rest.push_back(o);
    }
    q = std::move(rest);
  }
  return false;
}
inline bool FM::infeasible() {
  for (auto& r : rows) norm(r.v);
  if (getenv("FMDBG")) { fprintf(stderr, "--FM\n"); for (auto& r : rows) { for (auto& [x, c] : r.v) fprintf(stderr, "%lld*v%d ", (long long)c, x); fprintf(stderr, "+ %lld %s 0\n", (long long)r.c, r.eq ? "==" : ">="); } for (size_t i = 0; i < vars.size(); ++i) fprintf(stderr, "  v%zu in [%lld,%lld]\n", i, (long long)vars[i].lo, (long long)vars[i].hi); }
  if (solve(rows, (int)vars.size(), vars)) return true;
  // integral bound tightening of the wrap-around quotients, narrow ones first
  std::vector<int> sp = splits;
  auto width = [&](int s) { return vars[s].hi - vars[s].lo; };
  auto byWidth = [&] { std::stable_sort(sp.begin(), sp.end(), [&](int a, int b) { return width(a) < width(b); }); };
  byWidth();
  bool wide = false;
  for (int s : sp) if (width(s) > 3) wide = true;
  int budget = 200;
  for (int round = 0; round < 3 && wide; ++round) {
    bool ch = false;
    for (int s : sp) {
      Var v = vars[s];
      while (v.lo < v.hi && budget-- > 0) {
        vars[s] = {v.lo, v.lo};
        if (!solve(rows, (int)vars.size(), vars)) break;
        ++v.lo; ch = true;
      }
      while (v.lo < v.hi && budget-- > 0) {
        vars[s] = {v.hi, v.hi};
        if (!solve(rows, (int)vars.size(), vars)) break;
        --v.hi; ch = true;
      }
      vars[s] = v;
      if (v.lo == v.hi && solve(rows, (int)vars.size(), vars)) return true;
    }
    if (!ch || budget <= 0) break;
  }
  byWidth();
  { std::vector<int> o; for (int s : sp) if (width(s) > 0 && width(s) <= 3 && o.size() < 4) o.push_back(s); sp = o; }
  std::function<bool(size_t)> dis = [&](size_t i) -> bool {
    if (searchOver()) return false;
    if (solve(rows, (int)vars.size(), vars)) return true;
    if (i == diseq.size()) return false;
    for (int sgn = -1; sgn <= 1; sgn += 2) {
      Row r; r.c = diseq[i].c * sgn - 1;
      for (auto& [x, c] : diseq[i].v) r.v.push_back({x, c * sgn});
      rows.push_back(r);
      bool k = dis(i + 1);
      rows.pop_back();
      if (!k) return false;
    }
    return true;
  };
  std::function<bool(size_t)> go = [&](size_t i) -> bool {
    if (searchOver()) return false;
    if (solve(rows, (int)vars.size(), vars)) return true;
    if (i == sp.size()) return diseq.empty() ? false : dis(0);
    Var old = vars[sp[i]];
    if (old.lo == old.hi) return go(i + 1);
    for (i128 v = old.lo; v <= old.hi; ++v) {
      vars[sp[i]] = {v, v};
      bool r = go(i + 1);
      if (!r) { vars[sp[i]] = old; return false; }
    }
    vars[sp[i]] = old;
    return true;
  };
  return go(0);
}
