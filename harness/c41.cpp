#include "vk.h"
// The six comparison operators against the mathematical order.
struct Num { bool neg; uint64_t u; bool operator<(const Num& o) const { return neg != o.neg ? neg : u < o.u; } bool operator==(const Num& o) const { return neg == o.neg && u == o.u; } bool operator!=(const Num& o) const { return !(*this == o); } };
template <class X> Num num(X x) { return Num{x < 0, static_cast<uint64_t>(x)}; }
static Variant integer(int t, uint64_t raw, Num& m) {
  switch (t) { case 0: m = num(int8_t(raw)); return Variant(int8_t(raw)); case 1: m = num(int16_t(raw)); return Variant(int16_t(raw)); case 2: m = num(int32_t(raw)); return Variant(int32_t(raw)); case 3: m = num(int64_t(raw)); return Variant(int64_t(raw));
    case 4: m = num(uint8_t(raw)); return Variant(uint8_t(raw)); case 5: m = num(uint16_t(raw)); return Variant(uint16_t(raw)); case 6: m = num(uint32_t(raw)); return Variant(uint32_t(raw)); default: m = num(uint64_t(raw)); return Variant(uint64_t(raw)); }
}
static void ordered(const Variant& a, const Variant& b, bool lt, bool eq, const char* what) {
  bool gt = !lt && !eq;
  vf_assert((a == b) == eq && (b == a) == eq, what); vf_assert((a != b) == !eq && (b != a) == !eq, what); vf_assert((a < b) == lt && (b > a) == lt, what); vf_assert((a > b) == gt && (b < a) == gt, what); vf_assert((a <= b) == (lt || eq) && (b >= a) == (lt || eq), what); vf_assert((a >= b) == (gt || eq) && (b <= a) == (gt || eq), what);
  vf_assert(a == a && !(a != a) && !(a < a) && !(a > a) && a <= a && a >= a, "reflexive"); Variant c(a); vf_assert(c == a && !(c < a) && !(c > a) && c <= a && c >= a, "copy");
  if (lt) vf_reach("less"); else if (eq) vf_reach("equal"); else vf_reach("greater");
}
static int cmp(const std::string& a, const std::string& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { unsigned char p = a[i], q = b[i]; if (p != q) return p < q ? -1 : 1; } return a.size() < b.size() ? -1 : a.size() > b.size(); }
extern "C" void harness() {
  switch (vf_param("mode", 0)) {
    case 0: { Num m, n; Variant a = integer(vf_pick("type_a", 0, 7), vf_u64("a"), m), b = integer(vf_pick("type_b", 0, 7), vf_u64("b"), n); ordered(a, b, m < n, m == n, "order of integers"); break; }
    case 1: { int len = vf_param("len", 2); std::string s = symString("a", vf_pick("len_a", 0, len)), t = symString("b", vf_pick("len_b", 0, len)); ordered(Variant(s), Variant(t), cmp(s, t) < 0, cmp(s, t) == 0, "order of strings");
      if (vf_pick("also", 0, 2) == 0) { bool p = vf_bool("p"), q = vf_bool("q"); ordered(Variant(p), Variant(q), p < q, p == q, "order of booleans"); } ByteArray_t u(s.begin(), s.end()), v(t.begin(), t.end()); ordered(Variant(u), Variant(v), cmp(s, t) < 0, cmp(s, t) == 0, "order of byte arrays"); break; }
    case 2: {   // maps keyed by integers of mixed types, strings or booleans find every key
      VariantMap_t x; int n = vf_param("keys", 3);
      if (vf_bool("strings")) { std::string k[4]; for (int i = 0; i < n; i++) { k[i] = symString("key", vf_pick("len", 0, 1 + (i == 0))); for (int j = 0; j < i; j++) vf_assume(cmp(k[i], k[j]) != 0); x.emplace(Variant(k[i]), Variant(i)); } vf_assert(static_cast<int>(x.size()) == n, "distinct keys are kept apart"); for (int i = 0; i < n; i++) { auto it = x.find(Variant(k[i])); vf_assert(it != x.end() && it->second.toInt64() == i, "key is found"); } }
      else { Num k[4]; Variant v[4]; for (int i = 0; i < n; i++) { static const int types[] = {0, 3, 6, 7}; v[i] = integer(types[vf_pick("type", 0, 3)], vf_u64("key"), k[i]); for (int j = 0; j < i; j++) vf_assume(k[i] != k[j]); x.emplace(v[i], Variant(i)); } vf_assert(static_cast<int>(x.size()) == n, "distinct keys are kept apart"); for (int i = 0; i < n; i++) { auto it = x.find(v[i]); vf_assert(it != x.end() && it->second.toInt64() == i, "key is found"); if (!k[i].neg) { auto o = x.find(Variant(k[i].u)); vf_assert(o != x.end() && o->second.toInt64() == i, "key is found by a value of another type"); } } }
      vf_reach("found"); break; }
    default: {   // doubles that are equal or clearly apart, containers, different kinds, empty
      switch (vf_pick("what", 0, 4)) {
        case 0: { static const double t[] = {-1e300, -4294967297.0, -2.5, -1.0, -0.001, 0.0, 1e-5, 0.5, 1.0, 1.25, 255.0, 1e10, 1e300}; int i = vf_pick("i", 0, 12), j = vf_pick("j", 0, 12); ordered(Variant(t[i]), Variant(t[j]), i < j, i == j, "order of doubles"); break; }
        case 1: { static const double t[] = {-1e30, -2.5, -1.0, 0.0, 0.5, 200.0, 1e30}; int i = vf_pick("i", 0, 6); Num m; uint8_t raw = vf_pick("v", 0, 7); raw = raw < 4 ? raw - 2 : raw == 4 ? 127 : raw == 5 ? 128 : raw == 6 ? 200 : 255; Variant v = integer(4 * vf_bool("unsigned"), raw, m); double d = m.neg ? -static_cast<double>(0 - m.u) : static_cast<double>(m.u); ordered(Variant(t[i]), v, t[i] < d, t[i] == d, "double and integer"); break; }
        case 2: { int n = vf_pick("n", 0, 2), k = vf_pick("k", 0, 2); int32_t a[2] = {vf_i32("a"), vf_i32("a")}, b[2] = {vf_i32("b"), vf_i32("b")}; VariantVector_t x, y; for (int i = 0; i < n; i++) x.emplace_back(a[i]); for (int i = 0; i < k; i++) y.emplace_back(b[i]); bool eq = n == k; for (int i = 0; i < n && i < k; i++) eq = eq && a[i] == b[i];
          auto both = [&](const Variant& p, const Variant& q) { vf_assert((p == q) == eq && (q == p) == eq && (p != q) == !eq, "equality of containers"); vf_assert((p < q) + (p > q) + (p == q) == 1 && (p < q) == (q > p) && (p <= q) == (p < q || p == q) && (p >= q) == (p > q || p == q), "order of containers"); };
          both(Variant(x), Variant(y)); both(Variant(VariantList_t(x.begin(), x.end())), Variant(VariantList_t(y.begin(), y.end()))); break; }
        case 3: { int32_t a = vf_i32("a"), b = vf_i32("b"), c = vf_i32("c"), d = vf_i32("d"); Variant p(VariantPair_t{Variant(a), Variant(b)}), q(VariantPair_t{Variant(c), Variant(d)}); bool lt = a < c || (a == c && b < d), eq = a == c && b == d; ordered(p, q, lt, eq, "order of pairs"); Variant m(VariantMap_t{{Variant(a), Variant(b)}}), n(VariantMap_t{{Variant(c), Variant(d)}}); vf_assert((m == n) == eq && (m != n) == !eq, "equality of maps"); Variant cu(Custom{a, b}), cv(Custom{c, d}); vf_assert((cu == cv) == eq && (cu != cv) == !eq, "equality of custom values"); break; }
        default: { Variant v[] = {Variant(), Variant(vf_i32("a")), Variant(vf_bool("b")), Variant(symString("s", 1)), Variant(ByteArray_t{vf_u8("c")}), Variant(VariantVector_t()), Variant(VariantList_t()), Variant(VariantMap_t()), Variant(VariantPair_t()), Variant(Custom{1, 2})}; int i = vf_pick("i", 0, 9), j = vf_pick("j", 0, 9); vf_assert((v[i] == v[j]) == (i == j) && (v[i] != v[j]) == (i != j), "values of different kinds are not equal"); if (i != j) vf_assert(!(v[i] > v[j]), "values of different kinds are not greater"); break; }
      }
    }
  }
  vf_reach("end");
}
