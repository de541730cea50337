#include "vk.h"
// Containers built from standard containers and converted back.
static int64_t toI(const Variant& v) { return v.toInt64(); }
extern "C" void harness() {
  int n = vf_pick("size", 0, vf_param("size", 3)); int64_t e[4], f[4]; for (int i = 0; i < n; i++) { e[i] = vf_i64("e"); f[i] = vf_i64("f"); }
  const std::function<int64_t(const Variant&)> conv = toI; int calls = 0; const std::function<int64_t(const Variant&)> count = [&](const Variant& v) { calls++; return v.toInt64(); };
  int kind = vf_pick("container", 0, 3); Variant v; size_t want = n; int via = vf_pick("via", 0, 2);
  if (kind == 0) { std::vector<int64_t> x(e, e + n); if (via == 0) v = Variant(x); else if (via == 1) v = Variant::make(x); else { VariantVector_t q; for (int i = 0; i < n; i++) q.push_back(Variant(e[i])); v = q; } std::vector<int64_t> r = v.toVector<int64_t>(count); vf_assert(r.size() == x.size(), "vector size"); for (int i = 0; i < n; i++) vf_assert(r[i] == e[i], "vector elements in order"); }
  else if (kind == 1) { std::list<int64_t> x(e, e + n); if (via == 0) v = Variant(x); else if (via == 1) v = Variant::make(x); else { VariantList_t q; for (int i = 0; i < n; i++) q.push_back(Variant(e[i])); v = q; } std::list<int64_t> r = v.toList<int64_t>(count); vf_assert(r.size() == x.size(), "list size"); int i = 0; for (int64_t y : r) vf_assert(y == e[i++], "list elements in order"); }
  else if (kind == 2) { std::map<int64_t, int64_t> x; for (int i = 0; i < n; i++) x[e[i]] = f[i]; want = x.size(); if (via == 0) v = Variant(x); else if (via == 1) v = Variant::make(x); else { VariantMap_t q; for (auto& p : x) q.emplace(Variant(p.first), Variant(p.second)); v = q; } std::map<int64_t, int64_t> r = v.toMap<int64_t, int64_t>(conv, count); vf_assert(r.size() == x.size(), "map size"); auto a = x.begin(); for (auto& p : r) { vf_assert(p.first == a->first && p.second == a->second, "every key is mapped to its own value"); ++a; } }
  else { if (n < 1) vf_assume(0); if (via == 0) v = Variant(e[0], f[0]); else if (via == 1) v = Variant::make(e[0], f[0]); else { VariantPair_t q{Variant(e[0]), Variant(f[0])}; v = q; } std::pair<int64_t, int64_t> r = v.toPair<int64_t, int64_t>(conv, count); want = 1; vf_assert(r.first == e[0] && r.second == f[0], "pair parts in order"); }
  vf_assert(calls == static_cast<int>(want), "every element is converted once"); calls = 0;
  T t = kind == 0 ? T::VECTOR : kind == 1 ? T::LIST : kind == 2 ? T::MAP : T::PAIR; predicates(v, t);
  if (kind != 0) vf_assert(v.toVector<int64_t>(count).empty(), "other accessor"); if (kind != 1) vf_assert(v.toList<int64_t>(count).empty(), "other accessor"); if (kind != 2) vf_assert(v.toMap<int64_t, int64_t>(conv, count).empty(), "other accessor"); if (kind != 3) { auto p = v.toPair<int64_t, int64_t>(conv, count); vf_assert(p.first == 0 && p.second == 0, "other accessor"); }
  vf_assert(calls == 0, "nothing is converted by the other accessors"); vf_assert(v.toInt64() == 0 && v.toUInt64() == 0 && !v.toBool() && v.toDouble() == 0.0, "containers are not numbers");
  // nesting: the container as an element of a vector of Variants
  VariantVector_t outer; outer.push_back(v); outer.push_back(Variant(true)); Variant o(outer); auto back = o.getVector(); vf_assert(back->size() == 2 && (*back)[0].getType() == t && (*back)[0] == v && (*back)[1].toBool(), "nested container"); vf_reach("end");
}
