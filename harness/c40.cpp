#include "vk.h"
// Sequences of copies, moves, assignments, changes and destructions over three Variants next to a shadow of their values.
struct Shadow { T t = T::UNKNOWN; int64_t i = 0; std::string s; std::vector<int64_t> v; };   // LIST/VECTOR of int64, MAP {1: i}, PAIR (i, i), CUSTOM (0, i)
static Variant* x[3]; static Shadow sh[3];
static void same(const Variant& a, const Shadow& b) {
  vf_assert(a.getType() == b.t, "type"); vf_assert(a.isEmpty() == (b.t == T::UNKNOWN), "empty");
  switch (b.t) {
    case T::BYTE_8: vf_assert(a.toInt64() == b.i, "integer"); break; case T::STRING: vf_assert(a.toString() == b.s, "string"); break;
    case T::VECTOR: { auto p = a.getVector(); vf_assert(p->size() == b.v.size(), "vector size"); for (size_t i = 0; i < b.v.size(); i++) vf_assert((*p)[i].toInt64() == b.v[i], "vector element"); break; }
    case T::LIST: { auto p = a.getList(); vf_assert(p->size() == b.v.size(), "list size"); size_t i = 0; for (const Variant& e : *p) vf_assert(e.toInt64() == b.v[i++], "list element"); break; }
    case T::MAP: vf_assert(a.getMap()->size() == 1 && a.getMap()->at(Variant(1)).toInt64() == b.i, "map"); break; case T::PAIR: vf_assert(a.getPair()->first.toInt64() == b.i && a.getPair()->second.toInt64() == b.i, "pair"); break;
    case T::BYTEARRAY: { auto p = a.getByteArray(); vf_assert(p->size() == 2 && (*p)[0] == uint8_t(b.i) && (*p)[1] == 0, "bytes"); break; }
    case T::CUSTOM: vf_assert(a.getCustomType<Custom>()->b == b.i, "custom"); break; default: break;
  }
}
static void fill(int k, int what) {
  int64_t n = vf_i64("value"); Shadow s; s.i = n;
  switch (what) {
    case 0: *x[k] = n; s.t = T::BYTE_8; break; case 1: s.s = std::string("a\0long string that is not stored in place", 30); *x[k] = s.s; s.t = T::STRING; break; case 2: s.v = {n, n ^ 1}; *x[k] = VariantVector_t{Variant(n), Variant(n ^ 1)}; s.t = T::VECTOR; break;
    case 3: s.v = {n}; *x[k] = VariantList_t{Variant(n)}; s.t = T::LIST; break; case 4: *x[k] = VariantMap_t{{Variant(1), Variant(n)}}; s.t = T::MAP; break; case 5: *x[k] = VariantPair_t{Variant(n), Variant(n)}; s.t = T::PAIR; break;
    case 6: *x[k] = ByteArray_t{uint8_t(n), 0}; s.t = T::BYTEARRAY; break; default: *x[k] = Custom{0, n}; s.t = T::CUSTOM; break;
  }
  sh[k] = s;
}
static void change(int k) {   // through the accessors that give access to the stored value
  int64_t n = vf_i64("changed");
  switch (sh[k].t) {
    case T::VECTOR: x[k]->getVector()->emplace_back(n); sh[k].v.push_back(n); break; case T::LIST: x[k]->getList()->clear(); x[k]->getList()->emplace_back(n); sh[k].v = {n}; break; case T::MAP: (*x[k]->getMap())[Variant(1)] = n; sh[k].i = n; break;
    case T::PAIR: x[k]->getPair()->first = n; x[k]->getPair()->second = n; sh[k].i = n; break; case T::BYTEARRAY: (*x[k]->getByteArray())[0] = uint8_t(n); sh[k].i = n; break; case T::CUSTOM: x[k]->getCustomType<Custom>()->b = n; sh[k].i = n; break;
    default: vf_assume(0);
  }
  vf_reach("changed");
}
static void element(int k, int how) {   // assign a Variant from a part of itself
  if (sh[k].t != T::VECTOR) vf_assume(0);
  switch (how) {
    case 0: { vf_assume(!sh[k].v.empty()); { const Variant& e = x[k]->getVector()->front(); *x[k] = e; } int64_t n = sh[k].v[0]; sh[k] = Shadow(); sh[k].t = T::BYTE_8; sh[k].i = n; break; }
    case 1: { vf_assume(!sh[k].v.empty()); { Variant& e = x[k]->getVector()->front(); *x[k] = std::move(e); } int64_t n = sh[k].v[0]; sh[k] = Shadow(); sh[k].t = T::BYTE_8; sh[k].i = n; break; }
    default: { const VariantVector_t& r = *x[k]->getVector(); *x[k] = r; break; }
  }
  vf_reach("element");
}
extern "C" void harness() {
  uint64_t live = vf_heap_live(); int ops = vf_param("ops", 4), kinds = vf_param("kinds", 8);
  { Variant a, b; x[0] = new Variant(); x[1] = new Variant(); x[2] = new Variant(); for (Shadow& s : sh) s = Shadow();
    fill(0, vf_pick("kind", 0, kinds - 1));
    for (int n = 0; n < ops; n++) {
      int op = vf_pick("op", 0, 9), k = vf_pick("at", 0, op < 7 ? 2 : 1), o = op < 6 ? vf_pick("other", 0, 2) : 0;
      switch (op) {
        case 0: *x[k] = *x[o]; sh[k] = sh[o]; if (k != o && sh[k].t != T::UNKNOWN) { vf_assert(*x[k] == *x[o] && !(*x[k] != *x[o]), "copy equals its source"); vf_reach("copied"); } break;
        case 1: if (k == o) { *x[k] = std::move(*x[o]); } else { *x[k] = std::move(*x[o]); sh[k] = sh[o]; sh[o] = Shadow(); } break;
        case 2: { vf_assume(k != o); Variant* p = new Variant(*x[o]); delete x[k]; x[k] = p; sh[k] = sh[o]; break; }
        case 3: { Variant* p = new Variant(std::move(*x[o])); Shadow s = sh[o]; sh[o] = Shadow(); delete x[k]; x[k] = p; sh[k] = s; if (k != o) vf_reach("moved"); break; }
        case 4: { vf_assume(k != o); x[k]->operator=(VariantVector_t{*x[o]}); same((*x[k]->getVector())[0], sh[o]); *x[k] = Variant(*(&(*x[k]->getVector())[0])); sh[k] = sh[o]; break; }   // through a container
        case 5: { vf_assume(k != o); std::swap(*x[k], *x[o]); std::swap(sh[k], sh[o]); break; }
        case 6: x[k]->clear(); sh[k] = Shadow(); break;
        case 7: change(k); break;
        case 8: element(k, vf_pick("part", 0, 2)); break;
        default: fill(k, 2 * vf_bool("vector")); break;
      }
      for (int i = 0; i < 3; i++) same(*x[i], sh[i]);
    }
    for (int i = 0; i < 3; i++) { delete x[i]; sh[i] = Shadow(); x[i] = nullptr; }
  }
  for (Shadow& s : sh) { s.v.shrink_to_fit(); s.s.shrink_to_fit(); std::vector<int64_t>().swap(s.v); std::string().swap(s.s); }
  vf_assert(vf_heap_live() == live, "all storage is released"); vf_reach("end");
}
