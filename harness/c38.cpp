#include "vk.h"
// A value of every supported type goes in (constructor, make, assignment) and comes out unchanged.
template <class X> void integer(T t, X x) {
  Variant v = build(x); predicates(v, t); vf_assert(v.toInt64() == static_cast<int64_t>(x), "toInt64"); vf_assert(v.toUInt64() == static_cast<uint64_t>(x), "toUInt64");
  ByteArray_t b = v.toByteArray(); vf_assert(b.size() == sizeof(X), "byte count"); X y; memcpy(&y, b.data(), sizeof y); vf_assert(x == y, "bytes"); vf_assert(v == Variant(x) && !(v != Variant(x)), "equal to another Variant of the value");
  v.clear(); predicates(v, T::UNKNOWN); vf_reach("integer");
}
extern "C" void harness() {
  int n = vf_param("len", 3);
  switch (vf_pick("type", 0, 17)) {
    case 0: integer<int8_t>(T::BYTE_1, vf_u8("v")); break; case 1: integer<int16_t>(T::BYTE_2, vf_u16("v")); break; case 2: integer<int32_t>(T::BYTE_4, vf_i32("v")); break; case 3: integer<int64_t>(T::BYTE_8, vf_i64("v")); break;
    case 4: integer<uint8_t>(T::UBYTE_1, vf_u8("v")); break; case 5: integer<uint16_t>(T::UBYTE_2, vf_u16("v")); break; case 6: integer<uint32_t>(T::UBYTE_4, vf_u32("v")); break; case 7: integer<uint64_t>(T::UBYTE_8, vf_u64("v")); break;
    case 8: { uint64_t bits = vf_u64("v"); vf_assume(((bits >> 52) & 0x7ff) != 0x7ff); double d; memcpy(&d, &bits, 8); Variant v = build(d); predicates(v, T::DOUBLE); double r = v.toDouble(); uint64_t rb; memcpy(&rb, &r, 8); vf_assert(rb == bits, "double"); ByteArray_t b = v.toByteArray(); vf_assert(b.size() == 8 && !memcmp(b.data(), &bits, 8), "bytes of a double"); vf_reach("double"); break; }
    case 9: { bool x = vf_bool("v"); Variant v = build(x); predicates(v, T::BOOL); vf_assert(v.toBool() == x, "bool"); ByteArray_t b = v.toByteArray(); vf_assert(b.size() == 1 && b[0] == (x ? 1 : 0), "bytes of a bool"); break; }
    case 10: { std::string s = symString("v", vf_pick("len", 0, n)); Variant v = build(s); predicates(v, T::STRING); std::string r = v.toString(); vf_assert(r == s, "string"); ByteArray_t b = v.toByteArray(); vf_assert(b.size() == s.size() && (s.empty() || !memcmp(b.data(), s.data(), s.size())), "bytes of a string"); vf_reach("string"); break; }
    case 11: { int l = vf_pick("len", 0, n); char c[8] = {0}; if (l) vf_bytes(c, l, "v"); for (int i = 0; i < l; i++) vf_assume(c[i] != 0); Variant v; if (vf_bool("assigned")) v = static_cast<const char*>(c); else v = Variant(static_cast<const char*>(c)); predicates(v, T::STRING); vf_assert(v.toString() == std::string(c), "C string"); break; }
    case 12: { int l = vf_pick("len", 0, n); char c[8]; if (l) vf_bytes(c, l, "v"); ByteArray_t b(c, c + l); Variant v = vf_bool("from_pointer") ? Variant(static_cast<const char*>(c), static_cast<size_t>(l)) : build(b); predicates(v, T::BYTEARRAY); vf_assert(*v.getByteArray() == b && v.toByteArray() == b, "byte array"); vf_reach("bytes"); break; }
    case 13: { VariantVector_t x; int l = vf_pick("len", 0, n); for (int i = 0; i < l; i++) x.emplace_back(vf_i32("e")); Variant v = build(x); predicates(v, T::VECTOR); vf_assert(v.getVector()->size() == x.size(), "size"); for (int i = 0; i < l; i++) vf_assert((*v.getVector())[i].toInt64() == x[i].toInt64() && (*v.getVector())[i].getType() == T::BYTE_4, "vector element"); break; }
    case 14: { VariantList_t x; int l = vf_pick("len", 0, n); for (int i = 0; i < l; i++) x.emplace_back(vf_u64("e")); Variant v = build(x); predicates(v, T::LIST); vf_assert(v.getList()->size() == x.size(), "size"); auto a = x.begin(); for (const Variant& y : *v.getList()) { vf_assert(y.toUInt64() == a->toUInt64() && y.getType() == T::UBYTE_8, "list element"); ++a; } break; }
    case 15: { VariantMap_t x; int32_t k = vf_i32("key"), k2 = vf_i32("key2"); int64_t a = vf_i64("a"), b = vf_i64("b"); vf_assume(k < k2); x.emplace(Variant(k), Variant(a)); x.emplace(Variant(k2), Variant(b)); Variant v = build(x); predicates(v, T::MAP); auto m = v.getMap(); vf_assert(m->size() == 2 && m->begin()->first.toInt64() == k && m->begin()->second.toInt64() == a && m->rbegin()->first.toInt64() == k2 && m->rbegin()->second.toInt64() == b, "map"); break; }
    case 16: { VariantPair_t x{Variant(vf_u8("a")), Variant(symString("b", 2))}; Variant v = build(x); predicates(v, T::PAIR); vf_assert(v.getPair()->first.toUInt64() == x.first.toUInt64() && v.getPair()->second.toString() == x.second.toString(), "pair"); Variant w(static_cast<uint8_t>(x.first.toUInt64()), x.second.toString()); predicates(w, T::PAIR); vf_assert(w == v, "pair built from its parts"); break; }
    default: { Custom c{vf_i32("a"), vf_i64("b")}; Variant v = vf_bool("make_custom") ? Variant::makeCustom(c) : build(c); predicates(v, T::CUSTOM); vf_assert(*v.getCustomType<Custom>() == c, "custom"); vf_reach("custom"); break; }
  }
  Variant e; predicates(e, T::UNKNOWN); vf_assert(e.toInt64() == 0 && e.toUInt64() == 0 && e.toDouble() == 0.0 && !e.toBool() && e.toString().empty() && e.toByteArray().empty(), "reading an empty Variant");
  vf_assert(e.toVector<int>([](const Variant&) { return 1; }).empty() && e.toList<int>([](const Variant&) { return 1; }).empty() && e.toMap<int, int>([](const Variant&) { return 1; }, [](const Variant&) { return 1; }).empty(), "containers of an empty Variant"); vf_reach("end");
}
