#pragma once
#include "vf.h"
#include <hsmcpp/variant.hpp>
#include <string>
#include <cstring>
#include <list>
#include <map>
#include <utility>
#include <vector>
#include <algorithm>
#include <cmath>
using namespace hsmcpp;
using T = Variant::Type;
struct Custom { int a; int64_t b; bool operator==(const Custom& o) const { return a == o.a && b == o.b; } bool operator>(const Custom& o) const { return a > o.a || (a == o.a && b > o.b); } };
// exactly the type predicates documented for type t hold
inline void predicates(const Variant& v, T t) {
  bool num = t >= T::BYTE_1 && t <= T::DOUBLE, uns = t >= T::UBYTE_1 && t <= T::UBYTE_8;
  vf_assert(v.getType() == t, "type"); vf_assert(v.isEmpty() == (t == T::UNKNOWN), "isEmpty"); vf_assert(static_cast<bool>(v) == (t != T::UNKNOWN), "operator bool"); vf_assert(v.isNumeric() == num, "isNumeric"); vf_assert(v.isUnsignedNumeric() == uns, "isUnsignedNumeric");
  vf_assert(v.isSignedNumeric() == (num && !uns), "isSignedNumeric"); vf_assert(v.isBool() == (t == T::BOOL), "isBool"); vf_assert(v.isString() == (t == T::STRING), "isString"); vf_assert(v.isByteArray() == (t == T::BYTEARRAY), "isByteArray");
  vf_assert(v.isVector() == (t == T::VECTOR), "isVector"); vf_assert(v.isList() == (t == T::LIST), "isList"); vf_assert(v.isMap() == (t == T::MAP), "isMap"); vf_assert(v.isPair() == (t == T::PAIR), "isPair"); vf_assert(v.isCustomType() == (t == T::CUSTOM), "isCustomType");
  vf_assert((v.getByteArray() != nullptr) == (t == T::BYTEARRAY), "getByteArray"); vf_assert((v.getVector() != nullptr) == (t == T::VECTOR), "getVector"); vf_assert((v.getList() != nullptr) == (t == T::LIST), "getList"); vf_assert((v.getMap() != nullptr) == (t == T::MAP), "getMap"); vf_assert((v.getPair() != nullptr) == (t == T::PAIR), "getPair");
  vf_assert((v.getCustomType<Custom>() != nullptr) == (t == T::CUSTOM), "getCustomType");
}
// builds a Variant of x by constructor, make() or assignment over an existing value of another type
template <class X> Variant build(const X& x) {
  switch (vf_pick("how", 0, 3)) { case 0: return Variant(x); case 1: return Variant::make(x); case 2: { Variant v; v = x; return v; } default: { Variant v = Variant::make(std::string("before")); v = x; return v; } }
}
inline std::string symString(const char* name, int n) { char b[24]; if (n) vf_bytes(b, n, name); return std::string(b, n); }
