#include "vk.h"
// Text of every type; integer texts are checked digit by digit and parsed back.
template <class X> void integer(X x) {
  Variant v(x); std::string s = v.toString(); bool neg = x < 0; size_t i = neg ? 1 : 0;
  vf_assert(s.size() > i && s.size() <= 20 && (!neg || s[0] == '-'), "sign and length"); vf_assert(s.size() == i + 1 || s[i] != '0', "no leading zero");
  uint64_t m = 0; bool ok = true; for (size_t j = i; j < s.size(); j++) { ok = ok && s[j] >= '0' && s[j] <= '9'; m = m * 10 + static_cast<uint64_t>(s[j] - '0'); }
  vf_assert(ok, "decimal digits only"); vf_assert(m == (neg ? 0 - static_cast<uint64_t>(static_cast<int64_t>(x)) : static_cast<uint64_t>(x)), "decimal value");
  if (vf_param("parse", 1)) { Variant t(s); if (std::is_signed<X>::value) vf_assert(t.toInt64() == static_cast<int64_t>(x), "parsed back"); else vf_assert(t.toUInt64() == static_cast<uint64_t>(x), "parsed back"); }
  vf_reach("integer");
}
static const uint64_t POW[] = {0, 10, 100, 1000, 10000, 100000, 1000000, 100000000, 10000000000ull, 1000000000000000ull, 1000000000000000000ull, 10000000000000000000ull, 1ull << 32, 1ull << 63, 0};
extern "C" void harness() {
  switch (vf_param("mode", 0)) {
    case 0: switch (vf_pick("type", 0, 2)) { case 0: integer(static_cast<int8_t>(vf_u8("v"))); break; case 1: integer(vf_u8("v")); break; default: { int hi = vf_pick("high", 0, 255); if (!vf_param("all", 0) && hi != 0x27 && hi != 0x80) vf_assume(0); uint16_t v = static_cast<uint16_t>(hi << 8 | vf_u8("v")); if (vf_pick("signed", 0, 1)) integer(static_cast<int16_t>(v)); else integer(v); break; } } break;
    case 1: {   // wider types: windows around the powers of ten and the limits of the types
      int64_t off = vf_pick("offset", -vf_param("window", 12), vf_param("window", 12)); int p = vf_pick("power", 0, 14), t = vf_pick("type", 0, 3); uint64_t b = POW[p]; bool minus = t < 2 && vf_pick("minus", 0, 1); uint64_t x = (minus ? 0 - b : b) + static_cast<uint64_t>(off);
      switch (t) { case 0: integer(static_cast<int32_t>(x)); break; case 1: integer(static_cast<int64_t>(x)); break; case 2: integer(static_cast<uint32_t>(x)); break; default: integer(x); } break; }
    case 2: { bool b = vf_bool("b"); vf_assert(Variant(b).toString() == (b ? "true" : "false"), "boolean"); std::string s = symString("s", vf_pick("len", 0, vf_param("len", 4))); vf_assert(Variant(s).toString() == s, "string"); ByteArray_t y(s.begin(), s.end()); std::string r = Variant(y).toString(); vf_assert(r == s, "byte array"); vf_assert(Variant().toString().empty(), "empty"); vf_reach("text"); break; }
    case 4: {   // doubles: six decimals of the stored value
      static const int64_t W[] = {0, 1, 3, 255, 65537, 16777217, 123456789, 4294967297ll, 9007199254740ll}; int64_t w = W[vf_pick("whole", 0, 8)]; int q = vf_pick("quarters", 0, 3); bool minus = vf_bool("minus"); double x = static_cast<double>(w * 4 + q) / 4; if (minus) x = -x;
      static const char* const Q[] = {".000000", ".250000", ".500000", ".750000"}; std::string want = std::to_string(w) + Q[q]; if (minus) want = "-" + want;
      vf_assert(Variant(x).toString() == want, "double"); vf_reach("double"); break; }
    default: {   // containers (elements with a non-empty text)
      int n = vf_pick("n", 0, vf_param("size", 3)); VariantVector_t x; std::string want, wantMap; VariantMap_t m;
      for (int i = 0; i < n; i++) { std::string e = symString("e", vf_pick("len", 1, 2)); x.emplace_back(e); if (i) { want += ", "; wantMap += ", "; } want += e; m.emplace(Variant(i), Variant(e)); wantMap += static_cast<char>('0' + i); wantMap += "=[" + e + "]"; }
      vf_assert(Variant(x).toString() == want, "vector"); vf_assert(Variant(VariantList_t(x.begin(), x.end())).toString() == want, "list"); vf_assert(Variant(m).toString() == wantMap, "map"); vf_assert(Variant(VariantPair_t{Variant(want), Variant(n)}).toString() == "(" + want + ", " + static_cast<char>('0' + n) + ")", "pair"); vf_assert(Variant(VariantMap_t{{Variant(1), Variant(m)}, {Variant(2), Variant(x)}}).toString() == "1=[" + wantMap + "], 2=[" + want + "]", "map of containers"); vf_assert(Variant(VariantPair_t{Variant(m), Variant(x)}).toString() == "(" + wantMap + ", " + want + ")", "pair of containers"); vf_assert(Variant(VariantVector_t{Variant(x), Variant(7)}).toString() == (n ? want + ", 7" : "7"), "nested"); vf_reach("containers"); break; }
  }
  vf_reach("end");
}
