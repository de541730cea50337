#include "vk.h"
// Conversions of numbers, strings (all bytes symbolic) and unsupported types against an independent parser.
struct Parsed { bool any, neg, over; uint64_t mag; };
static Parsed parse(const char* s, int n) {   // leading decimal integer
  int i = 0; while (i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\v' || s[i] == '\f' || s[i] == '\r')) i++;
  Parsed p{false, false, false, 0}; if (i < n && (s[i] == '-' || s[i] == '+')) { p.neg = s[i] == '-'; i++; }
  for (; i < n && s[i] >= '0' && s[i] <= '9'; i++) { p.any = true; uint64_t d = s[i] - '0'; if (p.mag > (UINT64_MAX - d) / 10) p.over = true; else p.mag = p.mag * 10 + d; }
  return p;
}
static int64_t asInt(const Parsed& p) { if (!p.any || p.over || p.mag > (p.neg ? 1ull << 63 : (1ull << 63) - 1)) return 0; return static_cast<int64_t>(p.neg ? 0 - p.mag : p.mag); }
static uint64_t asUInt(const Parsed& p) { if (!p.any || p.over) return 0; return p.neg ? 0 - p.mag : p.mag; }
template <class X> void number(X x) {
  Variant v = build(x); vf_assert(v.toInt64() == static_cast<int64_t>(x), "toInt64"); vf_assert(v.toUInt64() == static_cast<uint64_t>(x), "toUInt64"); vf_assert(v.toDouble() == static_cast<double>(x), "toDouble"); vf_assert(v.toBool() == (x != 0), "toBool");
  vf_assert(Variant(v).toInt64() == static_cast<int64_t>(x), "unchanged"); vf_reach("number");
}
static void text(const std::string& s) {
  Variant v = build(s); Parsed p = parse(s.data(), s.size());
  vf_assert(v.toInt64() == asInt(p), "toInt64 of a string"); vf_assert(v.toUInt64() == asUInt(p), "toUInt64 of a string");
  // "0.5" is a non-zero number as well as text with a leading zero: only texts without fraction are decided
  bool plain = s == "true" || s.find('.') == std::string::npos; if (plain) vf_assert(v.toBool() == (s == "true" || asInt(p) != 0), "toBool of a string");
  if (asInt(p)) vf_reach("parsed"); if (!p.any) vf_reach("no_number");
}
extern "C" void harness() {
  switch (vf_param("mode", 0)) {
    case 0:
      switch (vf_pick("type", 0, 12)) {
        case 0: number(static_cast<int8_t>(vf_u8("v"))); break; case 1: number(static_cast<int16_t>(vf_u16("v"))); break; case 2: number(vf_i32("v")); break; case 3: number(vf_i64("v")); break;
        case 4: number(vf_u8("v")); break; case 5: number(vf_u16("v")); break; case 6: number(vf_u32("v")); break; case 7: number(vf_u64("v")); break; case 8: number(vf_bool("v")); break;
        case 9: { uint64_t bits = vf_u64("v"); double d; memcpy(&d, &bits, 8); vf_assume(d > -9.2e18 && d < 9.2e18); Variant v = build(d); vf_assert(v.toInt64() == static_cast<int64_t>(d), "toInt64 of a double"); vf_assert(v.toBool() == (d != 0.0), "toBool of a double"); if (d > -1.0) vf_assert(v.toUInt64() == static_cast<uint64_t>(d), "toUInt64 of a double"); vf_assert(v.toDouble() == d, "toDouble of a double"); vf_reach("double"); break; }
        case 10: { uint64_t bits = vf_u64("v"); double d; memcpy(&d, &bits, 8); vf_assume(d >= 9.2e18 && d < 1.8e19); Variant v = build(d); vf_assert(v.toUInt64() == static_cast<uint64_t>(d), "toUInt64 of a large double"); break; }
        case 11: { Variant v; switch (vf_pick("kind", 0, 6)) { case 0: v = ByteArray_t{1, 2}; break; case 1: v = VariantVector_t{Variant(5)}; break; case 2: v = VariantList_t{Variant(5)}; break; case 3: v = VariantMap_t{{Variant(1), Variant(2)}}; break; case 4: v = VariantPair_t{Variant(1), Variant(2)}; break; case 5: v = Custom{1, 2}; break; default: break; }
          vf_assert(v.toInt64() == 0 && v.toUInt64() == 0 && v.toDouble() == 0.0 && !v.toBool(), "no number in it"); vf_reach("unsupported"); break; }
        default: { uint8_t a = vf_u8("a"); uint16_t b = vf_u16("b"); uint32_t c = vf_u32("c"); bool d = vf_bool("d"); std::string s = symString("s", 2); ByteArray_t want{a, uint8_t(b), uint8_t(b >> 8), uint8_t(c), uint8_t(c >> 8), uint8_t(c >> 16), uint8_t(c >> 24), uint8_t(d), uint8_t(s[0]), uint8_t(s[1]), 0, 7}; Variant ba(ByteArray_t{0, 7});
          VariantVector_t x{Variant(a), Variant(b), Variant(c), Variant(d), Variant(s), ba}; VariantList_t l(x.begin(), x.end()); vf_assert(Variant(x).toByteArray() == want, "bytes of a vector"); vf_assert(Variant(l).toByteArray() == want, "bytes of a list"); vf_assert(Variant(VariantPair_t{Variant(b), Variant(s)}).toByteArray() == (ByteArray_t{uint8_t(b), uint8_t(b >> 8), uint8_t(s[0]), uint8_t(s[1])}), "bytes of a pair");
          vf_assert(Variant(VariantVector_t()).toByteArray().empty(), "bytes of an empty vector"); break; }
      }
      break;
    case 1: text(symString("v", vf_pick("len", 0, vf_param("len", 4)))); break;
    case 2: {   // around the limits: a concrete prefix, then four symbolic digits
      static const char* const pre[] = {"92233720368547758", "18446744073709551", "99999999999999999", "0000000000000000000", "922337203685477", "1844674407370955"};
      std::string s = vf_bool("sign") ? (vf_bool("minus") ? "-" : "+") : ""; s += pre[vf_pick("prefix", 0, vf_param("prefixes", 4) - 1)]; char b[4]; int dn = vf_param("digits", 3); vf_bytes(b, 4, "v"); for (int j = 0; j < 4; j++) vf_assume(b[j] >= '0' && b[j] <= '9'); s.append(b, vf_pick("digits", 1, dn));
      Parsed p = parse(s.data(), s.size()); Variant v(s); vf_assert(v.toInt64() == asInt(p), "toInt64 of a long string"); vf_assert(v.toUInt64() == asUInt(p), "toUInt64 of a long string"); vf_assert(v.toBool() == (asInt(p) != 0), "toBool of a long string"); if (p.over) vf_reach("overflow"); else if (asInt(p)) vf_reach("fits"); break; }
    default: {   // decimal texts: [sign]d[d][.d][e[-]d]
      std::string s; double want; bool neg = vf_bool("minus"); if (neg) s += '-'; int form = vf_pick("form", 0, 5), n = form < 2 ? vf_pick("digits", 1, 3) : 1; uint64_t m = 0; for (int i = 0; i < n; i++) { uint8_t d; if (form < 2) { d = vf_u8("d"); vf_assume(d < 10); } else d = vf_pick("d", 0, 9); s += char('0' + d); m = m * 10 + d; }
      want = static_cast<double>(m); switch (form) { case 0: break; case 1: s += "xyz"; break; case 2: { int d = vf_pick("f", 0, 9); s += '.'; s += char('0' + d); want = static_cast<double>(m * 10 + d) / 10.0; break; } case 3: s += "e2"; want = static_cast<double>(m) * 100.0; break; case 4: s += "E-1x"; want = static_cast<double>(m) / 10.0; break; default: s += "."; }
      if (neg) want = -want; vf_assert(Variant(s).toDouble() == want, "toDouble of a string"); vf_assert(Variant("x" + s).toDouble() == 0.0 && Variant("1e999").toDouble() == 0.0 && Variant(std::string()).toDouble() == 0.0, "no number in the string"); vf_reach("decimal"); break; }
  }
  vf_reach("end");
}
