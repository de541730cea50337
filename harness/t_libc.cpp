#include "vf.h"
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <string.h>
#include <ctype.h>
#include <stdio.h>
#include <algorithm>
#include <vector>
#include <thread>
#include <chrono>
extern "C" void harness() {
  std::unordered_map<std::string,int> m; for (int i = 0; i < 40; i++) m["k" + std::to_string(i)] = i;
  vf_assert(m.size() == 40, "n"); for (int i = 0; i < 40; i++) vf_assert(m.at("k" + std::to_string(i)) == i, "v");
  std::string order; for (auto& e : m) order += e.first; unsigned h = 0; for (char c : order) h = h * 31 + (unsigned char)c; vf_trace("order", h);
  uint8_t c = vf_u8("c"); vf_assert(!isdigit(c) || (c >= '0' && c <= '9'), "d"); vf_assert(!isspace((char)c & 0x7f) || ((c&0x7f) <= ' '), "s");
  char b[64]; int32_t v = vf_i32("v"); vf_assume(v > -12 && v < 12); snprintf(b, sizeof b, "%5d|%-4s|%04x", v, "ab", 255u); vf_assert(strlen(b) == 5 + 1 + 4 + 1 + 4, b);
  std::vector<int> x{5,3,9,1}; x[0] = (int)(c & 3); std::sort(x.begin(), x.end()); vf_assert(std::is_sorted(x.begin(), x.end()), "sorted");
  auto t0 = std::chrono::steady_clock::now(); std::this_thread::sleep_for(std::chrono::milliseconds(3)); vf_assert(std::chrono::steady_clock::now() - t0 >= std::chrono::milliseconds(3), "slept");
  vf_reach("end");
}
