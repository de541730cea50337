// Arduino boards have a 32-bit unsigned long; the analysed code is compiled for a 64-bit host. All standard headers are
// included first, then "long" in the library's own sources is given the width it has on the target.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <signal.h>
#define long int
