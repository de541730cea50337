#pragma once
#include "vf.h"
#include <memory>
#include <hsmcpp/HsmEventDispatcherSTD.hpp>
using namespace hsmcpp;
// ---- the real standard dispatcher, with its internals visible to the harness
struct S : public HsmEventDispatcherSTD {
  explicit S(size_t cache = 8) : HsmEventDispatcherSTD(cache) {}
  static std::shared_ptr<S> create(size_t cache = 8) { return std::shared_ptr<S>(new S(cache), &HsmEventDispatcherBase::handleDelete); }
};
