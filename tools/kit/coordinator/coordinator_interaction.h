#pragma once
#include <functional>
#include <memory>
#include <string>
#include "butil/status.h"
#include "proto/common.pb.h"
#include "proto/meta.pb.h"
namespace dingodb {
class CoordinatorInteraction {
 public:
  std::function<butil::Status(const pb::meta::TsoRequest&, pb::meta::TsoResponse&)> fn;
  template <class S, class A, class B> butil::Status SendRequest(S, const std::string&, const A& a, B& b) { return fn(a, b); }
};
using CoordinatorInteractionPtr = std::shared_ptr<CoordinatorInteraction>;
}
