// Shared by P01-P03: programs over a real ThreadPool under the controlled scheduler (engine A).
#pragma once
#include <mcsched.hpp>
#include <HXLibs/container/ThreadPool.hpp>
#include <memory>
#include <optional>
#include <thread>
#include <vector>

namespace vp {
using HX::container::ThreadPool; using HX::container::ThreadPoolData; using HX::container::FutureResult; using HX::container::Try;
using Fixed = std::integral_constant<ThreadPool::Model, ThreadPool::Model::FixedSizeAndNoCheck>;
using Async = std::integral_constant<ThreadPool::Model, ThreadPool::Model::AsyncCheck>;

struct Err { int code; };
// Plain (unsynchronised) record of one task: the scheduler's race detector proves that the future orders it.
struct Rec { int started = 0, finished = 0, thread = -1, arg = 0; };
struct Tally { int alive = 0; };
} // namespace vp
