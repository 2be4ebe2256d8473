// Driver translation units: they only instantiate the public API so that its code exists as IR; nothing here is run.
#pragma once
#include "vp.pb.hpp"
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/merge.hpp>
#include <deque>
#include <memory_resource>
#include <span>
#include <vector>
#define VPROOT extern "C" __attribute__((used, noinline))
using bytes_in = std::span<const std::byte>;
using chunks_in = std::vector<std::span<const std::byte>>;
using keep = hpp_proto::keep_unknown_fields<hpp_proto::default_traits>;
using keep_view = hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>;
// an output sink about which nothing is known
struct opaque_sink {
  using slice_type = std::span<std::byte>;
  void set_message_size(std::size_t);
  std::span<std::byte> next_chunk();
  std::size_t chunk_size() const;
};
// a memory resource about which nothing is known
struct opaque_resource {
  opaque_resource(const opaque_resource &) = delete;
  opaque_resource &operator=(const opaque_resource &) = delete;
  void *allocate(std::size_t size, std::size_t align);
};
