// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/empty.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/empty.msg.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Empty<Traits> &) -> std::tuple<
>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
