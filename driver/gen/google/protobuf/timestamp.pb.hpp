// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/timestamp.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/timestamp.msg.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Timestamp<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Timestamp<Traits>::seconds, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<2, &Timestamp<Traits>::nanos, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<UINT32_MAX, &Timestamp<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
