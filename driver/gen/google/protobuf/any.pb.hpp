// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/any.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/any.msg.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Any<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Any<Traits>::type_url, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Any<Traits>::value, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<UINT32_MAX, &Any<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
