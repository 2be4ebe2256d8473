// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/empty.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/empty.msg.hpp"

template <typename Traits>
struct glz::meta<google::protobuf::Empty<Traits>> {
  using T = google::protobuf::Empty<Traits>;
  static constexpr auto value = object(
);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Empty<Traits>> : std::true_type {};
// clang-format on
