// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/duration.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/duration.msg.hpp"

#include <hpp_proto/json/duration_codec.hpp>

template <typename Traits>
struct hpp_proto::json_codec<google::protobuf::Duration<Traits>> {
  using type = ::hpp_proto::duration_codec;
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Duration<Traits>> : std::true_type {};
// clang-format on
