// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/source_context.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/source_context.msg.hpp"

template <typename Traits>
struct glz::meta<google::protobuf::SourceContext<Traits>> {
  using T = google::protobuf::SourceContext<Traits>;
  static constexpr auto value = object(
    "fileName", ::hpp_proto::as_optional_ref<&T::file_name>,
    "file_name", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::file_name>>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::SourceContext<Traits>> : std::true_type {};
// clang-format on
