// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/struct.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/struct.msg.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Struct<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Struct<Traits>::fields, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<typename Traits::string_t, typename Traits::template indirect_t<google::protobuf::Value<Traits>>, ::hpp_proto::field_option::utf8_validation, ::hpp_proto::field_option::none>>,
  ::hpp_proto::field_meta<UINT32_MAX, &Struct<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Value<Traits> &) -> std::tuple<
  ::hpp_proto::oneof_field_meta<
    &Value<Traits>::kind,
    ::hpp_proto::field_meta<1, 1, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<2, 2, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<3, 3, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
    ::hpp_proto::field_meta<4, 4, ::hpp_proto::field_option::explicit_presence, bool>,
    ::hpp_proto::field_meta<5, 5, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<6, 6, ::hpp_proto::field_option::explicit_presence>>,
  ::hpp_proto::field_meta<UINT32_MAX, &Value<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const ListValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &ListValue<Traits>::values, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<UINT32_MAX, &ListValue<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
