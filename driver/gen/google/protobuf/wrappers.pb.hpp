// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/wrappers.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/wrappers.msg.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const DoubleValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &DoubleValue<Traits>::value, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<UINT32_MAX, &DoubleValue<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const FloatValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &FloatValue<Traits>::value, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<UINT32_MAX, &FloatValue<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Int64Value<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Int64Value<Traits>::value, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<UINT32_MAX, &Int64Value<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const UInt64Value<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &UInt64Value<Traits>::value, ::hpp_proto::field_option::none, ::hpp_proto::vuint64_t>,
  ::hpp_proto::field_meta<UINT32_MAX, &UInt64Value<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Int32Value<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Int32Value<Traits>::value, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<UINT32_MAX, &Int32Value<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const UInt32Value<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &UInt32Value<Traits>::value, ::hpp_proto::field_option::none, ::hpp_proto::vuint32_t>,
  ::hpp_proto::field_meta<UINT32_MAX, &UInt32Value<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const BoolValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &BoolValue<Traits>::value, ::hpp_proto::field_option::none, bool>,
  ::hpp_proto::field_meta<UINT32_MAX, &BoolValue<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const StringValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &StringValue<Traits>::value, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &StringValue<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const BytesValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &BytesValue<Traits>::value, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<UINT32_MAX, &BytesValue<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
