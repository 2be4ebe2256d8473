// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/wrappers.proto

#pragma once

#include <hpp_proto/field_types.hpp>
// @@protoc_insertion_point(includes)


namespace google::protobuf {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

template <typename Traits = ::hpp_proto::default_traits>
struct DoubleValue {
  using hpp_proto_traits_type = Traits;
  double value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const DoubleValue&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct FloatValue {
  using hpp_proto_traits_type = Traits;
  float value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const FloatValue&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Int64Value {
  using hpp_proto_traits_type = Traits;
  std::int64_t value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Int64Value&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct UInt64Value {
  using hpp_proto_traits_type = Traits;
  std::uint64_t value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const UInt64Value&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Int32Value {
  using hpp_proto_traits_type = Traits;
  std::int32_t value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Int32Value&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct UInt32Value {
  using hpp_proto_traits_type = Traits;
  std::uint32_t value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const UInt32Value&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct BoolValue {
  using hpp_proto_traits_type = Traits;
  bool value = {};

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const BoolValue&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct StringValue {
  using hpp_proto_traits_type = Traits;
  Traits::string_t value;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const StringValue&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct BytesValue {
  using hpp_proto_traits_type = Traits;
  Traits::bytes_t value;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const BytesValue&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const DoubleValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.DoubleValue">{}; }
template <typename Traits>
constexpr auto message_type_url(const FloatValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.FloatValue">{}; }
template <typename Traits>
constexpr auto message_type_url(const Int64Value<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Int64Value">{}; }
template <typename Traits>
constexpr auto message_type_url(const UInt64Value<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.UInt64Value">{}; }
template <typename Traits>
constexpr auto message_type_url(const Int32Value<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Int32Value">{}; }
template <typename Traits>
constexpr auto message_type_url(const UInt32Value<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.UInt32Value">{}; }
template <typename Traits>
constexpr auto message_type_url(const BoolValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.BoolValue">{}; }
template <typename Traits>
constexpr auto message_type_url(const StringValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.StringValue">{}; }
template <typename Traits>
constexpr auto message_type_url(const BytesValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.BytesValue">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace google::protobuf
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::DoubleValue<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::FloatValue<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Int64Value<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::UInt64Value<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Int32Value<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::UInt32Value<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::BoolValue<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::StringValue<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::BytesValue<Traits>> : std::true_type {};
// clang-format on
