// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/struct.proto

#pragma once

#include <hpp_proto/field_types.hpp>
// @@protoc_insertion_point(includes)


namespace google::protobuf {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

enum class NullValue {
  NULL_VALUE = 0
};

constexpr bool is_valid(NullValue value){
  int v = static_cast<int>(value);
  return v >= 0 && v <= 0;
}

template <typename Traits>
struct Value;
template <typename Traits = ::hpp_proto::default_traits>
struct ListValue {
  using hpp_proto_traits_type = Traits;
  Traits::template recursive_repeated_t<google::protobuf::Value<Traits>> values;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const ListValue&) const = default;
};

template <typename Traits>
struct Value;
template <typename Traits = ::hpp_proto::default_traits>
struct Struct {
  using hpp_proto_traits_type = Traits;
  Traits::template map_t<typename Traits::string_t, typename Traits::template indirect_t<google::protobuf::Value<Traits>>> fields;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Struct&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Value {
  using hpp_proto_traits_type = Traits;
  // NOLINTNEXTLINE(cppcoreguidelines-use-enum-class)
  enum kind_oneof_case : int {
    null_value = 1,
    number_value = 2,
    string_value = 3,
    bool_value = 4,
    struct_value = 5,
    list_value = 6
  };

  static constexpr std::array<std::uint32_t, 7> kind_oneof_numbers{
    0U, 1U, 2U, 3U, 4U, 5U, 6U};
  // NOLINTNEXTLINE(readability-redundant-typename)
  std::variant<std::monostate, google::protobuf::NullValue, double, typename Traits::string_t, bool, std::conditional_t<std::same_as<Traits, ::hpp_proto::non_owning_traits>, google::protobuf::Struct<Traits>, typename Traits::template indirect_t<google::protobuf::Struct<Traits>>>, std::conditional_t<std::same_as<Traits, ::hpp_proto::non_owning_traits>, google::protobuf::ListValue<Traits>, typename Traits::template indirect_t<google::protobuf::ListValue<Traits>>>> kind;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Value&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const ListValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.ListValue">{}; }
template <typename Traits>
constexpr auto message_type_url(const Struct<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Struct">{}; }
template <typename Traits>
constexpr auto message_type_url(const Value<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Value">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace google::protobuf
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::ListValue<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Struct<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Value<Traits>> : std::true_type {};
// clang-format on
