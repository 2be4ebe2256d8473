// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/type.proto

#pragma once

#include <hpp_proto/field_types.hpp>
#include "google/protobuf/any.msg.hpp"
#include "google/protobuf/source_context.msg.hpp"
// @@protoc_insertion_point(includes)


namespace google::protobuf {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

enum class Syntax {
  SYNTAX_PROTO2 = 0,
  SYNTAX_PROTO3 = 1,
  SYNTAX_EDITIONS = 2
};

constexpr bool is_valid(Syntax value){
  int v = static_cast<int>(value);
  return v >= 0 && v <= 2;
}

template <typename Traits = ::hpp_proto::default_traits>
struct Option {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  std::optional<google::protobuf::Any<Traits>> value;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Option&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct EnumValue {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  std::int32_t number = {};
  Traits::template repeated_t<google::protobuf::Option<Traits>> options;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const EnumValue&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Enum {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  Traits::template repeated_t<google::protobuf::EnumValue<Traits>> enumvalue;
  Traits::template repeated_t<google::protobuf::Option<Traits>> options;
  std::optional<google::protobuf::SourceContext<Traits>> source_context;
  google::protobuf::Syntax syntax = google::protobuf::Syntax::SYNTAX_PROTO2;
  Traits::string_t edition;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Enum&) const = default;
};

namespace Field_ {
  enum class Kind {
    TYPE_UNKNOWN = 0,
    TYPE_DOUBLE = 1,
    TYPE_FLOAT = 2,
    TYPE_INT64 = 3,
    TYPE_UINT64 = 4,
    TYPE_INT32 = 5,
    TYPE_FIXED64 = 6,
    TYPE_FIXED32 = 7,
    TYPE_BOOL = 8,
    TYPE_STRING = 9,
    TYPE_GROUP = 10,
    TYPE_MESSAGE = 11,
    TYPE_BYTES = 12,
    TYPE_UINT32 = 13,
    TYPE_ENUM = 14,
    TYPE_SFIXED32 = 15,
    TYPE_SFIXED64 = 16,
    TYPE_SINT32 = 17,
    TYPE_SINT64 = 18
  };

  constexpr bool is_valid(Kind value){
    int v = static_cast<int>(value);
    return v >= 0 && v <= 18;
  }

  enum class Cardinality {
    CARDINALITY_UNKNOWN = 0,
    CARDINALITY_OPTIONAL = 1,
    CARDINALITY_REQUIRED = 2,
    CARDINALITY_REPEATED = 3
  };

  constexpr bool is_valid(Cardinality value){
    int v = static_cast<int>(value);
    return v >= 0 && v <= 3;
  }

} //namespace Field_

template <typename Traits = ::hpp_proto::default_traits>
struct Field {
  using hpp_proto_traits_type = Traits;
  using Kind = google::protobuf::Field_::Kind;
  using Cardinality = google::protobuf::Field_::Cardinality;
  Kind kind = Kind::TYPE_UNKNOWN;
  Cardinality cardinality = Cardinality::CARDINALITY_UNKNOWN;
  std::int32_t number = {};
  Traits::string_t name;
  Traits::string_t type_url;
  std::int32_t oneof_index = {};
  bool packed = {};
  Traits::template repeated_t<google::protobuf::Option<Traits>> options;
  Traits::string_t json_name;
  Traits::string_t default_value;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Field&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Type {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  Traits::template repeated_t<google::protobuf::Field<Traits>> fields;
  Traits::template repeated_t<typename Traits::string_t> oneofs;
  Traits::template repeated_t<google::protobuf::Option<Traits>> options;
  std::optional<google::protobuf::SourceContext<Traits>> source_context;
  google::protobuf::Syntax syntax = google::protobuf::Syntax::SYNTAX_PROTO2;
  Traits::string_t edition;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Type&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const Option<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Option">{}; }
template <typename Traits>
constexpr auto message_type_url(const EnumValue<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.EnumValue">{}; }
template <typename Traits>
constexpr auto message_type_url(const Enum<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Enum">{}; }
template <typename Traits>
constexpr auto message_type_url(const Field<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Field">{}; }
template <typename Traits>
constexpr auto message_type_url(const Type<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Type">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace google::protobuf
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Option<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::EnumValue<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Enum<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Field<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Type<Traits>> : std::true_type {};
// clang-format on
