// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/type.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/any.glz.hpp"
#include "google/protobuf/source_context.glz.hpp"
#include "google/protobuf/type.msg.hpp"

template <typename Traits>
struct glz::meta<google::protobuf::Type<Traits>> {
  using T = google::protobuf::Type<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "fields", ::hpp_proto::as_optional_ref<&T::fields>,
    "oneofs", ::hpp_proto::as_optional_ref<&T::oneofs>,
    "options", ::hpp_proto::as_optional_ref<&T::options>,
    "sourceContext", &T::source_context,
    "source_context", ::hpp_proto::as_alias<&T::source_context>,
    "syntax", ::hpp_proto::as_optional_ref<&T::syntax, google::protobuf::Syntax::SYNTAX_PROTO2>,
    "edition", ::hpp_proto::as_optional_ref<&T::edition>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Type<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<google::protobuf::Field<Traits>> {
  using T = google::protobuf::Field<Traits>;
  static constexpr auto value = object(
    "kind", ::hpp_proto::as_optional_ref<&T::kind, google::protobuf::Field_::Kind::TYPE_UNKNOWN>,
    "cardinality", ::hpp_proto::as_optional_ref<&T::cardinality, google::protobuf::Field_::Cardinality::CARDINALITY_UNKNOWN>,
    "number", ::hpp_proto::as_optional_ref<&T::number>,
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "typeUrl", ::hpp_proto::as_optional_ref<&T::type_url>,
    "type_url", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::type_url>>,
    "oneofIndex", ::hpp_proto::as_optional_ref<&T::oneof_index>,
    "oneof_index", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::oneof_index>>,
    "packed", ::hpp_proto::as_optional_ref<&T::packed>,
    "options", ::hpp_proto::as_optional_ref<&T::options>,
    "jsonName", ::hpp_proto::as_optional_ref<&T::json_name>,
    "json_name", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::json_name>>,
    "defaultValue", ::hpp_proto::as_optional_ref<&T::default_value>,
    "default_value", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::default_value>>);
};

template <>
struct glz::meta<google::protobuf::Field_::Kind> {
  using enum google::protobuf::Field_::Kind;
  static constexpr auto value = enumerate(
    "TYPE_UNKNOWN", TYPE_UNKNOWN,
    "TYPE_DOUBLE", TYPE_DOUBLE,
    "TYPE_FLOAT", TYPE_FLOAT,
    "TYPE_INT64", TYPE_INT64,
    "TYPE_UINT64", TYPE_UINT64,
    "TYPE_INT32", TYPE_INT32,
    "TYPE_FIXED64", TYPE_FIXED64,
    "TYPE_FIXED32", TYPE_FIXED32,
    "TYPE_BOOL", TYPE_BOOL,
    "TYPE_STRING", TYPE_STRING,
    "TYPE_GROUP", TYPE_GROUP,
    "TYPE_MESSAGE", TYPE_MESSAGE,
    "TYPE_BYTES", TYPE_BYTES,
    "TYPE_UINT32", TYPE_UINT32,
    "TYPE_ENUM", TYPE_ENUM,
    "TYPE_SFIXED32", TYPE_SFIXED32,
    "TYPE_SFIXED64", TYPE_SFIXED64,
    "TYPE_SINT32", TYPE_SINT32,
    "TYPE_SINT64", TYPE_SINT64);
};

template <>
struct glz::meta<google::protobuf::Field_::Cardinality> {
  using enum google::protobuf::Field_::Cardinality;
  static constexpr auto value = enumerate(
    "CARDINALITY_UNKNOWN", CARDINALITY_UNKNOWN,
    "CARDINALITY_OPTIONAL", CARDINALITY_OPTIONAL,
    "CARDINALITY_REQUIRED", CARDINALITY_REQUIRED,
    "CARDINALITY_REPEATED", CARDINALITY_REPEATED);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Field<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<google::protobuf::Enum<Traits>> {
  using T = google::protobuf::Enum<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "enumvalue", ::hpp_proto::as_optional_ref<&T::enumvalue>,
    "options", ::hpp_proto::as_optional_ref<&T::options>,
    "sourceContext", &T::source_context,
    "source_context", ::hpp_proto::as_alias<&T::source_context>,
    "syntax", ::hpp_proto::as_optional_ref<&T::syntax, google::protobuf::Syntax::SYNTAX_PROTO2>,
    "edition", ::hpp_proto::as_optional_ref<&T::edition>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Enum<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<google::protobuf::EnumValue<Traits>> {
  using T = google::protobuf::EnumValue<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "number", ::hpp_proto::as_optional_ref<&T::number>,
    "options", ::hpp_proto::as_optional_ref<&T::options>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::EnumValue<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<google::protobuf::Option<Traits>> {
  using T = google::protobuf::Option<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "value", ::hpp_proto::as_optional_ref<&T::value>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Option<Traits>> : std::true_type {};
template <>
struct glz::meta<google::protobuf::Syntax> {
  using enum google::protobuf::Syntax;
  static constexpr auto value = enumerate(
    "SYNTAX_PROTO2", SYNTAX_PROTO2,
    "SYNTAX_PROTO3", SYNTAX_PROTO3,
    "SYNTAX_EDITIONS", SYNTAX_EDITIONS);
};

// clang-format on
