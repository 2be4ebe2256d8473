// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/type.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/type.msg.hpp"
#include "google/protobuf/any.pb.hpp"
#include "google/protobuf/source_context.pb.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Type<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Type<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Type<Traits>::fields, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<3, &Type<Traits>::oneofs, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<4, &Type<Traits>::options, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<5, &Type<Traits>::source_context, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<6, &Type<Traits>::syntax, ::hpp_proto::field_option::none, void, google::protobuf::Syntax::SYNTAX_PROTO2>,
  ::hpp_proto::field_meta<7, &Type<Traits>::edition, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Type<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Field<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Field<Traits>::kind, ::hpp_proto::field_option::none, void, google::protobuf::Field_::Kind::TYPE_UNKNOWN>,
  ::hpp_proto::field_meta<2, &Field<Traits>::cardinality, ::hpp_proto::field_option::none, void, google::protobuf::Field_::Cardinality::CARDINALITY_UNKNOWN>,
  ::hpp_proto::field_meta<3, &Field<Traits>::number, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<4, &Field<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<6, &Field<Traits>::type_url, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<7, &Field<Traits>::oneof_index, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<8, &Field<Traits>::packed, ::hpp_proto::field_option::none, bool>,
  ::hpp_proto::field_meta<9, &Field<Traits>::options, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<10, &Field<Traits>::json_name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<11, &Field<Traits>::default_value, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Field<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Enum<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Enum<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Enum<Traits>::enumvalue, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<3, &Enum<Traits>::options, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<4, &Enum<Traits>::source_context, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<5, &Enum<Traits>::syntax, ::hpp_proto::field_option::none, void, google::protobuf::Syntax::SYNTAX_PROTO2>,
  ::hpp_proto::field_meta<6, &Enum<Traits>::edition, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Enum<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const EnumValue<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &EnumValue<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &EnumValue<Traits>::number, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<3, &EnumValue<Traits>::options, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<UINT32_MAX, &EnumValue<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Option<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Option<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Option<Traits>::value, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<UINT32_MAX, &Option<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
