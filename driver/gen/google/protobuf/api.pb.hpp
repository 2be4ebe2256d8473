// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/api.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "google/protobuf/api.msg.hpp"
#include "google/protobuf/source_context.pb.hpp"
#include "google/protobuf/type.pb.hpp"


namespace google::protobuf {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Api<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Api<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Api<Traits>::methods, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<3, &Api<Traits>::options, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<4, &Api<Traits>::version, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<5, &Api<Traits>::source_context, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<6, &Api<Traits>::mixins, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<7, &Api<Traits>::syntax, ::hpp_proto::field_option::none, void, google::protobuf::Syntax::SYNTAX_PROTO2>,
  ::hpp_proto::field_meta<8, &Api<Traits>::edition, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Api<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Method<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Method<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Method<Traits>::request_type_url, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<3, &Method<Traits>::request_streaming, ::hpp_proto::field_option::none, bool>,
  ::hpp_proto::field_meta<4, &Method<Traits>::response_type_url, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<5, &Method<Traits>::response_streaming, ::hpp_proto::field_option::none, bool>,
  ::hpp_proto::field_meta<6, &Method<Traits>::options, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<7, &Method<Traits>::syntax, ::hpp_proto::field_option::none, void, google::protobuf::Syntax::SYNTAX_PROTO2>,
  ::hpp_proto::field_meta<8, &Method<Traits>::edition, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Method<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Mixin<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Mixin<Traits>::name, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Mixin<Traits>::root, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Mixin<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace google::protobuf
// clang-format on
