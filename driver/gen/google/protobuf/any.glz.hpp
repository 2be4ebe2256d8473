// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/any.proto

#pragma once

#include <hpp_proto/dynamic_message/json.hpp>

#include "google/protobuf/any.msg.hpp"

namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::Any<Traits>> {
  template <auto Opts>  GLZ_ALWAYS_INLINE static void op(auto &&value, ::hpp_proto::concepts::is_json_context auto &ctx, auto &b, auto &ix) {
    static_assert(requires { ctx.get_dynamic_message_factory(); }, "write_json() for Any requires use_factory{dynamic_message_factory} argument");
    any_message_json_serializer::to_json<Opts>(value, ctx, b, ix);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::Any<Traits>> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, ::hpp_proto::concepts::is_json_context auto &ctx, auto &it, auto &end) {
    static_assert(requires { ctx.get_dynamic_message_factory(); }, "read_json() for Any requires use_factory{dynamic_message_factory} argument");
    any_message_json_serializer::from_json<Opts>(value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Any<Traits>> : std::true_type {};
// clang-format on
