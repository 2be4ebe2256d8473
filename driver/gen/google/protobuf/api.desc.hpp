// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/api.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>

#include "google/protobuf/source_context.desc.hpp"
#include "google/protobuf/type.desc.hpp"

namespace hpp_proto::file_descriptors::google::protobuf::api_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\031google/protobuf/api.proto\022\017google.protobuf\032$google/protobuf/source_context.proto\032\032google/protobuf/type.proto\"\321\002\n\003Api\022\020\n\004name\030\001(\tR\004name\0221\n\amethods\030\002 \003(\v2\027.google.protobuf.MethodR\amethods\0221\n\aoptions\030\003 \003(\v2\027.google.protobuf.OptionR\aoptions\022\026\n\aversion\030\004(\tR\aversion\022C\n\016source_context\030\005(\v2\036.google.protobuf.SourceContextR\rsourceContext\022.\n\006mixins\030\006 \003(\v2\026.google.protobuf.MixinR\006mixins\022-\n\006syntax\030\a(\0162\027.google.protobuf.SyntaxR\006syntax\022\026\n\aedition\030\b(\tR\aedition\"\306\002\n\006Method\022\020\n\004name\030\001(\tR\004name\022&\n\020request_type_url\030\002(\tR\016requestTypeUrl\022)\n\021request_streaming\030\003(\bR\020requestStreaming\022(\n\021response_type_url\030\004(\tR\017responseTypeUrl\022+\n\022response_streaming\030\005(\bR\021responseStreaming\0221\n\aoptions\030\006 \003(\v2\027.google.protobuf.OptionR\aoptions\0221\n\006syntax\030\a(\0162\027.google.protobuf.SyntaxR\006syntaxB\002\030\001\022\032\n\aedition\030\b(\tR\aeditionB\002\030\001\"+\n\005Mixin\022\020\n\004name\030\001(\tR\004name\022\020\n\004root\030\002(\tR\004rootBv\n\023com.google.protobufB\bApiProtoP\001Z,google.golang.org/protobuf/types/known/apipb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::any_proto::file_descriptor_,
    ::hpp_proto::file_descriptors::google::protobuf::source_context_proto::file_descriptor_,
    ::hpp_proto::file_descriptors::google::protobuf::type_proto::file_descriptor_,
    ::hpp_proto::file_descriptors::google::protobuf::api_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::api_proto

// clang-format on
