// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/type.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>

#include "google/protobuf/any.desc.hpp"
#include "google/protobuf/source_context.desc.hpp"

namespace hpp_proto::file_descriptors::google::protobuf::type_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\032google/protobuf/type.proto\022\017google.protobuf\032\031google/protobuf/any.proto\032$google/protobuf/source_context.proto\"\237\002\n\004Type\022\020\n\004name\030\001(\tR\004name\022.\n\006fields\030\002 \003(\v2\026.google.protobuf.FieldR\006fields\022\026\n\006oneofs\030\003 \003(\tR\006oneofs\0221\n\aoptions\030\004 \003(\v2\027.google.protobuf.OptionR\aoptions\022C\n\016source_context\030\005(\v2\036.google.protobuf.SourceContextR\rsourceContext\022-\n\006syntax\030\006(\0162\027.google.protobuf.SyntaxR\006syntax\022\026\n\aedition\030\a(\tR\aedition\"\236\006\n\005Field\022-\n\004kind\030\001(\0162\033.google.protobuf.Field.KindR\004kind\022B\n\vcardinality\030\002(\0162\".google.protobuf.Field.CardinalityR\vcardinality\022\024\n\006number\030\003(\005R\006number\022\020\n\004name\030\004(\tR\004name\022\027\n\btype_url\030\006(\tR\atypeUrl\022\035\n\voneof_index\030\a(\005R\noneofIndex\022\024\n\006packed\030\b(\bR\006packed\0221\n\aoptions\030\t \003(\v2\027.google.protobuf.OptionR\aoptions\022\031\n\tjson_name\030\n(\tR\bjsonName\022!\n\rdefault_value\030\v(\tR\fdefaultValue\"\306\002\n\004Kind\022\016\n\fTYPE_UNKNOWN\022\017\n\vTYPE_DOUBLE\020\001\022\016\n\nTYPE_FLOAT\020\002\022\016\n\nTYPE_INT64\020\003\022\017\n\vTYPE_UINT64\020\004\022\016\n\nTYPE_INT32\020\005\022\020\n\fTYPE_FIXED64\020\006\022\020\n\fTYPE_FIXED32\020\a\022\r\n\tTYPE_BOOL\020\b\022\017\n\vTYPE_STRING\020\t\022\016\n\nTYPE_GROUP\020\n\022\020\n\fTYPE_MESSAGE\020\v\022\016\n\nTYPE_BYTES\020\f\022\017\n\vTYPE_UINT32\020\r\022\r\n\tTYPE_ENUM\020\016\022\021\n\rTYPE_SFIXED32\020\017\022\021\n\rTYPE_SFIXED64\020\020\022\017\n\vTYPE_SINT32\020\021\022\017\n\vTYPE_SINT64\020\022\"r\n\vCardinality\022\025\n\023CARDINALITY_UNKNOWN\022\030\n\024CARDINALITY_OPTIONAL\020\001\022\030\n\024CARDINALITY_REQUIRED\020\002\022\030\n\024CARDINALITY_REPEATED\020\003\"\221\002\n\004Enum\022\020\n\004name\030\001(\tR\004name\0228\n\tenumvalue\030\002 \003(\v2\032.google.protobuf.EnumValueR\tenumvalue\0221\n\aoptions\030\003 \003(\v2\027.google.protobuf.OptionR\aoptions\022C\n\016source_context\030\004(\v2\036.google.protobuf.SourceContextR\rsourceContext\022-\n\006syntax\030\005(\0162\027.google.protobuf.SyntaxR\006syntax\022\026\n\aedition\030\006(\tR\aedition\"f\n\tEnumValue\022\020\n\004name\030\001(\tR\004name\022\024\n\006number\030\002(\005R\006number\0221\n\aoptions\030\003 \003(\v2\027.google.protobuf.OptionR\aoptions\"D\n\006Option\022\020\n\004name\030\001(\tR\004name\022(\n\005value\030\002(\v2\024.google.protobuf.AnyR\005value*A\n\006Syntax\022\017\n\rSYNTAX_PROTO2\022\021\n\rSYNTAX_PROTO3\020\001\022\023\n\017SYNTAX_EDITIONS\020\002Bx\n\023com.google.protobufB\tTypeProtoP\001Z-google.golang.org/protobuf/types/known/typepb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::any_proto::file_descriptor_,
    ::hpp_proto::file_descriptors::google::protobuf::source_context_proto::file_descriptor_,
    ::hpp_proto::file_descriptors::google::protobuf::type_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::type_proto

// clang-format on
