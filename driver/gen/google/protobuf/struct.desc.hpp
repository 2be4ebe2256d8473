// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/struct.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::google::protobuf::struct_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\034google/protobuf/struct.proto\022\017google.protobuf\"\224\001\n\006Struct\022;\n\006fields\030\001 \003(\v2#.google.protobuf.Struct.FieldsEntryR\006fields\032M\n\vFieldsEntry\022\016\n\003key\030\001(\tR\003key\022*\n\005value\030\002(\v2\026.google.protobuf.ValueR\005value:\0028\001\"\244\002\n\005Value\0229\n\nnull_value\030\001(\0162\032.google.protobuf.NullValueH\000R\tnullValue\022\037\n\fnumber_value\030\002H\000R\vnumberValue\022!\n\fstring_value\030\003(\tH\000R\vstringValue\022\035\n\nbool_value\030\004(\bH\000R\tboolValue\022:\n\fstruct_value\030\005(\v2\027.google.protobuf.StructH\000R\vstructValue\0229\n\nlist_value\030\006(\v2\032.google.protobuf.ListValueH\000R\tlistValueB\006\n\004kind\";\n\tListValue\022.\n\006values\030\001 \003(\v2\026.google.protobuf.ValueR\006values*\031\n\tNullValue\022\f\n\nNULL_VALUEB|\n\023com.google.protobufB\vStructProtoP\001Z/google.golang.org/protobuf/types/known/structpb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::struct_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::struct_proto

// clang-format on
