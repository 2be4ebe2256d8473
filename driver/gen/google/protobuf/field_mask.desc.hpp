// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/field_mask.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::google::protobuf::field_mask_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n google/protobuf/field_mask.proto\022\017google.protobuf\"!\n\tFieldMask\022\024\n\005paths\030\001 \003(\tR\005pathsB\202\001\n\023com.google.protobufB\016FieldMaskProtoP\001Z2google.golang.org/protobuf/types/known/fieldmaskpb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::field_mask_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::field_mask_proto

// clang-format on
