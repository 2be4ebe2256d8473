// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/wrappers.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::google::protobuf::wrappers_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\036google/protobuf/wrappers.proto\022\017google.protobuf\"\037\n\vDoubleValue\022\020\n\005value\030\001R\005value\" \n\nFloatValue\022\022\n\005value\030\001(\002R\005value\" \n\nInt64Value\022\022\n\005value\030\001(\003R\005value\"!\n\vUInt64Value\022\022\n\005value\030\001(\004R\005value\" \n\nInt32Value\022\022\n\005value\030\001(\005R\005value\"!\n\vUInt32Value\022\022\n\005value\030\001(\rR\005value\"\037\n\tBoolValue\022\022\n\005value\030\001(\bR\005value\"!\n\vStringValue\022\022\n\005value\030\001(\tR\005value\" \n\nBytesValue\022\022\n\005value\030\001(\fR\005valueB\200\001\n\023com.google.protobufB\rWrappersProtoP\001Z1google.golang.org/protobuf/types/known/wrapperspb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::wrappers_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::wrappers_proto

// clang-format on
