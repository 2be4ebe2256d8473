// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/any.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::google::protobuf::any_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\031google/protobuf/any.proto\022\017google.protobuf\"2\n\003Any\022\027\n\btype_url\030\001(\tR\atypeUrl\022\022\n\005value\030\002(\fR\005valueBv\n\023com.google.protobufB\bAnyProtoP\001Z,google.golang.org/protobuf/types/known/anypb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::any_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::any_proto

// clang-format on
