// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/source_context.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::google::protobuf::source_context_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n$google/protobuf/source_context.proto\022\017google.protobuf\"*\n\rSourceContext\022\031\n\tfile_name\030\001(\tR\bfileNameB\212\001\n\023com.google.protobufB\022SourceContextProtoP\001Z6google.golang.org/protobuf/types/known/sourcecontextpb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::source_context_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::source_context_proto

// clang-format on
