// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/duration.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::google::protobuf::duration_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\036google/protobuf/duration.proto\022\017google.protobuf\"6\n\bDuration\022\026\n\aseconds\030\001(\003R\aseconds\022\022\n\005nanos\030\002(\005R\005nanosB\200\001\n\023com.google.protobufB\rDurationProtoP\001Z1google.golang.org/protobuf/types/known/durationpb\242\002\003GPB\252\002\036Google.Protobuf.WellKnownTypesb\006proto3"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::google::protobuf::duration_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::google::protobuf::duration_proto

// clang-format on
