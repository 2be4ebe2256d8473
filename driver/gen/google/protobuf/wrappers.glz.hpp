// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/wrappers.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/wrappers.msg.hpp"

namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::DoubleValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::DoubleValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<Opts>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::DoubleValue<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::FloatValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::FloatValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<Opts>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::FloatValue<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::Int64Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<opt_true<ws_handled<Opts>(), quoted_num_opt_tag{}>>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::Int64Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<opt_true<ws_handled<Opts>(), quoted_num_opt_tag{}>>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Int64Value<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::UInt64Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<opt_true<ws_handled<Opts>(), quoted_num_opt_tag{}>>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::UInt64Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<opt_true<ws_handled<Opts>(), quoted_num_opt_tag{}>>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::UInt64Value<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::Int32Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::Int32Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<Opts>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Int32Value<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::UInt32Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::UInt32Value<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<Opts>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::UInt32Value<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::BoolValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::BoolValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<Opts>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::BoolValue<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::StringValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::StringValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    decltype(auto) v = hpp_proto::detail::as_modifiable(ctx, value.value);
    parse<JSON>::template op<Opts>(v, ctx, it, end);
    if (!bool(ctx.error) && !is_utf8(v.data(), v.size())){{
        ctx.error = error_code::syntax_error;
    }}
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::StringValue<Traits>> : std::true_type {};
namespace glz {
template <typename Traits>
struct to<JSON, google::protobuf::BytesValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, auto&& ...args) {
    serialize<JSON>::template op<Opts>(value.value, std::forward<decltype(args)>(args)...);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::BytesValue<Traits>> {
template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto& ctx, auto& it, auto& end) {
    parse<JSON>::template op<Opts>(value.value, ctx, it, end);
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::BytesValue<Traits>> : std::true_type {};
// clang-format on
