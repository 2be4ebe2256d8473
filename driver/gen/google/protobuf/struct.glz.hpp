// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/struct.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/struct.msg.hpp"

namespace glz {

template <typename Traits>
struct to<JSON, google::protobuf::Struct<Traits>> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, is_context auto &&ctx, auto &&b, auto &&ix) {
    const bool dump_brace = !check_opening_handled(Opts);
    if (dump_brace) {
      util::dump_opening_brace<Opts>(ctx, b, ix);
    }
    const char *separator = nullptr;
    for (auto field : value.fields) {
      if (field.second->kind.index() != 0U) {
        if (separator != nullptr) {
          util::dump_field_separator<Opts>(false, ctx, b, ix, *separator);
        }
        serialize<JSON>::template op<Opts>(field.first, ctx, b, ix);
        util::dump_field_separator<Opts>(true, ctx, b, ix, ':');
        serialize<JSON>::op<Opts>(field.second, ctx, b, ix);
        if (bool(ctx.error)) {
          return;
        }
        separator = ",";
      }
    }
    if (dump_brace) {
      util::dump_closing_brace<Opts>(ctx, b, ix);
    }
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::Struct<Traits>> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, is_context auto &&ctx, auto &&it, auto &&end) {
    decltype(auto) v = hpp_proto::detail::as_modifiable(ctx, value.fields);
    util::parse_repeated<Opts>(true, v, ctx, it, end);
  }
};
} // namespace glz
template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Struct<Traits>> : std::true_type {};
namespace glz {
template <typename T>
decltype(auto) value_fields(T &value) {
  if constexpr (requires { value.fields; }) {
    return (value.fields);
  } else {
    return ((*value).fields);
  }
}

template <typename T>
decltype(auto) value_values(T &value) {
  if constexpr (requires { value.values; }) {
    return (value.values);
  } else {
    return ((*value).values);
  }
}

template <typename Traits>
struct to<JSON, google::protobuf::Value<Traits>> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, is_context auto &&ctx, auto &&b, auto &&ix) {
    std::visit(
        [&ctx, &b, &ix](auto &v) {
          using type = std::decay_t<decltype(v)>;
          if constexpr (requires { v.values; }) {
            serialize<JSON>::template op<Opts>(v.values, ctx, b, ix);
          } else if constexpr (requires { (*v).values; }) {
            serialize<JSON>::template op<Opts>((*v).values, ctx, b, ix);
          } else if constexpr (requires { v.fields; }) {
            serialize<JSON>::template op<Opts>(v.fields, ctx, b, ix);
          } else if constexpr (requires { (*v).fields; }) {
            serialize<JSON>::template op<Opts>((*v).fields, ctx, b, ix);
          } else if constexpr (!std::same_as<type, std::monostate>) {
            serialize<JSON>::template op<Opts>(v, ctx, b, ix);
          }
        },
        value.kind);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::Value<Traits>> {
  template <auto Options>
  static void op(auto &&value, is_context auto &&ctx, auto &&it, auto &&end) {
    if constexpr (!check_ws_handled(Options)) {
      skip_ws<Options>(ctx, it, end);
      if (bool(ctx.error)) [[unlikely]]{
        return;
      }
    }
    static constexpr auto Opts = ws_handled_off<Options>();
    if (*it == 'n') {
      match<"null", Opts>(ctx, it, end);
      if (bool(ctx.error)) [[unlikely]]{
        return;
      }
      value.kind.template emplace<google::protobuf::NullValue>();
    } else if ((*it >= '0' && *it <= '9') || *it == '-') {
      parse<JSON>::op<Opts>(value.kind.template emplace<double>(), ctx, it, end);
    } else if (*it == '"') {
      decltype(auto) str = hpp_proto::detail::as_modifiable(ctx, value.kind.template emplace<google::protobuf::Value<Traits>::kind_oneof_case::string_value>());
      parse<JSON>::op<Opts>(str, ctx, it, end);
      if (!bool(ctx.error) && !is_utf8(str.data(), str.size())){
        ctx.error = error_code::syntax_error;
      }
    } else if (*it == 't' || *it == 'f') {
      parse<JSON>::op<Opts>(value.kind.template emplace<bool>(), ctx, it, end);
    } else if (*it == '{') {
      auto& struct_value = value.kind.template emplace<google::protobuf::Value<Traits>::kind_oneof_case::struct_value>();
      decltype(auto) fields = value_fields(struct_value);
      decltype(auto) v = hpp_proto::detail::as_modifiable(ctx, fields);
      util::parse_repeated<Opts>(true, v, ctx, it, end);
    } else if (*it == '[') {
      auto& list_value = value.kind.template emplace<google::protobuf::Value<Traits>::kind_oneof_case::list_value>();
      decltype(auto) values = value_values(list_value);
      decltype(auto) v = hpp_proto::detail::as_modifiable(ctx, values);
      util::parse_repeated<Opts>(false, v, ctx, it, end);
    } else {
      ctx.error = error_code::syntax_error;
    }
  }
};
} // namespace glz

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Value<Traits>> : std::true_type {};
namespace glz {

template <typename Traits>
struct to<JSON, google::protobuf::ListValue<Traits>> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, is_context auto &&ctx, auto &&b, auto &&ix) {
    using values_t = std::remove_cvref_t<decltype(value.values)>;
    to<JSON, values_t>::template op<Opts>(value.values, ctx, b, ix);
  }
};

template <typename Traits>
struct from<JSON, google::protobuf::ListValue<Traits>> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &&value, is_context auto &&ctx, auto &&it, auto &&end) {
    decltype(auto) v = hpp_proto::detail::as_modifiable(ctx, value.values);
    util::parse_repeated<Opts>(false, v, ctx, it, end);
  }
};
} // namespace glz
template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::ListValue<Traits>> : std::true_type {};
namespace glz {
template <>
struct to<JSON, google::protobuf::NullValue> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto && /*value*/, auto&& ...args) {
    serialize<JSON>::template op<Opts>(std::monostate{}, std::forward<decltype(args)>(args)...);
  }
};

template <>
struct from<JSON, google::protobuf::NullValue> {
  template <auto Opts>
  GLZ_ALWAYS_INLINE static void op(auto &value, auto&& ...args) {
    parse<JSON>::template op<Opts>(std::monostate{}, std::forward<decltype(args)>(args)...);
    value = google::protobuf::NullValue::NULL_VALUE;
  }
};
}

// clang-format on
