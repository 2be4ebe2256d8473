// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out proto2_explicit_presence=.vpx:${out_dir}
//           vpx.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "vpx.msg.hpp"


namespace vpx {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Leaf<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Leaf<Traits>::v, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<2, &Leaf<Traits>::name, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<UINT32_MAX, &Leaf<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Ext<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Ext<Traits>::a, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<2, &Ext<Traits>::sub, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<3, &Ext<Traits>::col, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::closed_enum, void, vpx::Col::RED>,
  ::hpp_proto::field_meta<4, &Ext<Traits>::cols, ::hpp_proto::field_option::closed_enum>,
  ::hpp_proto::field_meta<5, &Ext<Traits>::pcols, ::hpp_proto::field_option::is_packed | ::hpp_proto::field_option::closed_enum>,
  ::hpp_proto::oneof_field_meta<
    &Ext<Traits>::pick,
    ::hpp_proto::field_meta<6, 1, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::closed_enum, void, vpx::Col::RED>,
    ::hpp_proto::field_meta<7, 2, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>>,
  ::hpp_proto::field_meta<UINT32_MAX, &Ext<Traits>::unknown_fields_>>;

template <typename Traits = ::hpp_proto::default_traits>
struct x_str
    : ::hpp_proto::extension_base<x_str<Traits>, vpx::Ext> {
  using value_type=Traits::string_t;
  value_type value = {};
  using pb_meta = std::tuple<::hpp_proto::field_meta<100, &x_str<Traits>::value, ::hpp_proto::field_option::none, void, std::monostate{}>>;
};

template <typename Traits = ::hpp_proto::default_traits>
struct x_msg
    : ::hpp_proto::extension_base<x_msg<Traits>, vpx::Ext> {
  using value_type=Traits::template repeated_t<vpx::Leaf<Traits>>;
  value_type value = {};
  using pb_meta = std::tuple<::hpp_proto::field_meta<101, &x_msg<Traits>::value, ::hpp_proto::field_option::none, void, std::monostate{}>>;
};

template <typename Traits = ::hpp_proto::default_traits>
struct x_ext
    : ::hpp_proto::extension_base<x_ext<Traits>, vpx::Ext> {
  using value_type=vpx::Ext<Traits>;
  value_type value = {};
  using pb_meta = std::tuple<::hpp_proto::field_meta<102, &x_ext<Traits>::value, ::hpp_proto::field_option::none, void, std::monostate{}>>;
};

template <typename Traits = ::hpp_proto::default_traits>
struct x_pk
    : ::hpp_proto::extension_base<x_pk<Traits>, vpx::Ext> {
  using value_type=Traits::template repeated_t<std::int32_t>;
  value_type value = {};
  using pb_meta = std::tuple<::hpp_proto::field_meta<103, &x_pk<Traits>::value, ::hpp_proto::field_option::is_packed, ::hpp_proto::vint64_t, std::monostate{}>>;
};

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace vpx
// clang-format on
