// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           vp.proto

#pragma once

#include <hpp_proto/binpb.hpp>
#include "vp.msg.hpp"


namespace vp {

// Generated protobuf metadata is intentionally made of schema field numbers.
//NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)

template <typename Traits>
auto pb_meta(const Leaf<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Leaf<Traits>::v, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<2, &Leaf<Traits>::name, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<UINT32_MAX, &Leaf<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const Tree<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &Tree<Traits>::label, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<2, &Tree<Traits>::left, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<3, &Tree<Traits>::grp, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::group>,
  ::hpp_proto::field_meta<4, &Tree<Traits>::kids, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<5, &Tree<Traits>::gkids, ::hpp_proto::field_option::group>,
  ::hpp_proto::field_meta<6, &Tree<Traits>::named, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<typename Traits::string_t, typename Traits::template indirect_t<vp::Tree<Traits>>, ::hpp_proto::field_option::utf8_validation, ::hpp_proto::field_option::none>>,
  ::hpp_proto::oneof_field_meta<
    &Tree<Traits>::pick,
    ::hpp_proto::field_meta<9, 1, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
    ::hpp_proto::field_meta<10, 2, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<11, 3, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::closed_enum, void, vp::Closed::CLOSED_ONE>,
    ::hpp_proto::field_meta<12, 4, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
    ::hpp_proto::field_meta<13, 5, ::hpp_proto::field_option::explicit_presence>>,
  ::hpp_proto::field_meta<14, &Tree<Traits>::one, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<UINT32_MAX, &Tree<Traits>::unknown_fields_>>;

template <typename Traits>
auto pb_meta(const All<Traits> &) -> std::tuple<
  ::hpp_proto::field_meta<1, &All<Traits>::f_i32, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<2, &All<Traits>::f_i64, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<3, &All<Traits>::f_u32, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vuint32_t>,
  ::hpp_proto::field_meta<4, &All<Traits>::f_u64, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vuint64_t>,
  ::hpp_proto::field_meta<5, &All<Traits>::f_s32, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vsint32_t>,
  ::hpp_proto::field_meta<6, &All<Traits>::f_s64, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vsint64_t>,
  ::hpp_proto::field_meta<7, &All<Traits>::f_f32, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<8, &All<Traits>::f_f64, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<9, &All<Traits>::f_sf32, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<10, &All<Traits>::f_sf64, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<11, &All<Traits>::f_flt, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<12, &All<Traits>::f_dbl, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<13, &All<Traits>::f_bool, ::hpp_proto::field_option::explicit_presence, bool>,
  ::hpp_proto::field_meta<14, &All<Traits>::f_str, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<15, &All<Traits>::f_bytes, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<16, &All<Traits>::f_open, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<17, &All<Traits>::f_closed, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::closed_enum, void, vp::Closed::CLOSED_ONE>,
  ::hpp_proto::field_meta<18, &All<Traits>::f_msg, ::hpp_proto::field_option::explicit_presence>,
  ::hpp_proto::field_meta<19, &All<Traits>::f_grp, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::group>,
  ::hpp_proto::field_meta<31, &All<Traits>::i_i32, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<32, &All<Traits>::i_str, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<33, &All<Traits>::i_bytes, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<34, &All<Traits>::i_bool, ::hpp_proto::field_option::none, bool>,
  ::hpp_proto::field_meta<35, &All<Traits>::i_open, ::hpp_proto::field_option::none, void, vp::Open::OPEN_ZERO>,
  ::hpp_proto::field_meta<36, &All<Traits>::i_dbl, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<37, &All<Traits>::rq_str, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<38, &All<Traits>::rq_closed, ::hpp_proto::field_option::explicit_presence, void, vp::Closed::CLOSED_ONE>,
  ::hpp_proto::field_meta<41, &All<Traits>::p_i32, ::hpp_proto::field_option::is_packed, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<42, &All<Traits>::p_s64, ::hpp_proto::field_option::is_packed, ::hpp_proto::vsint64_t>,
  ::hpp_proto::field_meta<43, &All<Traits>::p_f32, ::hpp_proto::field_option::is_packed>,
  ::hpp_proto::field_meta<44, &All<Traits>::p_dbl, ::hpp_proto::field_option::is_packed>,
  ::hpp_proto::field_meta<45, &All<Traits>::p_bool, ::hpp_proto::field_option::is_packed, bool>,
  ::hpp_proto::field_meta<46, &All<Traits>::p_open, ::hpp_proto::field_option::is_packed>,
  ::hpp_proto::field_meta<47, &All<Traits>::p_closed, ::hpp_proto::field_option::is_packed | ::hpp_proto::field_option::closed_enum>,
  ::hpp_proto::field_meta<48, &All<Traits>::p_u64, ::hpp_proto::field_option::is_packed, ::hpp_proto::vuint64_t>,
  ::hpp_proto::field_meta<51, &All<Traits>::u_i32, ::hpp_proto::field_option::none, ::hpp_proto::vint64_t>,
  ::hpp_proto::field_meta<52, &All<Traits>::u_s64, ::hpp_proto::field_option::none, ::hpp_proto::vsint64_t>,
  ::hpp_proto::field_meta<53, &All<Traits>::u_f32, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<55, &All<Traits>::u_bool, ::hpp_proto::field_option::none, bool>,
  ::hpp_proto::field_meta<56, &All<Traits>::u_open, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<57, &All<Traits>::u_closed, ::hpp_proto::field_option::closed_enum>,
  ::hpp_proto::field_meta<58, &All<Traits>::r_str, ::hpp_proto::field_option::utf8_validation>,
  ::hpp_proto::field_meta<59, &All<Traits>::r_bytes, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<60, &All<Traits>::r_msg, ::hpp_proto::field_option::none>,
  ::hpp_proto::field_meta<61, &All<Traits>::r_grp, ::hpp_proto::field_option::group>,
  ::hpp_proto::field_meta<71, &All<Traits>::m_ss, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<typename Traits::string_t, typename Traits::string_t, ::hpp_proto::field_option::utf8_validation, ::hpp_proto::field_option::utf8_validation>>,
  ::hpp_proto::field_meta<72, &All<Traits>::m_im, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<::hpp_proto::vint64_t, vp::Leaf<Traits>, ::hpp_proto::field_option::none, ::hpp_proto::field_option::none>>,
  ::hpp_proto::field_meta<73, &All<Traits>::m_bb, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<bool, typename Traits::bytes_t, ::hpp_proto::field_option::none, ::hpp_proto::field_option::none>>,
  ::hpp_proto::field_meta<74, &All<Traits>::m_so, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<typename Traits::string_t, vp::Open, ::hpp_proto::field_option::utf8_validation, ::hpp_proto::field_option::none>>,
  ::hpp_proto::field_meta<75, &All<Traits>::m_uc, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<::hpp_proto::vuint64_t, vp::ClosedZ, ::hpp_proto::field_option::none, ::hpp_proto::field_option::closed_enum>>,
  ::hpp_proto::field_meta<76, &All<Traits>::m_sd, ::hpp_proto::field_option::none, ::hpp_proto::map_entry<std::int32_t, double, ::hpp_proto::field_option::none, ::hpp_proto::field_option::none>>,
  ::hpp_proto::oneof_field_meta<
    &All<Traits>::o1,
    ::hpp_proto::field_meta<81, 1, ::hpp_proto::field_option::explicit_presence, ::hpp_proto::vint64_t>,
    ::hpp_proto::field_meta<82, 2, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::utf8_validation>,
    ::hpp_proto::field_meta<83, 3, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<84, 4, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<85, 5, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::group>,
    ::hpp_proto::field_meta<86, 6, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<87, 7, ::hpp_proto::field_option::explicit_presence | ::hpp_proto::field_option::closed_enum, void, vp::Closed::CLOSED_ONE>,
    ::hpp_proto::field_meta<88, 8, ::hpp_proto::field_option::explicit_presence, bool>,
    ::hpp_proto::field_meta<89, 9, ::hpp_proto::field_option::explicit_presence>,
    ::hpp_proto::field_meta<90, 10, ::hpp_proto::field_option::explicit_presence>>,
  ::hpp_proto::field_meta<UINT32_MAX, &All<Traits>::unknown_fields_>>;

//NOLINTEND(cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape)
} // namespace vp
// clang-format on
