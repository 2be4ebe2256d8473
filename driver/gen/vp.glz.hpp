// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           vp.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "vp.msg.hpp"

template <typename Traits>
struct glz::meta<vp::Leaf<Traits>> {
  using T = vp::Leaf<Traits>;
  static constexpr auto value = object(
    "v", &T::v,
    "name", &T::name);
};

template <typename Traits>
struct hpp_proto::has_glz<vp::Leaf<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<vp::Tree<Traits>> {
  using T = vp::Tree<Traits>;
  static constexpr auto value = object(
    "label", &T::label,
    "left", &T::left,
    "grp", &T::grp,
    "kids", ::hpp_proto::as_optional_ref<&T::kids>,
    "gkids", ::hpp_proto::as_optional_ref<&T::gkids>,
    "named", ::hpp_proto::as_optional_ref<&T::named>,
    "txt", ::hpp_proto::as_oneof_member<&T::pick,1>,
    "blob", ::hpp_proto::as_oneof_member<&T::pick,2>,
    "ce", ::hpp_proto::as_oneof_member<&T::pick,3>,
    "num", ::hpp_proto::as_oneof_member<&T::pick,4>,
    "leaf", ::hpp_proto::as_oneof_member<&T::pick,5>,
    "one", &T::one);
};

template <typename Traits>
struct hpp_proto::has_glz<vp::Tree<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<vp::All<Traits>> {
  using T = vp::All<Traits>;
  static constexpr auto value = object(
    "fI32", &T::f_i32,
    "f_i32", ::hpp_proto::as_alias<&T::f_i32>,
    "fI64", &T::f_i64,
    "f_i64", ::hpp_proto::as_alias<&T::f_i64>,
    "fU32", &T::f_u32,
    "f_u32", ::hpp_proto::as_alias<&T::f_u32>,
    "fU64", &T::f_u64,
    "f_u64", ::hpp_proto::as_alias<&T::f_u64>,
    "fS32", &T::f_s32,
    "f_s32", ::hpp_proto::as_alias<&T::f_s32>,
    "fS64", &T::f_s64,
    "f_s64", ::hpp_proto::as_alias<&T::f_s64>,
    "fF32", &T::f_f32,
    "f_f32", ::hpp_proto::as_alias<&T::f_f32>,
    "fF64", &T::f_f64,
    "f_f64", ::hpp_proto::as_alias<&T::f_f64>,
    "fSf32", &T::f_sf32,
    "f_sf32", ::hpp_proto::as_alias<&T::f_sf32>,
    "fSf64", &T::f_sf64,
    "f_sf64", ::hpp_proto::as_alias<&T::f_sf64>,
    "fFlt", &T::f_flt,
    "f_flt", ::hpp_proto::as_alias<&T::f_flt>,
    "fDbl", &T::f_dbl,
    "f_dbl", ::hpp_proto::as_alias<&T::f_dbl>,
    "fBool", &T::f_bool,
    "f_bool", ::hpp_proto::as_alias<&T::f_bool>,
    "fStr", &T::f_str,
    "f_str", ::hpp_proto::as_alias<&T::f_str>,
    "fBytes", &T::f_bytes,
    "f_bytes", ::hpp_proto::as_alias<&T::f_bytes>,
    "fOpen", &T::f_open,
    "f_open", ::hpp_proto::as_alias<&T::f_open>,
    "fClosed", &T::f_closed,
    "f_closed", ::hpp_proto::as_alias<&T::f_closed>,
    "fMsg", &T::f_msg,
    "f_msg", ::hpp_proto::as_alias<&T::f_msg>,
    "fGrp", &T::f_grp,
    "f_grp", ::hpp_proto::as_alias<&T::f_grp>,
    "iI32", ::hpp_proto::as_optional_ref<&T::i_i32>,
    "i_i32", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::i_i32>>,
    "iStr", ::hpp_proto::as_optional_ref<&T::i_str>,
    "i_str", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::i_str>>,
    "iBytes", ::hpp_proto::as_optional_ref<&T::i_bytes>,
    "i_bytes", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::i_bytes>>,
    "iBool", ::hpp_proto::as_optional_ref<&T::i_bool>,
    "i_bool", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::i_bool>>,
    "iOpen", ::hpp_proto::as_optional_ref<&T::i_open, vp::Open::OPEN_ZERO>,
    "i_open", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::i_open, vp::Open::OPEN_ZERO>>,
    "iDbl", ::hpp_proto::as_optional_ref<&T::i_dbl>,
    "i_dbl", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::i_dbl>>,
    "rqStr", ::hpp_proto::as_optional_ref<&T::rq_str>,
    "rq_str", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::rq_str>>,
    "rqClosed", ::hpp_proto::as_optional_ref<&T::rq_closed, vp::Closed::CLOSED_ONE>,
    "rq_closed", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::rq_closed, vp::Closed::CLOSED_ONE>>,
    "pI32", ::hpp_proto::as_optional_ref<&T::p_i32>,
    "p_i32", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_i32>>,
    "pS64", ::hpp_proto::as_optional_ref<&T::p_s64>,
    "p_s64", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_s64>>,
    "pF32", ::hpp_proto::as_optional_ref<&T::p_f32>,
    "p_f32", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_f32>>,
    "pDbl", ::hpp_proto::as_optional_ref<&T::p_dbl>,
    "p_dbl", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_dbl>>,
    "pBool", ::hpp_proto::as_optional_ref<&T::p_bool>,
    "p_bool", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_bool>>,
    "pOpen", ::hpp_proto::as_optional_ref<&T::p_open>,
    "p_open", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_open>>,
    "pClosed", ::hpp_proto::as_optional_ref<&T::p_closed>,
    "p_closed", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_closed>>,
    "pU64", ::hpp_proto::as_optional_ref<&T::p_u64>,
    "p_u64", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::p_u64>>,
    "uI32", ::hpp_proto::as_optional_ref<&T::u_i32>,
    "u_i32", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::u_i32>>,
    "uS64", ::hpp_proto::as_optional_ref<&T::u_s64>,
    "u_s64", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::u_s64>>,
    "uF32", ::hpp_proto::as_optional_ref<&T::u_f32>,
    "u_f32", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::u_f32>>,
    "uBool", ::hpp_proto::as_optional_ref<&T::u_bool>,
    "u_bool", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::u_bool>>,
    "uOpen", ::hpp_proto::as_optional_ref<&T::u_open>,
    "u_open", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::u_open>>,
    "uClosed", ::hpp_proto::as_optional_ref<&T::u_closed>,
    "u_closed", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::u_closed>>,
    "rStr", ::hpp_proto::as_optional_ref<&T::r_str>,
    "r_str", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::r_str>>,
    "rBytes", ::hpp_proto::as_optional_ref<&T::r_bytes>,
    "r_bytes", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::r_bytes>>,
    "rMsg", ::hpp_proto::as_optional_ref<&T::r_msg>,
    "r_msg", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::r_msg>>,
    "rGrp", ::hpp_proto::as_optional_ref<&T::r_grp>,
    "r_grp", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::r_grp>>,
    "mSs", ::hpp_proto::as_optional_ref<&T::m_ss>,
    "m_ss", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::m_ss>>,
    "mIm", ::hpp_proto::as_optional_ref<&T::m_im>,
    "m_im", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::m_im>>,
    "mBb", ::hpp_proto::as_optional_ref<&T::m_bb>,
    "m_bb", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::m_bb>>,
    "mSo", ::hpp_proto::as_optional_ref<&T::m_so>,
    "m_so", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::m_so>>,
    "mUc", ::hpp_proto::as_optional_ref<&T::m_uc>,
    "m_uc", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::m_uc>>,
    "mSd", ::hpp_proto::as_optional_ref<&T::m_sd>,
    "m_sd", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::m_sd>>,
    "oI32", ::hpp_proto::as_oneof_member<&T::o1,1>,
    "o_i32", ::hpp_proto::as_oneof_alias<&T::o1,1>,
    "oStr", ::hpp_proto::as_oneof_member<&T::o1,2>,
    "o_str", ::hpp_proto::as_oneof_alias<&T::o1,2>,
    "oBytes", ::hpp_proto::as_oneof_member<&T::o1,3>,
    "o_bytes", ::hpp_proto::as_oneof_alias<&T::o1,3>,
    "oMsg", ::hpp_proto::as_oneof_member<&T::o1,4>,
    "o_msg", ::hpp_proto::as_oneof_alias<&T::o1,4>,
    "oGrp", ::hpp_proto::as_oneof_member<&T::o1,5>,
    "o_grp", ::hpp_proto::as_oneof_alias<&T::o1,5>,
    "oOpen", ::hpp_proto::as_oneof_member<&T::o1,6>,
    "o_open", ::hpp_proto::as_oneof_alias<&T::o1,6>,
    "oClosed", ::hpp_proto::as_oneof_member<&T::o1,7>,
    "o_closed", ::hpp_proto::as_oneof_alias<&T::o1,7>,
    "oBool", ::hpp_proto::as_oneof_member<&T::o1,8>,
    "o_bool", ::hpp_proto::as_oneof_alias<&T::o1,8>,
    "oDbl", ::hpp_proto::as_oneof_member<&T::o1,9>,
    "o_dbl", ::hpp_proto::as_oneof_alias<&T::o1,9>,
    "oTree", ::hpp_proto::as_oneof_member<&T::o1,10>,
    "o_tree", ::hpp_proto::as_oneof_alias<&T::o1,10>);
};

template <typename Traits>
struct hpp_proto::has_glz<vp::All<Traits>> : std::true_type {};
template <>
struct glz::meta<vp::Open> {
  using enum vp::Open;
  static constexpr auto value = enumerate(
    "OPEN_NEG", OPEN_NEG,
    "OPEN_ZERO", OPEN_ZERO,
    "OPEN_ONE", OPEN_ONE);
};

template <>
struct glz::meta<vp::Closed> {
  using enum vp::Closed;
  static constexpr auto value = enumerate(
    "CLOSED_ONE", CLOSED_ONE,
    "CLOSED_TWO", CLOSED_TWO,
    "CLOSED_FIVE", CLOSED_FIVE);
};

template <>
struct glz::meta<vp::ClosedZ> {
  using enum vp::ClosedZ;
  static constexpr auto value = enumerate(
    "CZ_ZERO", CZ_ZERO,
    "CZ_THREE", CZ_THREE);
};

// clang-format on
