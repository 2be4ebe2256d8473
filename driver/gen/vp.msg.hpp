// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           vp.proto

#pragma once

#include <hpp_proto/field_types.hpp>
// @@protoc_insertion_point(includes)


namespace vp {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

enum class Open {
  OPEN_ZERO = 0,
  OPEN_ONE = 1,
  OPEN_NEG = -1
};

constexpr bool is_valid(Open value){
  int v = static_cast<int>(value);
  return v >= -1 && v <= 1;
}

enum class Closed {
  CLOSED_ONE = 1,
  CLOSED_TWO = 2,
  CLOSED_FIVE = 5
};

constexpr bool is_valid(Closed value){
  int v = static_cast<int>(value);
  constexpr std::array<int, 3> valid_values{1,2,5};
  return std::ranges::any_of(valid_values, [v](int u){ return u==v; });
}

enum class ClosedZ {
  CZ_ZERO = 0,
  CZ_THREE = 3
};

constexpr bool is_valid(ClosedZ value){
  int v = static_cast<int>(value);
  constexpr std::array<int, 2> valid_values{0,3};
  return std::ranges::any_of(valid_values, [v](int u){ return u==v; });
}

template <typename Traits = ::hpp_proto::default_traits>
struct Leaf {
  using hpp_proto_traits_type = Traits;
  ::hpp_proto::optional<std::int32_t> v;
  ::hpp_proto::optional<typename Traits::string_t> name;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Leaf&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Tree {
  using hpp_proto_traits_type = Traits;
  ::hpp_proto::optional<typename Traits::string_t> label;
  Traits::template optional_indirect_t<Tree> left;
  Traits::template optional_indirect_t<Tree> grp;
  Traits::template recursive_repeated_t<Tree> kids;
  Traits::template recursive_repeated_t<Tree> gkids;
  Traits::template map_t<typename Traits::string_t, typename Traits::template indirect_t<Tree>> named;
  // NOLINTNEXTLINE(cppcoreguidelines-use-enum-class)
  enum pick_oneof_case : int {
    txt = 1,
    blob = 2,
    ce = 3,
    num = 4,
    leaf = 5
  };

  static constexpr std::array<std::uint32_t, 6> pick_oneof_numbers{
    0U, 9U, 10U, 11U, 12U, 13U};
  // NOLINTNEXTLINE(readability-redundant-typename)
  std::variant<std::monostate, typename Traits::string_t, typename Traits::bytes_t, vp::Closed, std::int32_t, vp::Leaf<Traits>> pick;
  std::optional<vp::Leaf<Traits>> one;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Tree&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct All {
  using hpp_proto_traits_type = Traits;
  ::hpp_proto::optional<std::int32_t> f_i32;
  ::hpp_proto::optional<std::int64_t> f_i64;
  ::hpp_proto::optional<std::uint32_t> f_u32;
  ::hpp_proto::optional<std::uint64_t> f_u64;
  ::hpp_proto::optional<std::int32_t> f_s32;
  ::hpp_proto::optional<std::int64_t> f_s64;
  ::hpp_proto::optional<std::uint32_t> f_f32;
  ::hpp_proto::optional<std::uint64_t> f_f64;
  ::hpp_proto::optional<std::int32_t> f_sf32;
  ::hpp_proto::optional<std::int64_t> f_sf64;
  ::hpp_proto::optional<float> f_flt;
  ::hpp_proto::optional<double> f_dbl;
  ::hpp_proto::optional<bool> f_bool;
  ::hpp_proto::optional<typename Traits::string_t> f_str;
  ::hpp_proto::optional<typename Traits::bytes_t> f_bytes;
  ::hpp_proto::optional<vp::Open, vp::Open::OPEN_ZERO> f_open;
  ::hpp_proto::optional<vp::Closed, vp::Closed::CLOSED_ONE> f_closed;
  std::optional<vp::Leaf<Traits>> f_msg;
  std::optional<vp::Leaf<Traits>> f_grp;
  std::int32_t i_i32 = {};
  Traits::string_t i_str;
  Traits::bytes_t i_bytes;
  bool i_bool = {};
  vp::Open i_open = vp::Open::OPEN_ZERO;
  double i_dbl = {};
  Traits::string_t rq_str;
  vp::Closed rq_closed = vp::Closed::CLOSED_ONE;
  Traits::template repeated_t<std::int32_t> p_i32;
  Traits::template repeated_t<std::int64_t> p_s64;
  Traits::template repeated_t<std::uint32_t> p_f32;
  Traits::template repeated_t<double> p_dbl;
  Traits::template repeated_t<bool> p_bool;
  Traits::template repeated_t<vp::Open> p_open;
  Traits::template repeated_t<vp::Closed> p_closed;
  Traits::template repeated_t<std::uint64_t> p_u64;
  Traits::template repeated_t<std::int32_t> u_i32;
  Traits::template repeated_t<std::int64_t> u_s64;
  Traits::template repeated_t<std::uint32_t> u_f32;
  Traits::template repeated_t<bool> u_bool;
  Traits::template repeated_t<vp::Open> u_open;
  Traits::template repeated_t<vp::Closed> u_closed;
  Traits::template repeated_t<typename Traits::string_t> r_str;
  Traits::template repeated_t<typename Traits::bytes_t> r_bytes;
  Traits::template repeated_t<vp::Leaf<Traits>> r_msg;
  Traits::template repeated_t<vp::Leaf<Traits>> r_grp;
  Traits::template map_t<typename Traits::string_t, typename Traits::string_t> m_ss;
  Traits::template map_t<std::int32_t, vp::Leaf<Traits>> m_im;
  Traits::template map_t<bool, typename Traits::bytes_t> m_bb;
  Traits::template map_t<typename Traits::string_t, vp::Open> m_so;
  Traits::template map_t<std::uint64_t, vp::ClosedZ> m_uc;
  Traits::template map_t<std::int32_t, double> m_sd;
  // NOLINTNEXTLINE(cppcoreguidelines-use-enum-class)
  enum o1_oneof_case : int {
    o_i32 = 1,
    o_str = 2,
    o_bytes = 3,
    o_msg = 4,
    o_grp = 5,
    o_open = 6,
    o_closed = 7,
    o_bool = 8,
    o_dbl = 9,
    o_tree = 10
  };

  static constexpr std::array<std::uint32_t, 11> o1_oneof_numbers{
    0U, 81U, 82U, 83U, 84U, 85U, 86U, 87U, 88U, 89U, 90U};
  // NOLINTNEXTLINE(readability-redundant-typename)
  std::variant<std::monostate, std::int32_t, typename Traits::string_t, typename Traits::bytes_t, vp::Leaf<Traits>, vp::Leaf<Traits>, vp::Open, vp::Closed, bool, double, vp::Tree<Traits>> o1;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const All&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const Leaf<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/vp.Leaf">{}; }
template <typename Traits>
constexpr auto message_type_url(const Tree<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/vp.Tree">{}; }
template <typename Traits>
constexpr auto message_type_url(const All<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/vp.All">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace vp
template <typename Traits>
struct hpp_proto::is_hpp_generated<vp::Leaf<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<vp::Tree<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<vp::All<Traits>> : std::true_type {};
// clang-format on
