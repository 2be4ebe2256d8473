// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out proto2_explicit_presence=.vpx:${out_dir}
//           vpx.proto

#pragma once

#include <hpp_proto/field_types.hpp>
// @@protoc_insertion_point(includes)


namespace vpx {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

enum class Col {
  RED = 0,
  BLUE = 2
};

constexpr bool is_valid(Col value){
  int v = static_cast<int>(value);
  constexpr std::array<int, 2> valid_values{0,2};
  return std::ranges::any_of(valid_values, [v](int u){ return u==v; });
}

template <typename Traits = ::hpp_proto::default_traits>
struct Leaf {
  using hpp_proto_traits_type = Traits;
  ::hpp_proto::optional<std::int32_t> v;
  ::hpp_proto::optional<typename Traits::string_t> name;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Leaf&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Ext {
  using hpp_proto_traits_type = Traits;
  ::hpp_proto::optional<std::int32_t> a;
  Traits::template optional_indirect_t<Ext> sub;
  ::hpp_proto::optional<vpx::Col, vpx::Col::RED> col;
  Traits::template repeated_t<vpx::Col> cols;
  Traits::template repeated_t<vpx::Col> pcols;
  // NOLINTNEXTLINE(cppcoreguidelines-use-enum-class)
  enum pick_oneof_case : int {
    ocol = 1,
    onum = 2
  };

  static constexpr std::array<std::uint32_t, 3> pick_oneof_numbers{
    0U, 6U, 7U};
  // NOLINTNEXTLINE(readability-redundant-typename)
  std::variant<std::monostate, vpx::Col, std::int32_t> pick;

  ::hpp_proto::pb_extensions<Traits> unknown_fields_;

  [[nodiscard]] ::hpp_proto::status get_extension(auto &ext, ::hpp_proto::concepts::is_option_type auto && ...option) const {
    return ext.get_from(*this, std::forward<decltype(option)>(option)...);
  }
  [[nodiscard]] auto set_extension(const auto &ext,
                                   ::hpp_proto::concepts::is_option_type auto &&...option) {
    return ext.set_to(*this, std::forward<decltype(option)>(option)...);
  }
  [[nodiscard]] bool has_extension(const auto &ext) const {
    return ext.in(*this);
  }

  bool operator == (const Ext&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const Leaf<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/vpx.Leaf">{}; }
template <typename Traits>
constexpr auto message_type_url(const Ext<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/vpx.Ext">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace vpx
template <typename Traits>
struct hpp_proto::is_hpp_generated<vpx::Leaf<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<vpx::Ext<Traits>> : std::true_type {};
// clang-format on
