// what may be an argument of an emission, and what a lexical value can be made from, is fixed by types
#include "src/protoc-plugin/cpp_lexical_emitter.hpp"
#include <filesystem>
#include <span>
#include <vector>
namespace c = hpp_proto::protoc::cpp;
using It = std::back_insert_iterator<std::string>;
template <typename T>
concept emits = requires(It o, T v) { c::emit_to(o, "{}", v); };
template <typename T>
concept formats = requires(T v) { c::format("{}", v); };
template <typename L, typename... A>
inline constexpr bool made_from = requires(A... a) { L{a...}; } || std::is_constructible_v<L, A...> || (... || std::is_convertible_v<A, L>);
template <typename T>
inline constexpr bool text_refused = !c::source_argument<T> && !c::source_argument<const T &> && !emits<T> && !emits<const T &> && !formats<T>;
static_assert(text_refused<std::string>, "[R-type] a std::string can be emitted without passing through a lexical type");
static_assert(text_refused<std::string_view>, "[R-type] a std::string_view can be emitted without passing through a lexical type");
static_assert(text_refused<const char *>, "[R-type] a C string can be emitted without passing through a lexical type");
static_assert(text_refused<char *>, "[R-type] a C string can be emitted without passing through a lexical type");
static_assert(text_refused<char>, "[R-type] a character can be emitted without passing through a lexical type");
static_assert(text_refused<unsigned char>, "[R-type] a character can be emitted without passing through a lexical type");
static_assert(text_refused<char8_t>, "[R-type] a character can be emitted without passing through a lexical type");
static_assert(text_refused<std::filesystem::path>, "[R-type] a path can be emitted without passing through a lexical type");
static_assert(text_refused<std::vector<char>>, "[R-type] a vector of characters can be emitted without passing through a lexical type");
static_assert(text_refused<std::span<const char>>, "[R-type] a span of characters can be emitted without passing through a lexical type");
template <typename L>
inline constexpr bool closed = !made_from<L, std::string> && !made_from<L, std::string_view> && !made_from<L, const char *> && !made_from<L, std::string &> && !made_from<L, const std::string &>;
static_assert(closed<c::identifier>, "[R-type] an identifier can be made from unchecked text");
static_assert(closed<c::qualified_name>, "[R-type] a qualified name can be made from unchecked text");
static_assert(closed<c::include_path>, "[R-type] an include path can be made from unchecked text");
static_assert(closed<c::numeric_literal>, "[R-type] a numeric literal can be made from unchecked text");
static_assert(closed<c::source_fragment>, "[R-type] a source fragment can be made from unchecked text");
static_assert(closed<c::file_descriptor_name>, "[R-type] a descriptor name can be made from unchecked text");
template <typename L>
concept mutable_text = requires(L l, std::string s, std::string_view v) { l.append(s); } || requires(L l, std::string_view v) { l.append(v); } || requires(L l, std::string_view v) { l += v; } || requires(L l, std::string s) { l += s; };
static_assert(!mutable_text<c::source_fragment> && !mutable_text<c::identifier> && !mutable_text<c::qualified_name>, "[R-type] unchecked text can be appended to a lexical value");
template <typename L>
concept view_only = std::same_as<decltype(std::declval<L &>().view()), std::string_view>;
static_assert(view_only<c::identifier> && view_only<c::qualified_name> && view_only<c::string_literal_bytes> && view_only<c::include_path> && view_only<c::numeric_literal> && view_only<c::comment_text> && view_only<c::source_fragment>, "[R-type] the spelling of a lexical value can be changed from outside");
