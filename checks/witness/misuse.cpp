// programs that must not compile: each one is a requires-expression here (misuse refused by a constraint or a signature);
// those refused by a static_assert inside a function body are in misuse_body.cpp
#include "vp.pb.hpp"
#include "vpx.pb.hpp"
#include <deque>
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
#include <hpp_proto/merge.hpp>
#include <list>
#include <memory_resource>
#include <vector>
using namespace hpp_proto;
using own_t = vp::All<default_traits>;
using leaf_t = vp::Leaf<default_traits>;
using view_t = vp::Leaf<non_owning_traits>;
using mono = std::pmr::monotonic_buffer_resource;
using buf_t = std::vector<std::byte>;
struct not_message { int x; };
struct half_sink { using slice_type = std::span<std::byte>; std::span<std::byte> next_chunk(); std::size_t chunk_size() const; };
struct sink_t { using slice_type = std::span<std::byte>; void set_message_size(std::size_t); std::span<std::byte> next_chunk(); std::size_t chunk_size() const; };
// a positive probe beside every group keeps the negative ones honest: when it fails, the file no longer fits the tree
template <class M, class B> concept writes = requires(M m, B &b) { write_binpb(m, b); };
template <class M, class B> concept writes_c = requires(M m, const B &b) { write_binpb(m, b); };
template <class B, class M> concept writes_new = requires(M m) { write_binpb<B>(m); };
template <class M, class B> concept appends = requires(M m, B &b) { append_binpb(m, b); };
template <class M, class B> concept reads = requires(M &m, B b) { read_binpb(m, b); };
template <class M, class B> concept reads_new = requires(B b) { read_binpb<M>(b); };
template <class M, class O> concept writes_opt = requires(M m, buf_t &b, O o) { write_binpb(m, b, o); };
template <class M, class O> concept reads_opt = requires(M &m, const buf_t b, O o) { read_binpb(m, b, o); };
template <class A, class B> concept merges = requires(A &a, B b) { merge(a, b); };
static_assert(writes<leaf_t, buf_t> && writes<leaf_t, std::span<std::byte>> && writes<leaf_t, sink_t> && appends<leaf_t, buf_t> && reads<leaf_t, buf_t> && reads_new<leaf_t, buf_t> && merges<leaf_t, const leaf_t &> && writes_new<std::string, leaf_t>, "the probes fit the API");
#define NEVER(e, what) static_assert(!(e), "[R-accept] " what)
// encoding: what may be written to
NEVER((writes<leaf_t, std::vector<int>>), "a message can be encoded into a buffer whose elements are not bytes");
NEVER((writes<leaf_t, std::vector<double>>), "a message can be encoded into a buffer whose elements are not bytes");
NEVER((writes<leaf_t, std::list<std::byte>>), "a message can be encoded into a buffer that is not contiguous");
NEVER((writes<leaf_t, std::deque<std::byte>>), "a message can be encoded into a buffer that is not contiguous");
NEVER((writes<leaf_t, std::vector<bool>>), "a message can be encoded into a buffer whose elements are not bytes");
NEVER((writes<leaf_t, half_sink>), "a sink without set_message_size is accepted");
NEVER((writes<leaf_t, int>), "a message can be encoded into something that is neither buffer nor sink");
NEVER((writes_new<std::vector<int>, leaf_t>), "a message can be encoded into a buffer whose elements are not bytes");
NEVER((writes_new<std::list<char>, leaf_t>), "a message can be encoded into a buffer that is not contiguous");
NEVER((appends<leaf_t, std::span<std::byte>>), "a message can be appended to a buffer of fixed size");
NEVER((appends<leaf_t, std::array<std::byte, 8>>), "a message can be appended to a buffer of fixed size");
NEVER((appends<leaf_t, std::string_view>), "a message can be appended to a read-only view");
NEVER((appends<leaf_t, std::vector<int>>), "a message can be appended to a buffer whose elements are not bytes");
NEVER((appends<leaf_t, std::deque<std::byte>>), "a message can be appended to a buffer that is not contiguous");
// what may be encoded, decoded and merged
NEVER((writes<int, buf_t>) || (writes<std::string, buf_t>) || (writes<not_message, buf_t>) || (writes<std::vector<leaf_t>, buf_t>), "something that is not a message can be encoded");
NEVER((appends<int, buf_t>) || (appends<not_message, buf_t>), "something that is not a message can be appended");
NEVER((reads<int, buf_t>) || (reads<std::string, buf_t>) || (reads<not_message, buf_t>) || (reads<std::vector<leaf_t>, buf_t>), "something that is not a message can be decoded into");
NEVER((reads_new<int, buf_t>) || (reads_new<not_message, buf_t>), "something that is not a message can be decoded");
NEVER((reads<leaf_t, std::vector<int>>), "input whose elements are not bytes is accepted");
NEVER((reads<leaf_t, std::vector<double>>), "input whose elements are not bytes is accepted");
NEVER((reads<leaf_t, std::list<std::byte>>), "input that is not contiguous is accepted");
NEVER((reads<leaf_t, std::deque<std::byte>>), "input that is not contiguous is accepted");
NEVER((reads<leaf_t, std::list<std::vector<std::byte>>>), "chunks without random access are accepted");
NEVER((reads<leaf_t, std::vector<std::vector<int>>>), "chunks whose elements are not bytes are accepted");
NEVER((reads<leaf_t, std::vector<std::list<std::byte>>>), "chunks that are not contiguous are accepted");
NEVER((reads<leaf_t, int>) || (reads<leaf_t, not_message>), "input that is not a range of bytes is accepted");
NEVER((reads_new<leaf_t, std::vector<int>>) || (reads_new<leaf_t, std::list<std::byte>>) || (reads_new<leaf_t, std::vector<std::vector<int>>>), "input that is not a contiguous range of bytes is accepted");
NEVER((merges<leaf_t, const own_t &>) || (merges<own_t, const leaf_t &>), "messages of different types can be merged");
NEVER((merges<leaf_t, const vp::Tree<default_traits> &>), "messages of different types can be merged");
NEVER((merges<leaf_t, int>) || (merges<int, int>) || (merges<not_message, not_message>), "things that are not messages can be merged");
// options
static_assert(writes_opt<leaf_t, cache_alloc_from> && reads_opt<leaf_t, alloc_from<mono>> && reads_opt<leaf_t, padded_input_t>, "the probes fit the API");
NEVER((writes_opt<leaf_t, int>) || (writes_opt<leaf_t, mono *>) || (writes_opt<leaf_t, not_message>) || (writes_opt<leaf_t, leaf_t>), "something that is not an option is accepted as one by encoding");
NEVER((reads_opt<leaf_t, int>) || (reads_opt<leaf_t, mono *>) || (reads_opt<leaf_t, not_message>) || (reads_opt<leaf_t, leaf_t>), "something that is not an option is accepted as one by decoding");
template <class... A> concept makes_alloc = requires(A &&...a) { alloc_from{static_cast<A &&>(a)...}; };
template <class... A> concept makes_cache = requires(A &&...a) { cache_alloc_from{static_cast<A &&>(a)...}; };
static_assert(makes_alloc<mono &> && makes_cache<mono &>, "the probes fit the API");
NEVER((makes_alloc<mono>) || (std::is_constructible_v<alloc_from<mono>, mono>) || (makes_alloc<const mono &>) || (std::is_constructible_v<alloc_from<mono>, const mono &>), "a temporary memory resource is accepted by alloc_from");
NEVER((makes_cache<mono>) || (makes_cache<const mono &>), "a temporary memory resource is accepted by cache_alloc_from");
NEVER((makes_alloc<int &>) || (makes_alloc<std::allocator<char> &>) || (makes_alloc<buf_t &>) || (makes_alloc<leaf_t &>), "something that is not a memory resource is accepted by alloc_from");
NEVER((makes_cache<int &>) || (makes_cache<std::allocator<char> &>) || (makes_cache<std::nullptr_t>), "something that is not a memory resource is accepted by cache_alloc_from");
NEVER((std::is_convertible_v<mono &, alloc_from<mono>>) || (std::is_convertible_v<mono &, cache_alloc_from>), "a memory resource turns into an option implicitly");
NEVER((std::is_default_constructible_v<alloc_from<mono>>) || (std::is_default_constructible_v<cache_alloc_from>), "an allocation option can be made without a memory resource");
NEVER((std::is_copy_constructible_v<default_cache_memory_resource<>>) || (std::is_move_constructible_v<default_cache_memory_resource<>>) || (std::is_copy_assignable_v<default_cache_memory_resource<>>) || (std::is_move_assignable_v<default_cache_memory_resource<>>), "a memory resource with a buffer of its own can be copied or moved");
using av = hpp_proto::detail::arena_vector<std::string_view, mono>;
NEVER((std::is_copy_constructible_v<av>) || (std::is_move_constructible_v<av>) || (std::is_copy_assignable_v<av>) || (std::is_move_assignable_v<av>), "an arena adapter can be copied away from the view it adapts");
// views are read-only; constness reaches through every owner
template <class T> concept elem_writable = requires(T t, std::remove_cvref_t<decltype(*t.begin())> v) { *t.begin() = v; };
template <class T> concept index_writable = requires(T t, std::remove_cvref_t<decltype(t[0])> v) { t[0] = v; };
template <class T> concept deref_writable = requires(T t, std::remove_cvref_t<decltype(*t)> v) { *t = v; };
template <class T> concept arrow_writable = requires(T t, std::remove_cvref_t<decltype(*t)> v) { *t.operator->() = v; };
template <class T> concept value_writable = requires(T t, std::remove_cvref_t<decltype(t.value())> v) { t.value() = v; };
template <class T> inline constexpr bool any_writable = elem_writable<T> || index_writable<T> || deref_writable<T> || arrow_writable<T> || value_writable<T>;
using VA = vp::All<non_owning_traits>;
using VT = vp::Tree<non_owning_traits>;
using OA = vp::All<default_traits>;
using OT = vp::Tree<default_traits>;
using ST = vp::Tree<stable_traits>;
static_assert(elem_writable<std::vector<int> &> && index_writable<std::vector<int> &> && deref_writable<std::optional<int> &> && value_writable<std::optional<int> &>, "the probes fit the API");
static_assert(deref_writable<decltype(OT::left) &> && index_writable<decltype(OT::kids) &> && arrow_writable<decltype(OT::left) &>, "the probes fit the API");
NEVER((any_writable<decltype(VA::r_msg) &>) || (any_writable<decltype(VA::p_i32) &>) || (any_writable<decltype(VA::r_str) &>) || (any_writable<decltype(VA::i_bytes) &>) || (any_writable<decltype(VA::i_str) &>) || (any_writable<decltype(VA::m_im) &>), "an element of a view message can be written through the view");
NEVER((any_writable<decltype(VT::left) &>) || (any_writable<decltype(VT::grp) &>) || (any_writable<decltype(VT::kids) &>) || (any_writable<decltype(VT::named) &>), "a nested message of a view message can be written through the view");
NEVER((any_writable<const decltype(OT::left) &>) || (any_writable<const decltype(OT::grp) &>), "a nested message of a const message can be written");
NEVER((any_writable<const decltype(OT::kids) &>) || (any_writable<const decltype(OA::p_i32) &>) || (any_writable<const decltype(OA::f_i32) &>) || (any_writable<const decltype(OA::f_bool) &>) || (any_writable<const decltype(OA::f_str) &>) || (any_writable<const decltype(OA::f_msg) &>), "a field of a const message can be written");
using ind = hpp_proto::indirect<vp::Leaf<default_traits>>;
static_assert(deref_writable<ind &> && value_writable<ind &> && arrow_writable<ind &>, "the probes fit the API");
NEVER((any_writable<const ind &>), "the object of a const indirect can be written");
using indv = hpp_proto::indirect_view<vp::Leaf<default_traits>>;
NEVER((any_writable<const indv &>) || (any_writable<indv &>), "the object of an indirect view can be written");
template <class T> concept ptr_to_const = std::is_const_v<std::remove_pointer_t<decltype(std::declval<T>().operator->())>>;
NEVER((!ptr_to_const<const ind &>) || (!ptr_to_const<const decltype(OT::left) &>) || (!ptr_to_const<const decltype(OA::f_str) &>) || (!ptr_to_const<indv &>), "constness is lost through operator->");
// map keys stay as they are, or the order of the map would not hold
using FM = decltype(OA::m_ss);
template <class M> concept key_writable = requires(M m, std::string k) { (*m.begin()).first = k; } || requires(M m, std::string k) { m.begin()->first = k; };
template <class M> concept mapped_writable = requires(M m, std::string k) { (*m.begin()).second = k; } || requires(M m, std::string k) { m.begin()->second = k; };
template <class M> concept indexable = requires(M m, std::string k) { m[k]; };
template <class M> concept alterable = requires(M m) { m.clear(); } || requires(M m, std::string k) { m.erase(k); } || requires(M m, std::string k) { m.try_emplace(k); } || requires(M m, std::string k) { m.emplace(k, k); } || requires(M m) { m.extract(); };
static_assert(mapped_writable<FM &> && indexable<FM &> && alterable<FM &>, "the probes fit the API");
NEVER((key_writable<FM &>) || (key_writable<const FM &>), "a key inside a map can be changed");
NEVER((mapped_writable<const FM &>) || (indexable<const FM &>) || (alterable<const FM &>), "a const map can be changed");
template <class M> concept keys_writable = requires(M m, std::string k) { m.keys()[0] = k; } || requires(M m, std::string k) { m.keys().push_back(k); };
NEVER((keys_writable<FM &>) || (keys_writable<const FM &>), "the keys of a map can be changed behind its back");
static_assert(std::is_convertible_v<FM::iterator, FM::const_iterator>, "the probes fit the API");
NEVER((std::is_convertible_v<FM::const_iterator, FM::iterator>), "a const_iterator of a map turns into an iterator");
// dynamic messages: what is read-only
using MC = message_value_cref;
using MM = message_value_mref;
template <class T> concept d_reset = requires(T t) { t.reset(); };
template <class T> concept d_clear = requires(T t) { t.clear(); };
template <class T> concept d_resize = requires(T t) { t.resize(1); };
template <class T> concept d_emplace = requires(T t) { t.emplace(); } || requires(T t) { t.emplace_back(); } || requires(T t) { t.set_as_default(); };
template <class T, class V> concept d_set = requires(T t, V v) { t.set(v); } || requires(T t, V v) { t.adopt(v); } || requires(T t, V v) { t.push_back(v); };
template <class T> concept d_assign = requires(T t, T u) { t.clone_from(u); } || requires(T t, T u) { t.alias_from(u); };
template <class T> concept d_byname = requires(T t, std::string_view n) { t.set_field_by_name(n, 1); } || requires(T t) { t.set_field_by_number(1U, 1); } || requires(T t, std::string_view n) { t.modify_field_by_name(n, [](auto &&) {}); } || requires(T t) { t.modify_field_by_number(1U, [](auto &&) {}); } || requires(T t, const field_descriptor_t &d) { t.clear_field(d); } || requires(T t, const oneof_descriptor_t &d) { t.clear_field(d); };
template <class T> concept d_modify = requires(T t) { t.modify([](auto &&) {}); } || requires(T t) { t.set_null(); };
template <class T> inline constexpr bool d_mutates = d_reset<T> || d_clear<T> || d_resize<T> || d_emplace<T> || d_assign<T> || d_byname<T> || d_modify<T> || d_set<T, int> || d_set<T, std::string_view> || d_set<T, bytes_view> || d_set<T, MC> || d_set<T, double> || d_set<T, bool>;
template <class M> inline constexpr bool is_mut = requires { M::is_mutable; };
static_assert(d_reset<MM> && d_byname<MM> && d_assign<MM> && d_reset<field_mref> && d_reset<message_field_mref> && d_emplace<message_field_mref> && d_resize<repeated_message_field_mref> && d_set<string_field_mref, std::string_view> && d_set<scalar_field_mref<int32_t, KIND_INT32>, int32_t> && d_resize<repeated_string_field_mref>, "the probes fit the API");
NEVER((d_mutates<MC>) || (d_mutates<const MC &>) || (d_mutates<MC &>), "a dynamic message can be changed through a read-only reference");
NEVER((d_mutates<field_cref>) || (d_mutates<field_cref &>) || (d_mutates<const field_cref &>), "a field of a dynamic message can be changed through a read-only reference");
NEVER((d_mutates<message_field_cref>) || (d_mutates<repeated_message_field_cref>), "a nested dynamic message can be changed through a read-only reference");
NEVER((d_mutates<string_field_cref>) || (d_mutates<bytes_field_cref>) || (d_mutates<repeated_string_field_cref>) || (d_mutates<repeated_bytes_field_cref>), "a string or bytes field of a dynamic message can be changed through a read-only reference");
NEVER((d_mutates<scalar_field_cref<int32_t, KIND_INT32>>) || (d_mutates<scalar_field_cref<double, KIND_DOUBLE>>) || (d_mutates<scalar_field_cref<bool, KIND_BOOL>>) || (d_mutates<repeated_scalar_field_cref<int32_t, KIND_INT32>>), "a number of a dynamic message can be changed through a read-only reference");
NEVER((d_mutates<enum_field_cref>) || (d_mutates<repeated_enum_field_cref>), "an enum of a dynamic message can be changed through a read-only reference");
NEVER((std::is_convertible_v<MC, MM>) || (std::is_constructible_v<MM, MC>) || (std::is_convertible_v<field_cref, field_mref>) || (std::is_constructible_v<field_mref, field_cref>) || (std::is_constructible_v<message_field_mref, message_field_cref>) || (std::is_constructible_v<string_field_mref, string_field_cref>) || (std::is_constructible_v<repeated_message_field_mref, repeated_message_field_cref>), "a read-only reference turns into a mutable one");
template <class T> concept elem_mutable = requires(T t) { requires std::remove_cvref_t<decltype(t[0])>::is_mutable; } || requires(T t) { requires std::remove_cvref_t<decltype(*t.begin())>::is_mutable; } || std::same_as<std::remove_cvref_t<decltype(std::declval<T>()[0])>, MM>;
static_assert(elem_mutable<repeated_message_field_mref>, "the probes fit the API");
NEVER((elem_mutable<repeated_message_field_cref>), "an element of a repeated field can be changed through a read-only reference");
template <class R> inline constexpr bool lval_mut = std::is_lvalue_reference_v<R> && !std::is_const_v<std::remove_reference_t<R>>;
template <class T> inline constexpr bool elem_lval = lval_mut<decltype(std::declval<T>()[0])> || lval_mut<decltype(*std::declval<T>().begin())>;
NEVER((elem_lval<repeated_scalar_field_cref<int32_t, KIND_INT32>>) || (elem_lval<repeated_string_field_cref>) || (elem_lval<repeated_bytes_field_cref>) || (elem_writable<std::remove_cvref_t<decltype(std::declval<repeated_bytes_field_cref>()[0])>>), "an element of a repeated field can be changed through a read-only reference");
NEVER((std::same_as<std::remove_cvref_t<decltype(*std::declval<message_field_cref>())>, MM>) || (std::same_as<std::remove_cvref_t<decltype(std::declval<message_field_cref>().value())>, MM>), "a nested dynamic message can be changed through a read-only reference");
template <class T, class R> concept typed_ref = requires(T t) { t.template typed_ref_by_number<R>(1U); };
template <class T, class R> concept typed_name = requires(T t, std::string_view n) { t.template typed_ref_by_name<R>(n); };
static_assert(typed_ref<MC, string_field_cref> && typed_ref<MM, string_field_mref> && typed_name<MM, string_field_mref>, "the probes fit the API");
NEVER((typed_ref<MC, string_field_mref>) || (typed_name<MC, string_field_mref>) || (typed_ref<MC, message_field_mref>) || (typed_name<MC, message_field_mref>) || (typed_ref<MC, int>), "a mutable typed reference can be had from a read-only message");
template <class T> concept gives_mref = requires(T t, const field_descriptor_t &d) { { t.field(d) } -> std::convertible_to<field_mref>; } || requires(T t) { { t.fields()[0] } -> std::convertible_to<field_mref>; } || requires(T t) { { *t.fields().begin() } -> std::convertible_to<field_mref>; };
static_assert(gives_mref<MM>, "the probes fit the API");
NEVER((gives_mref<MC>), "a mutable field reference can be had from a read-only message");
template <class M, class B> concept d_reads = requires(M m, B b) { read_binpb(m, b); };
static_assert(d_reads<MM, buf_t>, "the probes fit the API");
NEVER((d_reads<MC, int>) || (d_reads<MC, buf_t>), "a read-only dynamic message can be decoded into");
NEVER((writes<MC, std::vector<int>>) || (writes<MC, std::list<std::byte>>) || (writes<MC, half_sink>), "a dynamic message can be encoded into something that is neither a byte buffer nor a sink");
NEVER((std::is_copy_constructible_v<dynamic_message_factory>) || (std::is_copy_assignable_v<dynamic_message_factory>), "a factory can be copied, so its descriptors would be owned twice");
template <class F, class R> concept gets_message = requires(const F &f, std::string_view n, R &&r) { f.get_message(n, static_cast<R &&>(r)); };
static_assert(gets_message<dynamic_message_factory, mono &>, "the probes fit the API");
NEVER((gets_message<dynamic_message_factory, mono>), "a dynamic message can be made on a temporary memory resource");
NEVER((std::is_constructible_v<use_factory, dynamic_message_factory>), "a temporary factory is accepted as an option");
// a depth scope gives its level back once
using rs = hpp_proto::detail::recursion_scope;
NEVER((std::is_copy_constructible_v<rs>) || (std::is_move_constructible_v<rs>) || (std::is_copy_assignable_v<rs>) || (std::is_move_assignable_v<rs>), "a depth scope can be copied, so a level would be given back twice");
