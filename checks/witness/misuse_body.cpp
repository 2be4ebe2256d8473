// programs that must not compile, one at a time: -DCASE=n selects one; with no CASE the file must compile.
// "CASE n [rule] text" names what it would mean if case n compiled.
#include "vp.pb.hpp"
#include "vpx.pb.hpp"
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
#include <hpp_proto/merge.hpp>
#include <memory_resource>
using namespace hpp_proto;
#ifndef CASE
#define CASE 0
#endif
using own = vp::All<default_traits>;
using view = vp::All<non_owning_traits>;
using leaf_view = vp::Leaf<non_owning_traits>;
using tree_view = vp::Tree<non_owning_traits>;
using unk_view = vp::Leaf<keep_unknown_fields<non_owning_traits>>;
using ext_view = vpx::Ext<non_owning_traits>;
using ext_own = vpx::Ext<default_traits>;
using in_t = std::span<const std::byte>;
using chunks_t = std::vector<std::span<const std::byte>>;
using mono = std::pmr::monotonic_buffer_resource;
int f(own &o, view &v, leaf_view &lv, tree_view &tv, unk_view &uv, ext_view &ev, ext_own &eo, in_t in, const chunks_t &ch, std::vector<std::byte> &out, mono &mr, message_value_mref dm, message_value_cref dc) {
  const own co{};
#if CASE == 0
  (void)read_binpb(v, in, alloc_from(mr)); (void)read_binpb(tv, in, alloc_from(mr)); (void)read_binpb(uv, in, alloc_from(mr)); (void)read_binpb(lv, ch, alloc_from(mr)); (void)read_binpb(ev, in, alloc_from(mr));
  bytes_view bv; (void)write_binpb(o, bv, alloc_from(mr)); (void)write_binpb(dc, bv, alloc_from(mr)); (void)read_binpb(o, in, recursion_limit<7>);
  vpx::x_pk<non_owning_traits> xv; (void)ev.get_extension(xv, alloc_from(mr)); (void)ev.set_extension(xv, alloc_from(mr)); vpx::x_str<default_traits> xs; (void)eo.get_extension(xs);
  (void)read_binpb<view>(in, alloc_from(mr)); (void)write_binpb(co, out);
#elif CASE == 1 // CASE 1 [R-resource] a view message with repeated fields is decoded without a memory resource
  (void)read_binpb(v, in);
#elif CASE == 2 // CASE 2 [R-resource] a view message with nested messages is decoded without a memory resource
  (void)read_binpb(tv, in);
#elif CASE == 3 // CASE 3 [R-resource] a view message that keeps unknown fields is decoded without a memory resource
  (void)read_binpb(uv, in);
#elif CASE == 4 // CASE 4 [R-resource] a view message is decoded from chunks without a memory resource
  (void)read_binpb(lv, ch);
#elif CASE == 5 // CASE 5 [R-resource] a view message with extensions is decoded without a memory resource
  (void)read_binpb(ev, in);
#elif CASE == 6 // CASE 6 [R-resource] a view message is returned from decoding without a memory resource
  (void)read_binpb<view>(in);
#elif CASE == 7 // CASE 7 [R-resource] an extension is set on a view message without a memory resource
  vpx::x_pk<non_owning_traits> xv; (void)ev.set_extension(xv);
#elif CASE == 8 // CASE 8 [R-resource] a repeated extension of a view message is read without a memory resource
  vpx::x_pk<non_owning_traits> xv; (void)ev.get_extension(xv);
#elif CASE == 9 // CASE 9 [R-resource] a group nested in a view message is decoded from chunks without a memory resource
  (void)read_binpb(tv, ch);
#elif CASE == 10 // CASE 10 [R-resource] a message is encoded into a view without a memory resource
  bytes_view bv; (void)write_binpb(o, bv);
#elif CASE == 11 // CASE 11 [R-resource] a dynamic message is encoded into a view without a memory resource
  bytes_view bv; (void)write_binpb(dc, bv);
#elif CASE == 12 // CASE 12 [R-const] a const message is decoded into
  (void)read_binpb(co, in);
#elif CASE == 13 // CASE 13 [R-const] a const message is merged into
  merge(co, o);
#elif CASE == 14 // CASE 14 [R-const] a message is encoded into a const buffer
  const std::vector<std::byte> cb; (void)write_binpb(o, cb);
#elif CASE == 15 // CASE 15 [R-const] a message is encoded into a span of const bytes
  std::span<const std::byte> cs; (void)write_binpb(o, cs);
#elif CASE == 16 // CASE 16 [R-discard] the outcome of decoding can be dropped silently
  read_binpb(o, in);
#elif CASE == 17 // CASE 17 [R-discard] the outcome of encoding can be dropped silently
  write_binpb(o, out);
#elif CASE == 18 // CASE 18 [R-discard] the outcome of decoding a dynamic message can be dropped silently
  read_binpb(dm, in);
#elif CASE == 19 // CASE 19 [R-discard] the outcome of encoding a dynamic message can be dropped silently
  write_binpb(dc, out);
#elif CASE == 20 // CASE 20 [R-discard] the outcome of reading an extension can be dropped silently
  vpx::x_str<default_traits> xs; eo.get_extension(xs);
#elif CASE == 21 // CASE 21 [R-discard] the outcome of appending can be dropped silently
  append_binpb(o, out);
#elif CASE == 22 // CASE 22 [R-limit] a recursion limit that cannot be counted is accepted
  (void)read_binpb(o, in, recursion_limit<0xffffffffU>);
#elif CASE == 23 // CASE 23 [R-extendee] an extension is set on a message it does not extend
  vpx::x_str<default_traits> xs; (void)xs.set_to(o);
#elif CASE == 24 // CASE 24 [R-extendee] an extension is read from a message it does not extend
  vpx::x_str<default_traits> xs; (void)xs.get_from(o);
#elif CASE == 25 // CASE 25 [R-const] an extension is set on a const message
  const ext_own ce{}; vpx::x_str<default_traits> xs; (void)xs.set_to(ce);
#elif CASE == 26 // CASE 26 [R-const] a dynamic message is decoded through a read-only reference
  (void)read_binpb(dc, in);
#elif CASE == 27 // CASE 27 [R-accept] a dynamic message is encoded into a const buffer
  const std::vector<std::byte> cb; (void)write_binpb(dc, cb);
#endif
  return 0;
}
