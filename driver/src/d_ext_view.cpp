#include "common.h"
#include "vpx.pb.hpp"
#include "google/protobuf/any.pb.hpp"
using namespace hpp_proto;
using nt = non_owning_traits;
VPROOT int vproot_arena_ext(vpx::Ext<nt> &m, bytes_in in, opaque_resource &mr) { return (int)read_binpb(m, in, alloc_from(mr)).ec; }
VPROOT int vproot_arenac_ext(vpx::Ext<nt> &m, const chunks_in &in, opaque_resource &mr, std::pmr::memory_resource &cache) { return (int)read_binpb(m, in, alloc_from(mr), cache_alloc_from(cache)).ec; }
VPROOT int vproot_arena_ext_get(const vpx::Ext<nt> &m, vpx::x_str<nt> &a, vpx::x_msg<nt> &b, vpx::x_ext<nt> &c, vpx::x_pk<nt> &d, opaque_resource &mr) {
  if (!m.has_extension(a)) return 1;
  if (auto r = m.get_extension(a, alloc_from(mr)); !r.ok()) return (int)r.ec;
  if (auto r = m.get_extension(b, alloc_from(mr)); !r.ok()) return (int)r.ec;
  if (auto r = m.get_extension(c, alloc_from(mr)); !r.ok()) return (int)r.ec;
  return (int)m.get_extension(d, alloc_from(mr)).ec;
}
VPROOT int vproot_arenaw_ext_set(vpx::Ext<nt> &m, const vpx::x_str<nt> &a, const vpx::x_ext<nt> &c, const vpx::x_pk<nt> &d, opaque_resource &mr, std::pmr::memory_resource &cache) {
  if (auto r = m.set_extension(a, alloc_from(mr), cache_alloc_from(cache)); !r.ok()) return (int)r.ec;
  if (auto r = m.set_extension(c, alloc_from(mr), cache_alloc_from(cache)); !r.ok()) return (int)r.ec;
  return (int)m.set_extension(d, alloc_from(mr), cache_alloc_from(cache)).ec;
}
VPROOT int vproot_arenaw_any(google::protobuf::Any<nt> &a, const vp::Tree<nt> &m, opaque_resource &mr, std::pmr::memory_resource &cache) { return (int)pack_any(a, m, alloc_from(mr), cache_alloc_from(cache)).ec; }
VPROOT int vproot_arena_any(const google::protobuf::Any<nt> &a, vp::Tree<nt> &m, opaque_resource &mr) { return (int)unpack_any(a, m, alloc_from(mr)).ec; }
