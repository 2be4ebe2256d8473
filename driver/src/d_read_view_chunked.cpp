#include "common.h"
using namespace hpp_proto;
VPROOT int vproot_readvc_all(vp::All<non_owning_traits> &m, const chunks_in &in, opaque_resource &mr) { return (int)read_binpb(m, in, alloc_from(mr)).ec; }
VPROOT int vproot_arenac_tree(vp::Tree<keep_view> &m, const chunks_in &in, opaque_resource &mr, std::pmr::memory_resource &cache) { return (int)read_binpb(m, in, alloc_from(mr), cache_alloc_from(cache)).ec; }
VPROOT int vproot_arenac_all(vp::All<keep_view> &m, const chunks_in &in, opaque_resource &mr, std::pmr::memory_resource &cache) { return (int)read_binpb(m, in, alloc_from(mr), cache_alloc_from(cache)).ec; }
