#include "common.h"
using namespace hpp_proto;
// encoding with an explicit cache resource into storage the library does not own
VPROOT int vproot_arenaw_span(const vp::All<non_owning_traits> &m, std::span<std::byte> &out, opaque_resource &mr, std::pmr::memory_resource &cache) { return (int)write_binpb(m, out, alloc_from(mr), cache_alloc_from(cache)).ec; }
VPROOT int vproot_arenaw_tree_span(const vp::Tree<non_owning_traits> &m, std::span<std::byte> &out, opaque_resource &mr, std::pmr::memory_resource &cache) { return (int)write_binpb(m, out, alloc_from(mr), cache_alloc_from(cache)).ec; }
VPROOT int vproot_arenaw_sink(const vp::Tree<non_owning_traits> &m, opaque_sink &out, std::pmr::memory_resource &cache) { return (int)write_binpb(m, out, cache_alloc_from(cache)).ec; }
VPROOT int vproot_arenaw_sink_chunked(const vp::All<keep_view> &m, opaque_sink &out, std::pmr::memory_resource &cache) { return (int)write_binpb(m, out, chunked_mode, cache_alloc_from(cache)).ec; }
