#include "common.h"
using namespace hpp_proto;
VPROOT int vproot_write_all(const vp::All<> &m, std::vector<std::byte> &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_write_all_cache(const vp::All<> &m, std::vector<std::byte> &out, std::pmr::memory_resource &mr) { return (int)write_binpb(m, out, cache_alloc_from(mr)).ec; }
VPROOT int vproot_append_all(const vp::All<keep> &m, std::vector<std::byte> &out) { return (int)append_binpb(m, out).ec; }
VPROOT int vproot_write_tree(const vp::Tree<> &m, std::vector<std::byte> &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_write_tree_view(const vp::Tree<non_owning_traits> &m, std::span<std::byte> &out, opaque_resource &mr) { return (int)write_binpb(m, out, alloc_from(mr)).ec; }
