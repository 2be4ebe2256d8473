#include "common.h"
using namespace hpp_proto;
VPROOT int vproot_arena_all(vp::All<non_owning_traits> &m, bytes_in in, std::pmr::monotonic_buffer_resource &mr) { return (int)read_binpb(m, in, alloc_from(mr)).ec; }
VPROOT int vproot_arena_all_keep(vp::All<keep_view> &m, bytes_in in, opaque_resource &mr) { return (int)read_binpb(m, in, alloc_from(mr)).ec; }
VPROOT int vproot_arena_all_padded(vp::All<non_owning_traits> &m, bytes_in in, opaque_resource &mr) { return (int)read_binpb(m, in, alloc_from(mr), padded_input).ec; }
VPROOT int vproot_arena_tree(vp::Tree<non_owning_traits> &m, bytes_in in, opaque_resource &mr) { return (int)read_binpb(m, in, alloc_from(mr)).ec; }
