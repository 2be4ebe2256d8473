#include "common.h"
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
using namespace hpp_proto;
VPROOT int vproot_dyn_read(message_value_mref m, bytes_in in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_dyn_readc(message_value_mref m, const chunks_in &in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_dyn_write(message_value_cref m, std::vector<std::byte> &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_dyn_sink(message_value_cref m, opaque_sink &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_dyn_sink_chunked(message_value_cref m, opaque_sink &out) { return (int)write_binpb(m, out, chunked_mode).ec; }
VPROOT void vproot_dyn_clone(message_value_mref a, message_value_cref b) { a.clone_from(b); }
VPROOT bool vproot_dyn_get(const dynamic_message_factory &f, std::string_view n, std::pmr::monotonic_buffer_resource &mr) { return f.get_message(n, mr).has_value(); }
