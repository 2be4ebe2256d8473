#include "common.h"
using namespace hpp_proto;
VPROOT int vproot_sink_all(const vp::All<> &m, opaque_sink &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_sink_all_contig(const vp::All<keep> &m, opaque_sink &out) { return (int)write_binpb(m, out, contiguous_mode).ec; }
VPROOT int vproot_sink_all_chunked(const vp::All<> &m, opaque_sink &out) { return (int)write_binpb(m, out, chunked_mode).ec; }
VPROOT int vproot_sink_tree_chunked(const vp::Tree<> &m, opaque_sink &out) { return (int)write_binpb(m, out, chunked_mode).ec; }
