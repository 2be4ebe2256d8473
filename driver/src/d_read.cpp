#include "common.h"
using namespace hpp_proto;
VPROOT int vproot_read_all(vp::All<> &m, bytes_in in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_read_all_keep(vp::All<keep> &m, bytes_in in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_read_all_padded(vp::All<> &m, bytes_in in) { return (int)read_binpb(m, in, padded_input).ec; }
VPROOT int vproot_read_tree(vp::Tree<> &m, bytes_in in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_read_tree_limit(vp::Tree<> &m, bytes_in in) { return (int)read_binpb(m, in, recursion_limit<7>).ec; }
