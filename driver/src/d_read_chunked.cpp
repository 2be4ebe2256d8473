#include "common.h"
using namespace hpp_proto;
VPROOT int vproot_readc_all(vp::All<> &m, const chunks_in &in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_readc_all_keep(vp::All<keep> &m, const chunks_in &in) { return (int)read_binpb(m, in).ec; }
