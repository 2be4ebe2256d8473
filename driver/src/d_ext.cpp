#include "common.h"
#include "vpx.pb.hpp"
#include "google/protobuf/any.pb.hpp"
using namespace hpp_proto;
using nt = non_owning_traits;
// messages with extensions, and Any
VPROOT int vproot_read_ext(vpx::Ext<> &m, bytes_in in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_readc_ext(vpx::Ext<> &m, const chunks_in &in) { return (int)read_binpb(m, in).ec; }
VPROOT int vproot_write_ext(const vpx::Ext<> &m, std::vector<std::byte> &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_sink_ext(const vpx::Ext<> &m, opaque_sink &out) { return (int)write_binpb(m, out).ec; }
VPROOT int vproot_read_ext_get(const vpx::Ext<> &m, vpx::x_str<> &a, vpx::x_msg<> &b, vpx::x_ext<> &c, vpx::x_pk<> &d) {
  if (!m.has_extension(a)) return 1;
  if (auto r = m.get_extension(a); !r.ok()) return (int)r.ec;
  if (auto r = m.get_extension(b); !r.ok()) return (int)r.ec;
  if (auto r = m.get_extension(c); !r.ok()) return (int)r.ec;
  return (int)m.get_extension(d).ec;
}
VPROOT int vproot_write_ext_set(vpx::Ext<> &m, const vpx::x_str<> &a, const vpx::x_msg<> &b, const vpx::x_ext<> &c, const vpx::x_pk<> &d) {
  if (auto r = m.set_extension(a); !r.ok()) return (int)r.ec;
  if (auto r = m.set_extension(b); !r.ok()) return (int)r.ec;
  if (auto r = m.set_extension(c); !r.ok()) return (int)r.ec;
  return (int)m.set_extension(d).ec;
}
VPROOT int vproot_write_any(google::protobuf::Any<> &a, const vp::Tree<> &m) { return (int)pack_any(a, m).ec; }
VPROOT int vproot_read_any(const google::protobuf::Any<> &a, vp::Tree<> &m) { return (int)unpack_any(a, m).ec; }
VPROOT bool vproot_read_any_ret(const google::protobuf::Any<> &a) { return unpack_any<vp::Tree<>>(a).has_value(); }
VPROOT bool vproot_read_ret(bytes_in in) { return read_binpb<vp::All<>>(in).has_value(); }
VPROOT bool vproot_write_ret(const vp::All<> &m) { return write_binpb(m).has_value(); }
