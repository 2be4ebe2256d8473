// the gRPC adapter: client reactors, server reactors, byte buffer (de)serialization
#include "common.h"
#include <hpp_proto/grpc/client.hpp>
#include <hpp_proto/grpc/server.hpp>
using namespace hpp_proto;
namespace hg = hpp_proto::grpc;
namespace svc {
struct unary { constexpr static const char *method_name = "/S/u"; constexpr static bool client_streaming = false, server_streaming = false; constexpr static int rpc_type = 0; constexpr static auto ordinal = 0; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
struct cstream { constexpr static const char *method_name = "/S/c"; constexpr static bool client_streaming = true, server_streaming = false; constexpr static int rpc_type = 1; constexpr static auto ordinal = 1; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
struct sstream { constexpr static const char *method_name = "/S/s"; constexpr static bool client_streaming = false, server_streaming = true; constexpr static int rpc_type = 2; constexpr static auto ordinal = 2; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
struct bidi { constexpr static const char *method_name = "/S/b"; constexpr static bool client_streaming = true, server_streaming = true; constexpr static int rpc_type = 3; constexpr static auto ordinal = 3; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
using methods = std::tuple<unary, cstream, sstream, bidi>;
} // namespace svc
using stub_t = hg::Stub<svc::methods>;
using GS = ::grpc::Status;
using GB = ::grpc::ByteBuffer;
using CC = ::grpc::ClientContext;
using WO = ::grpc::WriteOptions;
using req_t = vp::Tree<default_traits>;
using rsp_t = vp::Leaf<default_traits>;
struct opaque_cb { opaque_cb(const opaque_cb &); opaque_cb(opaque_cb &&); ~opaque_cb(); void operator()(const GS &) const; };
// ---- byte buffers
VPROOT void vproot_gb_write(GS *r, const req_t &m, GB &b) { *r = hg::write_binpb(m, b); }
VPROOT void vproot_gb_write_contig(GS *r, const req_t &m, GB &b) { *r = hg::write_binpb(m, b, contiguous_mode); }
VPROOT void vproot_gb_read(GS *r, req_t &m, const GB &b) { *r = hg::read_binpb(m, b); }
using ctx_t = pb_context<>;
VPROOT void vproot_gb_traits_ser(GS *r, const with_pb_context<const req_t, ctx_t> &m, GB &b, bool &own) { *r = ::grpc::SerializationTraits<with_pb_context<const req_t, ctx_t>>::Serialize(m, &b, &own); }
VPROOT void vproot_gb_traits_des(GS *r, with_pb_context<req_t, ctx_t> &m, GB &b) { *r = ::grpc::SerializationTraits<with_pb_context<req_t, ctx_t>>::Deserialize(&b, &m); }
VPROOT void vproot_gb_token(GS *r, req_t &m, const hg::RequestToken<svc::unary> &t) { *r = t.get(m); }
// ---- client
template <class M> using CR = hg::ClientCallbackReactor<M>;
VPROOT void vproot_gcp_unary(CR<svc::unary> &r, stub_t &s, CC &c, const req_t &m) { r.prepare(s, c, m); }
VPROOT void vproot_gcp_sstream(CR<svc::sstream> &r, stub_t &s, CC &c, const req_t &m) { r.prepare(s, c, m); }
VPROOT void vproot_gcp_unary_opt(CR<svc::unary> &r, stub_t &s, CC &c, const req_t &m) { r.prepare(s, c, m, contiguous_mode); }
VPROOT void vproot_gcp_sstream_opt(CR<svc::sstream> &r, stub_t &s, CC &c, const req_t &m) { r.prepare(s, c, m, contiguous_mode); }
VPROOT void vproot_gcp_unary_async(stub_t &s, CC &c, const req_t &m, CR<svc::unary> *r) { s.async_call<svc::unary>(c, m, r); }
VPROOT void vproot_gcp_sstream_async(stub_t &s, CC &c, const req_t &m, CR<svc::sstream> *r) { s.async_call<svc::sstream>(c, m, r); }
VPROOT void vproot_gcq_cstream(CR<svc::cstream> &r, stub_t &s, CC &c) { r.prepare(s, c); }
VPROOT void vproot_gcq_bidi(CR<svc::bidi> &r, stub_t &s, CC &c) { r.prepare(s, c); }
VPROOT void vproot_gcq_cstream_async(stub_t &s, CC &c, CR<svc::cstream> *r) { s.async_call<svc::cstream>(c, r); }
VPROOT void vproot_gcu_callback(stub_t &s, CC &c, const req_t &m, rsp_t &o, opaque_cb &f) { s.async_call<svc::unary>(c, m, o, std::move(f)); }
VPROOT void vproot_gcw_cstream(GS *r, CR<svc::cstream> &x, req_t &m) { *r = x.write(m); }
VPROOT void vproot_gcw_cstream_wo(GS *r, CR<svc::cstream> &x, req_t &m, WO o) { *r = x.write(m, o); }
VPROOT void vproot_gcw_cstream_opt(GS *r, CR<svc::cstream> &x, req_t &m, WO o) { *r = x.write(m, o, contiguous_mode); }
VPROOT void vproot_gcw_last_cstream(GS *r, CR<svc::cstream> &x, req_t &m, WO o) { *r = x.write_last(m, o); }
VPROOT void vproot_gcw_bidi(GS *r, CR<svc::bidi> &x, req_t &m) { *r = x.write(m); }
VPROOT void vproot_gcw_bidi_opt(GS *r, CR<svc::bidi> &x, req_t &m) { *r = x.write(m, contiguous_mode); }
VPROOT void vproot_gcw_last_bidi(GS *r, CR<svc::bidi> &x, req_t &m, WO o) { *r = x.write_last(m, o, contiguous_mode); }
VPROOT void vproot_gcr_unary(GS *r, CR<svc::unary> &x, rsp_t &m) { *r = x.get_response(m); }
VPROOT void vproot_gcr_bidi(GS *r, CR<svc::bidi> &x, rsp_t &m) { *r = x.get_response(m); }
VPROOT void vproot_gcr_cstream(GS *r, CR<svc::cstream> &x, rsp_t &m) { *r = x.get_response(m); }
VPROOT void vproot_gcr_sstream_opt(GS *r, CR<svc::sstream> &x, rsp_t &m) { *r = x.get_response(m, recursion_limit<7>); }
VPROOT void vproot_gf_StartCall_u(CR<svc::unary> &x) { x.start_call(); }
VPROOT void vproot_gf_StartCall_b(CR<svc::bidi> &x) { x.start_call(); }
VPROOT void vproot_gf_StartRead_s(CR<svc::sstream> &x) { x.start_read(); }
VPROOT void vproot_gf_StartRead_b(CR<svc::bidi> &x) { x.start_read(); }
VPROOT void vproot_gf_StartWritesDone_c(CR<svc::cstream> &x) { x.write_done(); }
VPROOT void vproot_gf_StartWritesDone_b(CR<svc::bidi> &x) { x.write_done(); }
VPROOT void vproot_gf_AddMultipleHolds_b(CR<svc::bidi> &x) { x.add_hold(); }
VPROOT void vproot_gf_AddMultipleHolds_s(CR<svc::sstream> &x, int n) { x.add_multiple_holds(n); }
VPROOT void vproot_gf_RemoveHold_c(CR<svc::cstream> &x) { x.remove_hold(); }
VPROOT stub_t *vproot_gv_stub(void *at, const std::shared_ptr<::grpc::ChannelInterface> &c, const ::grpc::StubOptions &o) { return new (at) stub_t(c, o); }
// ---- server
template <class M> using SR = hg::ServerRPC<M>;
VPROOT void vproot_gsf_u_status(SR<svc::unary> &x, GS s) { x.finish(std::move(s)); }
VPROOT void vproot_gsf_u_reply_status(SR<svc::unary> &x, const rsp_t &m, GS s) { x.finish(m, std::move(s)); }
VPROOT void vproot_gsf_u_reply_status_opt(SR<svc::unary> &x, const rsp_t &m, GS s) { x.finish(m, std::move(s), contiguous_mode); }
VPROOT void vproot_gsf_u_reply(SR<svc::unary> &x, const rsp_t &m) { x.finish(m); }
VPROOT void vproot_gsf_u_reply_opt(SR<svc::unary> &x, const rsp_t &m) { x.finish(m, contiguous_mode); }
VPROOT void vproot_gsf_u_buf_status(SR<svc::unary> &x, const GB &b, GS s) { x.finish(b, std::move(s)); }
VPROOT void vproot_gsf_c_status(SR<svc::cstream> &x, GS s) { x.finish(std::move(s)); }
VPROOT void vproot_gsf_c_reply(SR<svc::cstream> &x, const rsp_t &m) { x.finish(m); }
VPROOT void vproot_gsf_c_reply_opt(SR<svc::cstream> &x, const rsp_t &m) { x.finish(m, contiguous_mode); }
VPROOT void vproot_gsf_c_buf_status(SR<svc::cstream> &x, const GB &b, GS s) { x.finish(b, std::move(s)); }
VPROOT void vproot_gf_StartRead_sc(SR<svc::cstream> &x) { x.start_read(); }
VPROOT void vproot_gsf_s_status(SR<svc::sstream> &x, GS s) { x.finish(std::move(s)); }
VPROOT void vproot_gsw_s(SR<svc::sstream> &x, const rsp_t &m, WO o) { x.write(m, o); }
VPROOT void vproot_gsw_s_plain(SR<svc::sstream> &x, const rsp_t &m) { x.write(m); }
VPROOT void vproot_gsw_s_opt(SR<svc::sstream> &x, const rsp_t &m, WO o) { x.write(m, o, contiguous_mode); }
VPROOT void vproot_gsw_s_buf(SR<svc::sstream> &x, const GB &b) { x.write(b); }
VPROOT void vproot_gsf_s_all_status(SR<svc::sstream> &x, const rsp_t &m, WO o, GS s) { x.finish(m, o, std::move(s)); }
VPROOT void vproot_gsf_s_all_status_opt(SR<svc::sstream> &x, const rsp_t &m, WO o, GS s) { x.finish(m, o, std::move(s), contiguous_mode); }
VPROOT void vproot_gsf_s_reply(SR<svc::sstream> &x, const rsp_t &m) { x.finish(m); }
VPROOT void vproot_gsf_s_reply_wo_opt(SR<svc::sstream> &x, const rsp_t &m, WO o) { x.finish(m, o, contiguous_mode); }
VPROOT void vproot_gsf_s_buf_status(SR<svc::sstream> &x, const GB &b, WO o, GS s) { x.finish(b, o, std::move(s)); }
VPROOT void vproot_gsf_b_status(SR<svc::bidi> &x, GS s) { x.finish(std::move(s)); }
VPROOT void vproot_gsw_b(SR<svc::bidi> &x, const rsp_t &m, WO o) { x.write(m, o); }
VPROOT void vproot_gsw_b_plain(SR<svc::bidi> &x, const rsp_t &m) { x.write(m); }
VPROOT void vproot_gsw_b_opt(SR<svc::bidi> &x, const rsp_t &m) { x.write(m, contiguous_mode); }
VPROOT void vproot_gsw_b_buf(SR<svc::bidi> &x, const GB &b) { x.write(b); }
VPROOT void vproot_gsf_b_all_status(SR<svc::bidi> &x, const rsp_t &m, WO o, GS s) { x.finish(m, o, std::move(s)); }
VPROOT void vproot_gsf_b_all_status_opt(SR<svc::bidi> &x, const rsp_t &m, WO o, GS s) { x.finish(m, o, std::move(s), contiguous_mode); }
VPROOT void vproot_gsf_b_reply(SR<svc::bidi> &x, const rsp_t &m) { x.finish(m); }
VPROOT void vproot_gsf_b_reply_wo(SR<svc::bidi> &x, const rsp_t &m, WO o) { x.finish(m, o); }
VPROOT void vproot_gsf_b_buf_status(SR<svc::bidi> &x, const GB &b, WO o, GS s) { x.finish(b, o, std::move(s)); }
VPROOT void vproot_gf_StartRead_sb(SR<svc::bidi> &x) { x.start_read(); }
// handlers about which nothing is known: one with every optional callback, one with none
struct Service;
struct ServiceB;
template <class M> struct full {
  full(Service &, SR<M> &, hg::RequestToken<M>);
  full(Service &, SR<M> &);
  ~full();
  void on_read_ok(SR<M> &, hg::RequestToken<M>);
  bool on_read_eof(SR<M> &);
  bool on_read_cancel(SR<M> &);
  void on_write_ok(SR<M> &);
  bool on_write_error(SR<M> &);
  void on_done();
  void on_cancel();
  void on_send_initial_metadata_done(bool);
};
template <class M> struct bare {
  bare(ServiceB &, SR<M> &, hg::RequestToken<M>);
  bare(ServiceB &, SR<M> &);
  ~bare();
  void on_read_ok(SR<M> &, hg::RequestToken<M>);
  void on_write_ok(SR<M> &);
};
struct Service : hg::CallbackService<Service, svc::methods> {
  full<svc::unary> handle(svc::unary); full<svc::cstream> handle(svc::cstream); full<svc::sstream> handle(svc::sstream); full<svc::bidi> handle(svc::bidi);
};
struct ServiceB : hg::CallbackService<ServiceB, svc::methods> {
  bare<svc::unary> handle(svc::unary); bare<svc::cstream> handle(svc::cstream); bare<svc::sstream> handle(svc::sstream); bare<svc::bidi> handle(svc::bidi);
};
VPROOT Service *vproot_gv_service() { return new Service; }
VPROOT ServiceB *vproot_gv_service_bare() { return new ServiceB; }
