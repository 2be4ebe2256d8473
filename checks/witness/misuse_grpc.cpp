// calls of the gRPC adapter that do not fit the method must not compile
#include "vp.pb.hpp"
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/grpc/client.hpp>
#include <hpp_proto/grpc/server.hpp>
#include <memory_resource>
using namespace hpp_proto;
namespace hg = hpp_proto::grpc;
namespace svc {
struct unary { constexpr static const char *method_name = "/S/u"; constexpr static bool client_streaming = false, server_streaming = false; constexpr static int rpc_type = 0; constexpr static auto ordinal = 0; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
struct cstream { constexpr static const char *method_name = "/S/c"; constexpr static bool client_streaming = true, server_streaming = false; constexpr static int rpc_type = 1; constexpr static auto ordinal = 1; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
struct sstream { constexpr static const char *method_name = "/S/s"; constexpr static bool client_streaming = false, server_streaming = true; constexpr static int rpc_type = 2; constexpr static auto ordinal = 2; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
struct bidi { constexpr static const char *method_name = "/S/b"; constexpr static bool client_streaming = true, server_streaming = true; constexpr static int rpc_type = 3; constexpr static auto ordinal = 3; template <typename T> using request_t = vp::Tree<T>; template <typename T> using response_t = vp::Leaf<T>; };
using methods = std::tuple<unary, cstream, sstream, bidi>;
struct foreign : unary { constexpr static const char *method_name = "/T/u"; };
} // namespace svc
using stub_t = hg::Stub<svc::methods>;
using CC = ::grpc::ClientContext;
using WO = ::grpc::WriteOptions;
using req = vp::Tree<default_traits>;
using rsp = vp::Leaf<default_traits>;
struct cb { void operator()(const ::grpc::Status &) const; };
#define NEVER(e, what) static_assert(!(e), "[R-accept] " what)
template <class M, class Q, class P> concept calls = requires(stub_t &s, CC &c, Q &q, P &p) { s.call<M>(c, q, p); };
template <class M, class Q, class P> concept calls_cb = requires(stub_t &s, CC &c, Q &q, P &p, cb f) { s.async_call<M>(c, q, p, f); };
template <class M, class Q> concept starts_req = requires(stub_t &s, CC &c, Q &q, hg::ClientCallbackReactor<M> *r) { s.async_call<M>(c, q, r); };
template <class M> concept starts = requires(stub_t &s, CC &c, hg::ClientCallbackReactor<M> *r) { s.async_call<M>(c, r); };
static_assert(calls<svc::unary, const req, rsp> && calls_cb<svc::unary, const req, rsp> && starts_req<svc::unary, const req> && starts_req<svc::sstream, const req> && starts<svc::cstream> && starts<svc::bidi>, "the probes fit the API");
NEVER((calls<svc::cstream, const req, rsp>) || (calls<svc::sstream, const req, rsp>) || (calls<svc::bidi, const req, rsp>), "a streaming method can be called as a unary one");
NEVER((calls_cb<svc::cstream, const req, rsp>) || (calls_cb<svc::sstream, const req, rsp>) || (calls_cb<svc::bidi, const req, rsp>), "a streaming method can be called as a unary one");
NEVER((calls<svc::unary, const rsp, req>) || (calls<svc::unary, const rsp, rsp>) || (calls<svc::unary, const req, req>), "a method can be called with the message of another one");
NEVER((calls_cb<svc::unary, const rsp, req>) || (calls_cb<svc::unary, const rsp, rsp>) || (calls_cb<svc::unary, const req, req>), "a method can be called with the message of another one");
NEVER((calls<svc::unary, const req, std::string>) || (calls<svc::unary, const int, rsp>), "a method can be called with something that is not a message");
NEVER((starts_req<svc::cstream, const req>) || (starts_req<svc::bidi, const req>), "a method whose requests are a stream can be started with one request");
NEVER((starts<svc::unary>) || (starts<svc::sstream>), "a method with one request can be started without it");
template <class R> concept does_write = requires(R &r, req &q) { r.write(q); };
template <class R> concept does_write_wo = requires(R &r, req &q, WO o) { r.write(q, o); };
template <class R> concept does_last = requires(R &r, req &q, WO o) { r.write_last(q, o); };
template <class R> concept does_done = requires(R &r) { r.write_done(); };
template <class R> concept does_read = requires(R &r) { r.start_read(); };
template <class R, class Q> concept does_write_of = requires(R &r, Q &q) { r.write(q); };
template <class R, class P> concept does_get = requires(R &r, P &p) { r.get_response(p); };
template <class M> using CR = hg::ClientCallbackReactor<M>;
static_assert(does_write<CR<svc::cstream>> && does_write_wo<CR<svc::bidi>> && does_last<CR<svc::bidi>> && does_done<CR<svc::cstream>> && does_read<CR<svc::sstream>> && does_get<CR<svc::unary>, rsp>, "the probes fit the API");
NEVER((does_write<CR<svc::unary>>) || (does_write<CR<svc::sstream>>) || (does_write_wo<CR<svc::unary>>) || (does_write_wo<CR<svc::sstream>>) || (does_last<CR<svc::unary>>) || (does_last<CR<svc::sstream>>), "a client whose method takes one request can write a stream");
NEVER((does_done<CR<svc::unary>>) || (does_done<CR<svc::sstream>>), "a client whose method takes one request can end a stream of requests");
NEVER((does_read<CR<svc::unary>>) || (does_read<CR<svc::cstream>>), "a client whose method gives one response can read a stream");
NEVER((does_write_of<CR<svc::cstream>, rsp>) || (does_write_of<CR<svc::bidi>, rsp>) || (does_write_of<CR<svc::bidi>, std::string>), "a client can write a message of another type");
NEVER((does_get<CR<svc::unary>, req>) || (does_get<CR<svc::bidi>, req>) || (does_get<CR<svc::unary>, std::string>), "a response can be read as a message of another type");
// server
template <class M> using SR = hg::ServerRPC<M>;
template <class R, class P> concept s_write = requires(R &r, P &p) { r.write(p); };
template <class R, class P> concept s_finish = requires(R &r, P &p) { r.finish(p); };
template <class R, class P> concept s_finish_wo = requires(R &r, P &p, WO o) { r.finish(p, o); };
template <class R> concept s_read = requires(R &r) { r.start_read(); };
static_assert(s_finish<SR<svc::unary>, rsp> && s_finish<SR<svc::cstream>, rsp> && s_write<SR<svc::sstream>, rsp> && s_write<SR<svc::bidi>, rsp> && s_finish<SR<svc::bidi>, rsp>, "the probes fit the API");
NEVER((s_write<SR<svc::unary>, rsp>) || (s_write<SR<svc::cstream>, rsp>), "a server whose method gives one response can write a stream");
NEVER((s_read<SR<svc::unary>>) || (s_read<SR<svc::sstream>>), "a server whose method takes one request can read a stream");
NEVER((s_finish<SR<svc::unary>, req>) || (s_finish<SR<svc::cstream>, req>) || (s_write<SR<svc::sstream>, req>) || (s_write<SR<svc::bidi>, req>) || (s_finish<SR<svc::bidi>, req>) || (s_finish<SR<svc::unary>, std::string>), "a server can answer with a message of another type");
template <class T, class Q> concept t_get = requires(const T &t, Q &q) { t.get(q); };
static_assert(t_get<hg::RequestToken<svc::unary>, req>, "the probes fit the API");
NEVER((t_get<hg::RequestToken<svc::unary>, rsp>) || (t_get<hg::RequestToken<svc::unary>, std::string>) || (t_get<hg::RequestToken<svc::unary>, const req>), "a request can be read as a message of another type");
NEVER((std::is_copy_constructible_v<stub_t>) || (std::is_move_constructible_v<stub_t>) || (std::is_copy_assignable_v<stub_t>) || (std::is_move_assignable_v<stub_t>), "a stub can be copied or moved away from the methods its calls refer to");
template <class B> concept gb_write = requires(B b, const req &m) { hg::write_binpb(m, b); };
static_assert(gb_write<::grpc::ByteBuffer &>, "the probes fit the API");
NEVER((gb_write<const ::grpc::ByteBuffer &>), "a message can be encoded into a const byte buffer");
