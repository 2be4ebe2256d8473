// indirect and optional_indirect over an opaque element type and opaque allocators
#include <hpp_proto/indirect.hpp>
#include <hpp_proto/optional_indirect.hpp>
#include <new>
namespace vpo {
struct Arg {
  Arg();
};
struct T {
  T();
  explicit T(Arg &);
  T(const T &);
  T(T &&);
  T &operator=(const T &);
  T &operator=(T &&);
  ~T() noexcept;
  bool operator==(const T &) const;
  unsigned char payload;
};
// every instance is interchangeable
template <class U>
struct Same {
  using value_type = U;
  Same() noexcept = default;
  template <class V>
  Same(const Same<V> &) noexcept {}
  U *allocate(std::size_t);
  void deallocate(U *, std::size_t) noexcept;
  bool operator==(const Same &) const noexcept = default;
};
// instances are told apart by an identity
template <class U, bool PC, bool PM, bool PS>
struct Tag {
  using value_type = U;
  using is_always_equal = std::false_type;
  using propagate_on_container_copy_assignment = std::bool_constant<PC>;
  using propagate_on_container_move_assignment = std::bool_constant<PM>;
  using propagate_on_container_swap = std::bool_constant<PS>;
  template <class V>
  struct rebind {
    using other = Tag<V, PC, PM, PS>;
  };
  unsigned long id = 0;
  Tag() noexcept = default;
  template <class V>
  Tag(const Tag<V, PC, PM, PS> &o) noexcept : id(o.id) {}
  U *allocate(std::size_t);
  void deallocate(U *, std::size_t) noexcept;
  bool operator==(const Tag &) const noexcept;
};
} // namespace vpo

// the first parameter is the holder the operation is applied to (or the memory it is made in)
template <class H>
struct own_roots {
  using A = typename H::allocator_type;
  using T = vpo::T;
  static void copy_ctor(void *raw, const H &other) { ::new (raw) H(other); }
  static void move_ctor(void *raw, H &other) { ::new (raw) H(std::move(other)); }
  static void copy_ctor_alloc(void *raw, const H &other, const A &alloc) { ::new (raw) H(std::allocator_arg, alloc, other); }
  static void move_ctor_alloc(void *raw, H &other, const A &alloc) { ::new (raw) H(std::allocator_arg, alloc, std::move(other)); }
  static void default_ctor(void *raw) { ::new (raw) H(); }
  static void default_ctor_alloc(void *raw, const A &alloc) { ::new (raw) H(std::allocator_arg, alloc); }
  static void value_ctor(void *raw, const T &value) { ::new (raw) H(value); }
  static void value_move_ctor(void *raw, T &value) { ::new (raw) H(std::move(value)); }
  static void value_move_ctor_alloc(void *raw, T &value, const A &alloc) { ::new (raw) H(std::allocator_arg, alloc, std::move(value)); }
  static void inplace_ctor(void *raw, vpo::Arg &arg) { ::new (raw) H(std::in_place, arg); }
  static void inplace_ctor_alloc(void *raw, vpo::Arg &arg, const A &alloc) { ::new (raw) H(std::allocator_arg, alloc, std::in_place, arg); }
  static void dtor(H &self) { self.~H(); }
  static void copy_assign(H &self, const H &other) { self = other; }
  static void move_assign(H &self, H &other) { self = std::move(other); }
  static void value_move_assign(H &self, T &value) { self = std::move(value); }
  static void value_assign(H &self, const T &value) requires requires { self.operator=(value); } { self = value; }
  static void swap(H &self, H &other) { self.swap(other); }
  static void emplace(H &self, vpo::Arg &arg) requires requires { self.emplace(arg); } { self.emplace(arg); }
  static void emplace_copy(H &self, const T &value) requires requires { self.emplace(value); } { self.emplace(value); }
  static void reset(H &self) requires requires { self.reset(); } { self.reset(); }
  static void equal(const H &self, const H &other) { (void)(self == other); }
};
#define VP_OWN(A) \
  template struct own_roots<hpp_proto::indirect<vpo::T, A>>; \
  template struct own_roots<hpp_proto::optional_indirect<vpo::T, A>>;
using vpo_same = vpo::Same<vpo::T>;
using vpo_ttt = vpo::Tag<vpo::T, true, true, true>;
using vpo_fff = vpo::Tag<vpo::T, false, false, false>;
using vpo_tff = vpo::Tag<vpo::T, true, false, false>;
using vpo_ftf = vpo::Tag<vpo::T, false, true, false>;
using vpo_fft = vpo::Tag<vpo::T, false, false, true>;
VP_OWN(vpo_same)
VP_OWN(vpo_ttt)
VP_OWN(vpo_fff)
VP_OWN(vpo_tff)
VP_OWN(vpo_ftf)
VP_OWN(vpo_fft)
