// flat_map over opaque keys, values, comparison and containers; the searching algorithms of the standard library are
// replaced by their specification
#include <bits/stdc++.h>
namespace vpm {
// any of 0 .. n
long pick(long n) noexcept;
[[noreturn]] void never() noexcept;
} // namespace vpm
namespace std {
template <class It, class P>
It vp_partition_point(It f, It l, P pred) {
  It p = f + vpm::pick(l - f);
  if (p != f && !pred(*(p - 1))) vpm::never();
  if (p != l && pred(*p)) vpm::never();
  return p;
}
template <class It, class T, class C>
It vp_lower_bound(It f, It l, const T &v, C comp) {
  It p = f + vpm::pick(l - f);
  if (p != f && !comp(*(p - 1), v)) vpm::never();
  if (p != l && comp(*p, v)) vpm::never();
  return p;
}
template <class It, class T, class C>
It vp_upper_bound(It f, It l, const T &v, C comp) {
  It p = f + vpm::pick(l - f);
  if (p != f && comp(v, *(p - 1))) vpm::never();
  if (p != l && !comp(v, *p)) vpm::never();
  return p;
}
template <class It, class T, class C>
std::pair<It, It> vp_equal_range(It f, It l, const T &v, C comp) {
  It p = std::vp_lower_bound(f, l, v, comp);
  return {p, std::vp_upper_bound(p, l, v, comp)};
}
template <class It, class T, class C>
bool vp_binary_search(It f, It l, const T &v, C comp) {
  It p = std::vp_lower_bound(f, l, v, comp);
  return p != l && !comp(v, *p);
}
} // namespace std
namespace std::ranges {
template <class It, class P>
  requires std::random_access_iterator<It>
It vp_partition_point(It f, It l, P pred) { return std::vp_partition_point(f, l, pred); }
template <class R, class P>
  requires std::ranges::range<R>
auto vp_partition_point(R &&r, P pred) { return std::vp_partition_point(std::ranges::begin(r), std::ranges::end(r), pred); }
template <class It, class T, class C = std::ranges::less, class J = std::identity>
  requires std::random_access_iterator<It>
It vp_lower_bound(It f, It l, const T &v, C comp = {}, J proj = {}) {
  return std::vp_lower_bound(f, l, v, [&](const auto &e, const auto &x) -> bool { return std::invoke(comp, std::invoke(proj, e), x); });
}
template <class R, class T, class C = std::ranges::less, class J = std::identity>
  requires std::ranges::range<R>
auto vp_lower_bound(R &&r, const T &v, C comp = {}, J proj = {}) { return vp_lower_bound(std::ranges::begin(r), std::ranges::end(r), v, comp, proj); }
template <class It, class T, class C = std::ranges::less, class J = std::identity>
  requires std::random_access_iterator<It>
It vp_upper_bound(It f, It l, const T &v, C comp = {}, J proj = {}) {
  return std::vp_upper_bound(f, l, v, [&](const auto &x, const auto &e) -> bool { return std::invoke(comp, x, std::invoke(proj, e)); });
}
template <class R, class T, class C = std::ranges::less, class J = std::identity>
  requires std::ranges::range<R>
auto vp_upper_bound(R &&r, const T &v, C comp = {}, J proj = {}) { return vp_upper_bound(std::ranges::begin(r), std::ranges::end(r), v, comp, proj); }
template <class R, class T, class C = std::ranges::less>
  requires std::ranges::range<R>
auto vp_equal_range(R &&r, const T &v, C comp = {}) {
  auto p = vp_lower_bound(r, v, comp);
  return std::ranges::subrange(p, vp_upper_bound(p, std::ranges::end(r), v, comp));
}
} // namespace std::ranges
#define partition_point vp_partition_point
#define lower_bound vp_lower_bound
#define upper_bound vp_upper_bound
#define equal_range vp_equal_range
#define binary_search vp_binary_search
#include <hpp_proto/flat_map.hpp>

namespace vpm {
struct Arg {};
struct X {
  unsigned char payload;
};
struct Key {
  Key();
  Key(const Key &);
  Key(Key &&);
  Key &operator=(const Key &);
  Key &operator=(Key &&);
  ~Key() noexcept;
  unsigned char payload;
};
struct Mapped {
  Mapped();
  explicit Mapped(Arg &);
  Mapped(const Mapped &);
  Mapped(Mapped &&);
  Mapped &operator=(const Mapped &);
  Mapped &operator=(Mapped &&);
  ~Mapped() noexcept;
  unsigned char payload;
};
struct Less {
  bool operator()(const Key &, const Key &) const;
};
struct TLess {
  using is_transparent = void;
  bool operator()(const Key &, const Key &) const;
  bool operator()(const Key &, const X &) const;
  bool operator()(const X &, const Key &) const;
};
template <class U>
struct Alloc {
  using value_type = U;
  Alloc() noexcept = default;
  template <class V>
  Alloc(const Alloc<V> &) noexcept {}
  U *allocate(std::size_t);
  void deallocate(U *, std::size_t) noexcept;
  bool operator==(const Alloc &) const noexcept;
};
template <class U>
struct Seq {
  using value_type = U;
  using reference = U &;
  using const_reference = const U &;
  using pointer = U *;
  using const_pointer = const U *;
  using iterator = U *;
  using const_iterator = const U *;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using allocator_type = Alloc<U>;
  Seq() noexcept;
  explicit Seq(const allocator_type &) noexcept;
  Seq(const Seq &);
  Seq(Seq &&) noexcept;
  Seq(const Seq &, const allocator_type &);
  Seq(Seq &&, const allocator_type &);
  ~Seq() noexcept;
  Seq &operator=(const Seq &);
  Seq &operator=(Seq &&);
  iterator begin() noexcept;
  iterator end() noexcept;
  const_iterator begin() const noexcept;
  const_iterator end() const noexcept;
  const_iterator cbegin() const noexcept;
  const_iterator cend() const noexcept;
  iterator data() noexcept;
  const_iterator data() const noexcept;
  reference operator[](size_type) noexcept;
  const_reference operator[](size_type) const noexcept;
  bool empty() const noexcept;
  size_type size() const noexcept;
  size_type max_size() const noexcept;
  size_type capacity() const noexcept;
  reference at(size_type);
  const_reference at(size_type) const;
  reference front() noexcept;
  const_reference front() const noexcept;
  reference back() noexcept;
  const_reference back() const noexcept;
  reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
  reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
  template <class It>
  iterator insert(const_iterator, It, It);
  iterator insert(const_iterator, size_type, const U &);
  template <class It>
  void assign(It, It);
  void resize(size_type);
  void resize(size_type, const U &);
  void reserve(size_type);
  void shrink_to_fit();
  void clear() noexcept;
  iterator insert(const_iterator, const U &);
  iterator insert(const_iterator, U &&);
  template <class... A>
  iterator emplace(const_iterator, A &&...);
  void push_back(const U &);
  void push_back(U &&);
  template <class... A>
  reference emplace_back(A &&...);
  void pop_back();
  iterator erase(const_iterator);
  iterator erase(const_iterator, const_iterator);
  void swap(Seq &) noexcept;
  allocator_type get_allocator() const noexcept;
  friend void swap(Seq &a, Seq &b) noexcept { a.swap(b); }
  std::size_t words[3];
};
using Keys = Seq<Key>;
using Values = Seq<Mapped>;
using Map = stdext::flat_map<Key, Mapped, Less, Keys, Values>;
using TMap = stdext::flat_map<Key, Mapped, TLess, Keys, Values>;
using In = std::pair<const Key, Mapped>;
// where an operation says an element is
void at_pair(const Key *, const Mapped *) noexcept;
void at_second(const Key *, const Mapped *) noexcept; // the end of a range
void at_value(const Mapped *) noexcept;
void said(bool) noexcept;
void count_is(std::size_t) noexcept;
// a position in the map
long index() noexcept;
long index2() noexcept;
} // namespace vpm
using namespace vpm;
namespace {
template <class It>
void here(It it) { at_pair(it.private_impl_getkey(), it.private_impl_getmapped()); }
template <class It>
void until(It it) { at_second(it.private_impl_getkey(), it.private_impl_getmapped()); }
template <class P>
void outcome(P p) {
  said(p.second);
  here(p.first);
}
} // namespace

// the map operated on comes first
template <int>
struct map_roots {
  static void emplace(Map &m, Key &k, Mapped &v) { outcome(m.emplace(std::move(k), std::move(v))); }
  static void emplace_copy(Map &m, const Key &k, const Mapped &v) { outcome(m.emplace(k, v)); }
  static void insert(Map &m, const In &x) { outcome(m.insert(x)); }
  static void insert_move(Map &m, In &x) { outcome(m.insert(std::move(x))); }
  static void insert_hint(Map &m, const In &x) { here(m.insert(m.cbegin() + index(), x)); }
  static void try_emplace(Map &m, const Key &k, Arg &a) { outcome(m.try_emplace(k, a)); }
  static void try_emplace_move(Map &m, Key &k, Arg &a) { outcome(m.try_emplace(std::move(k), a)); }
  static void try_emplace_hint(Map &m, const Key &k, Arg &a) { here(m.try_emplace(m.cbegin() + index(), k, a)); }
  static void try_emplace_hint_move(Map &m, Key &k, Arg &a) { here(m.try_emplace(m.cbegin() + index(), std::move(k), a)); }
  static void insert_or_assign(Map &m, const Key &k, Mapped &v) { outcome(m.insert_or_assign(k, std::move(v))); }
  static void insert_or_assign_copy(Map &m, const Key &k, const Mapped &v) { outcome(m.insert_or_assign(k, v)); }
  static void insert_or_assign_move(Map &m, Key &k, Mapped &v) { outcome(m.insert_or_assign(std::move(k), std::move(v))); }
  static void insert_or_assign_hint(Map &m, const Key &k, Mapped &v) { here(m.insert_or_assign(m.cbegin() + index(), k, std::move(v))); }
  static void insert_or_assign_hint_move(Map &m, Key &k, Mapped &v) { here(m.insert_or_assign(m.cbegin() + index(), std::move(k), std::move(v))); }
  static void subscript(Map &m, const Key &k) { at_value(&m[k]); }
  static void subscript_move(Map &m, Key &k) { at_value(&m[std::move(k)]); }
  static void at(Map &m, const Key &k) { at_value(&m.at(k)); }
  static void at_const(const Map &m, const Key &k) { at_value(&m.at(k)); }
  static void erase_it(Map &m) { here(m.erase(m.begin() + index())); }
  static void erase_const_it(Map &m) { here(m.erase(m.cbegin() + index())); }
  static void erase_range(Map &m) { here(m.erase(m.cbegin() + index(), m.cbegin() + index2())); }
  static void erase_key(Map &m, const Key &k) { count_is(m.erase(k)); }
  static void clear(Map &m) { m.clear(); }
  static void find(Map &m, const Key &k) { here(m.find(k)); }
  static void find_const(const Map &m, const Key &k) { here(m.find(k)); }
  static void find_other(TMap &m, const X &k) { here(m.find(k)); }
  static void find_other_const(const TMap &m, const X &k) { here(m.find(k)); }
  static void contains(const Map &m, const Key &k) { said(m.contains(k)); }
  static void contains_other(const TMap &m, const X &k) { said(m.contains(k)); }
  static void count(const Map &m, const Key &k) { count_is(m.count(k)); }
  static void count_other(const TMap &m, const X &k) { count_is(m.count(k)); }
  static void lower(Map &m, const Key &k) { here(m.lower_bound(k)); }
  static void lower_const(const Map &m, const Key &k) { here(m.lower_bound(k)); }
  static void lower_other(TMap &m, const X &k) { here(m.lower_bound(k)); }
  static void lower_other_const(const TMap &m, const X &k) { here(m.lower_bound(k)); }
  static void upper(Map &m, const Key &k) { here(m.upper_bound(k)); }
  static void upper_const(const Map &m, const Key &k) { here(m.upper_bound(k)); }
  static void upper_other(TMap &m, const X &k) { here(m.upper_bound(k)); }
  static void upper_other_const(const TMap &m, const X &k) { here(m.upper_bound(k)); }
  template <class P>
  static void both(P p) { here(p.first), until(p.second); }
  static void range(Map &m, const Key &k) { both(m.equal_range(k)); }
  static void range_const(const Map &m, const Key &k) { both(m.equal_range(k)); }
  static void range_other(TMap &m, const X &k) { both(m.equal_range(k)); }
  static void range_other_const(const TMap &m, const X &k) { both(m.equal_range(k)); }
  static void begin(Map &m) { here(m.begin()); }
  static void end(Map &m) { here(m.end()); }
  static void begin_const(const Map &m) { here(m.begin()); }
  static void end_const(const Map &m) { here(m.end()); }
  static void cbegin(const Map &m) { here(m.cbegin()); }
  static void cend(const Map &m) { here(m.cend()); }
  static void step(Map &m) { auto it = m.begin(); it += index(); ++it; here(it); }
  static void step_back(Map &m) { auto it = m.end(); it -= index(); --it; here(it); }
  static void step_after(Map &m) { auto it = m.begin() + index(); it++; here(it); }
  static void step_after_back(Map &m) { auto it = m.begin() + index(); it--; here(it); }
  static void step_const(Map &m) { Map::const_iterator it = m.begin() + index(); here(index2() + it); }
  static void step_minus(Map &m) { here(m.end() - index()); }
  static void copy_ctor(void *raw, const Map &o) { ::new (raw) Map(o); }
  static void move_ctor(void *raw, Map &o) { ::new (raw) Map(std::move(o)); }
  static void copy_assign(Map &m, const Map &o) { m = o; }
  static void move_assign(Map &m, Map &o) { m = std::move(o); }
  static void swap(Map &m, Map &o) { m.swap(o); }
  static void swap_free(Map &m, Map &o) { stdext::swap(m, o); }
  static void replace(Map &m, Keys &k, Values &v) { m.replace(std::move(k), std::move(v)); }
  static void extract(void *raw, Map &m) { ::new (raw) Map::containers(std::move(m).extract()); }
  static void sorted_ctor(void *raw, Keys &k, Values &v) { ::new (raw) Map(stdext::sorted_unique, std::move(k), std::move(v)); }
};
template struct map_roots<0>;
