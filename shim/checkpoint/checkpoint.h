// A stand-in for DARMA/magistrate ("checkpoint"), which is not installed here.
// Only what vt uses: intrusive/non-intrusive serialize, byte-copyable types,
// the standard containers, polymorphic serialization, and file round trips.
// It is environment, not code under test.
#ifndef VERIF_SHIM_CHECKPOINT_H
#define VERIF_SHIM_CHECKPOINT_H

#include "checkpoint/detector.h"

#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace checkpoint {

using SerialByteType = char;
using SerialSizeType = std::size_t;
struct SERIALIZE_CONSTRUCT_TAG {};

enum class Kind { Size, Pack, Unpack, Footprint };

struct Base {
  explicit Base(Kind k) : kind_(k) {}
  Kind kind_;
  bool isSizing() const { return kind_ == Kind::Size; }
  bool isPacking() const { return kind_ == Kind::Pack; }
  bool isUnpacking() const { return kind_ == Kind::Unpack; }
  bool isFootprinting() const { return kind_ == Kind::Footprint; }
  bool isVirtualDisabled() const { return false; }
  template <typename T> void skip(T const&) {}
  template <typename T> void countBytes(T const&) {}
  void addBytes(std::size_t) {}
};

struct Sizer : Base {
  Sizer() : Base(Kind::Size) {}
  std::size_t n_ = 0;
  void bytes(void*, std::size_t n) { n_ += n; }
  std::size_t getSize() const { return n_; }
};
struct Packer : Base {
  explicit Packer(char* b) : Base(Kind::Pack), p_(b), b_(b) {}
  char* p_; char* b_;
  void bytes(void* d, std::size_t n) { if (n) std::memcpy(p_, d, n); p_ += n; }
  char* getBuffer() const { return b_; }
};
struct Unpacker : Base {
  explicit Unpacker(char* b) : Base(Kind::Unpack), p_(b) {}
  char* p_;
  void bytes(void* d, std::size_t n) { if (n) std::memcpy(d, p_, n); p_ += n; }
};
struct Footprinter : Base {
  Footprinter() : Base(Kind::Footprint) {}
  std::size_t n_ = 0;
  void bytes(void*, std::size_t n) { n_ += n; }
};

template <typename S>
static constexpr bool is_footprinter_v = std::is_same_v<std::decay_t<S>, Footprinter>;
template <typename S> struct is_footprinter : std::bool_constant<is_footprinter_v<S>> {};
template <typename S>
static constexpr bool is_sizer_v = std::is_same_v<std::decay_t<S>, Sizer>;

namespace det {
template <typename T, typename S> using member_t =
  decltype(std::declval<T&>().serialize(std::declval<S&>()));
template <typename T, typename S> using free_t =
  decltype(serialize(std::declval<S&>(), std::declval<T&>()));
template <typename T> using bytecopy_t = typename T::isByteCopyable;
template <typename T> using recon_t = decltype(T::reconstruct(std::declval<void*>()));
template <typename T> using virt_t = typename T::_ckpt_virtual_root;
}

template <typename T, typename Enable = void>
struct SerializableTraits {
  static constexpr bool has_serialize_function =
    detection::is_detected<det::member_t, T, Sizer>::value;
  static constexpr bool has_serialize_noninstrusive =
    detection::is_detected<det::free_t, T, Sizer>::value;
  static constexpr bool is_bytecopyable =
    std::is_arithmetic_v<T> or std::is_enum_v<T> or
    detection::is_detected_convertible<std::true_type, det::bytecopy_t, T>::value;
  static constexpr bool is_serializable =
    has_serialize_function or has_serialize_noninstrusive or is_bytecopyable;
};
// Containers are serializable; mark the ones vt asks about.
#define VERIF_SER_CONT(...)                                                     \
  { static constexpr bool has_serialize_function = false;                       \
    static constexpr bool has_serialize_noninstrusive = true;                   \
    static constexpr bool is_bytecopyable = false;                              \
    static constexpr bool is_serializable = true; }
template <typename A, typename B, typename C>
struct SerializableTraits<std::basic_string<A,B,C>> VERIF_SER_CONT();
template <typename A, typename B> struct SerializableTraits<std::vector<A,B>> VERIF_SER_CONT();
template <typename A, typename B> struct SerializableTraits<std::list<A,B>> VERIF_SER_CONT();
template <typename A, typename B> struct SerializableTraits<std::deque<A,B>> VERIF_SER_CONT();
template <typename A, typename B, typename C, typename D>
struct SerializableTraits<std::map<A,B,C,D>> VERIF_SER_CONT();
template <typename A, typename B, typename C>
struct SerializableTraits<std::set<A,B,C>> VERIF_SER_CONT();
template <typename A, typename B, typename C, typename D, typename E>
struct SerializableTraits<std::unordered_map<A,B,C,D,E>> VERIF_SER_CONT();
template <typename A, typename B, typename C, typename D>
struct SerializableTraits<std::unordered_set<A,B,C,D>> VERIF_SER_CONT();
template <typename A, typename B> struct SerializableTraits<std::pair<A,B>> VERIF_SER_CONT();
template <typename... A> struct SerializableTraits<std::tuple<A...>> VERIF_SER_CONT();
template <typename A, typename B> struct SerializableTraits<std::unique_ptr<A,B>> VERIF_SER_CONT();
template <typename A> struct SerializableTraits<std::optional<A>> VERIF_SER_CONT();
template <typename... A> struct SerializableTraits<std::variant<A...>> VERIF_SER_CONT();
template <typename A, std::size_t N> struct SerializableTraits<std::array<A,N>> VERIF_SER_CONT();
#undef VERIF_SER_CONT

// --- polymorphic serialization ------------------------------------------
struct VirtualOps { void* (*make)(); };
inline std::unordered_map<std::string, void* (*)()>& virtualRegistry() {
  static std::unordered_map<std::string, void* (*)()> r; return r;
}

template <typename T> T* constructAt(void* mem) {
  if constexpr (detection::is_detected<det::recon_t, T>::value) {
    return &T::reconstruct(mem);
  } else if constexpr (std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG> and not std::is_default_constructible_v<T>) {
    return new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
  } else if constexpr (std::is_default_constructible_v<T>) {
    return new (mem) T();
  } else if constexpr (std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG>) {
    return new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
  } else {
    std::memset(mem, 0, sizeof(T));
    return reinterpret_cast<T*>(mem);
  }
}
template <typename T> T* constructHeap() {
  return constructAt<T>(::operator new(sizeof(T)));
}

template <typename DerivedT, typename BaseT>
struct VirtualRegistrar {
  static void* makeBase() { return static_cast<BaseT*>(constructHeap<DerivedT>()); }
  VirtualRegistrar() { virtualRegistry()[typeid(DerivedT).name()] = &makeBase; }
  static VirtualRegistrar inst;
};
template <typename D, typename B> VirtualRegistrar<D,B> VirtualRegistrar<D,B>::inst;

#define checkpoint_virtual_serialize_root()                                     \
  using _ckpt_virtual_root = void;                                              \
  virtual std::string _ckpt_type_name() const { return typeid(*this).name(); }  \
  virtual void _ckpt_visit(::checkpoint::Sizer& s) { (void)s; }                 \
  virtual void _ckpt_visit(::checkpoint::Packer& s) { (void)s; }                \
  virtual void _ckpt_visit(::checkpoint::Unpacker& s) { (void)s; }              \
  virtual void _ckpt_visit(::checkpoint::Footprinter& s) { (void)s; }

#define checkpoint_virtual_serialize_derived_from(BASE)                         \
  template <typename SelfT> static void _ckpt_touch(SelfT*) {                   \
    (void)&::checkpoint::VirtualRegistrar<SelfT, BASE>::inst; }                 \
  void _ckpt_visit(::checkpoint::Sizer& s) override { _ckpt_touch(this); this->serialize(s); }      \
  void _ckpt_visit(::checkpoint::Packer& s) override { _ckpt_touch(this); this->serialize(s); }     \
  void _ckpt_visit(::checkpoint::Unpacker& s) override { _ckpt_touch(this); this->serialize(s); }   \
  void _ckpt_visit(::checkpoint::Footprinter& s) override { (void)s; }

#define magistrate_virtual_serialize_root() checkpoint_virtual_serialize_root()
#define magistrate_virtual_serialize_derived_from(B) checkpoint_virtual_serialize_derived_from(B)
#define magistrate_virtual_serialize_derived_from_(B) checkpoint_virtual_serialize_derived_from(B)

template <typename S, typename T> void dispatchOne(S& s, T& t);

template <typename S, typename T> void raw(S& s, T& t) {
  s.bytes(const_cast<void*>(static_cast<void const*>(std::addressof(t))), sizeof(T));
}
template <typename S> std::size_t lengthOf(S& s, std::size_t n) { raw(s, n); return n; }

template <typename S, typename Seq> void seqReadWrite(S& s, Seq& c) {
  std::size_t n = lengthOf(s, c.size());
  if (s.isUnpacking()) {
    c.clear();
    for (std::size_t i = 0; i < n; i++) {
      using V = typename Seq::value_type;
      alignas(V) char buf[sizeof(V)];
      V* v = constructAt<V>(buf);
      dispatchOne(s, *v);
      c.push_back(std::move(*v));
      v->~V();
    }
  } else {
    for (auto& e : c) dispatchOne(s, e);
  }
}
template <typename S, typename C> void setReadWrite(S& s, C& c) {
  std::size_t n = lengthOf(s, c.size());
  using V = typename C::value_type;
  if (s.isUnpacking()) {
    c.clear();
    for (std::size_t i = 0; i < n; i++) {
      alignas(V) char buf[sizeof(V)];
      V* v = constructAt<V>(buf);
      dispatchOne(s, *v);
      c.insert(c.end(), std::move(*v));
      v->~V();
    }
  } else {
    for (auto const& e : c) dispatchOne(s, const_cast<V&>(e));
  }
}
template <typename S, typename C> void mapReadWrite(S& s, C& c) {
  std::size_t n = lengthOf(s, c.size());
  using K = typename C::key_type; using M = typename C::mapped_type;
  if (s.isUnpacking()) {
    c.clear();
    for (std::size_t i = 0; i < n; i++) {
      alignas(K) char kb[sizeof(K)]; alignas(M) char mb[sizeof(M)];
      K* k = constructAt<K>(kb); M* m = constructAt<M>(mb);
      dispatchOne(s, *k); dispatchOne(s, *m);
      c.emplace(std::move(*k), std::move(*m));
      k->~K(); m->~M();
    }
  } else {
    for (auto& e : c) { dispatchOne(s, const_cast<K&>(e.first)); dispatchOne(s, e.second); }
  }
}

// unordered containers: iterate in reverse so that a round trip keeps the
// relative order libstdc++ would give (irrelevant to semantics).
#define VERIF_OV(TMPL, TYPE, BODY) \
  template <typename S, TMPL> void cont(S& s, TYPE& c, int) { BODY; }
#define CM ,
template <typename S, typename T, typename A> void cont(S& s, std::vector<T,A>& c, int) { seqReadWrite(s, c); }
template <typename S, typename A> void cont(S& s, std::vector<bool,A>& c, int) {
  std::size_t n = lengthOf(s, c.size());
  if (s.isUnpacking()) { c.resize(n); }
  for (std::size_t i = 0; i < n; i++) { bool b = s.isUnpacking() ? false : bool(c[i]); raw(s, b); if (s.isUnpacking()) c[i] = b; }
}
template <typename S, typename T, typename A> void cont(S& s, std::list<T,A>& c, int) { seqReadWrite(s, c); }
template <typename S, typename T, typename A> void cont(S& s, std::deque<T,A>& c, int) { seqReadWrite(s, c); }
template <typename S, typename C, typename T, typename A> void cont(S& s, std::basic_string<C,T,A>& c, int) {
  std::size_t n = lengthOf(s, c.size());
  if (s.isUnpacking()) c.resize(n);
  s.bytes(&c[0], n * sizeof(C));
}
template <typename S, typename K, typename C, typename A> void cont(S& s, std::set<K,C,A>& c, int) { setReadWrite(s, c); }
template <typename S, typename K, typename C, typename A> void cont(S& s, std::multiset<K,C,A>& c, int) { setReadWrite(s, c); }
template <typename S, typename K, typename C, typename E, typename A> void cont(S& s, std::unordered_set<K,C,E,A>& c, int) { setReadWrite(s, c); }
template <typename S, typename K, typename V, typename C, typename A> void cont(S& s, std::map<K,V,C,A>& c, int) { mapReadWrite(s, c); }
template <typename S, typename K, typename V, typename C, typename A> void cont(S& s, std::multimap<K,V,C,A>& c, int) { mapReadWrite(s, c); }
template <typename S, typename K, typename V, typename H, typename E, typename A> void cont(S& s, std::unordered_map<K,V,H,E,A>& c, int) { mapReadWrite(s, c); }
template <typename S, typename K, typename V, typename H, typename E, typename A> void cont(S& s, std::unordered_multimap<K,V,H,E,A>& c, int) { mapReadWrite(s, c); }
template <typename S, typename A, typename B> void cont(S& s, std::pair<A,B>& c, int) {
  dispatchOne(s, const_cast<std::remove_const_t<A>&>(c.first)); dispatchOne(s, c.second);
}
template <typename S, typename... A> void cont(S& s, std::tuple<A...>& c, int) {
  std::apply([&](auto&... e) { (dispatchOne(s, e), ...); }, c);
}
template <typename S, typename A, std::size_t N> void cont(S& s, std::array<A,N>& c, int) { for (auto& e : c) dispatchOne(s, e); }
template <typename S, std::size_t N> void cont(S& s, std::bitset<N>& c, int) { raw(s, c); }
template <typename S, typename A> void cont(S& s, std::complex<A>& c, int) { raw(s, c); }
template <typename S, typename A> void cont(S& s, std::atomic<A>& c, int) { A v = c.load(); dispatchOne(s, v); c.store(v); }
template <typename S, typename R, typename P> void cont(S& s, std::chrono::duration<R,P>& c, int) { raw(s, c); }
template <typename S, typename A> void cont(S& s, std::optional<A>& c, int) {
  bool has = c.has_value(); raw(s, has);
  if (s.isUnpacking()) { if (has) c.emplace(); else c.reset(); }
  if (has) dispatchOne(s, *c);
}
template <typename S, std::size_t I, typename... A> void variantAt(S& s, std::variant<A...>& c, std::size_t idx) {
  if constexpr (I < sizeof...(A)) {
    if (idx == I) {
      if (s.isUnpacking()) c.template emplace<I>();
      dispatchOne(s, std::get<I>(c));
    } else variantAt<S, I+1, A...>(s, c, idx);
  }
}
template <typename S, typename... A> void cont(S& s, std::variant<A...>& c, int) {
  std::size_t idx = lengthOf(s, c.index());
  variantAt<S, 0, A...>(s, c, idx);
}
template <typename S> void cont(S&, std::monostate&, int) {}
template <typename S, typename F> void cont(S& s, std::function<F>&, int) {
  if (not s.isSizing() and not s.isFootprinting()) { std::fprintf(stderr, "shim: std::function serialized\n"); std::abort(); }
}
template <typename S, typename T, typename C> void cont(S& s, std::queue<T,C>& c, int) {
  std::deque<T> d;
  if (not s.isUnpacking()) { auto q = c; while (not q.empty()) { d.push_back(q.front()); q.pop(); } }
  seqReadWrite(s, d);
  if (s.isUnpacking()) { c = {}; for (auto& e : d) c.push(std::move(e)); }
}
template <typename T> T* polyMake(std::string const& name) {
  auto& r = virtualRegistry(); auto it = r.find(name);
  if (it == r.end()) { std::fprintf(stderr, "shim: unregistered polymorphic type %s\n", name.c_str()); std::abort(); }
  return static_cast<T*>(it->second());
}
template <typename S, typename T, typename PtrT, typename ResetT>
void ptrReadWrite(S& s, PtrT& c, ResetT reset) {
  bool has = static_cast<bool>(c); raw(s, has);
  if constexpr (detection::is_detected<det::virt_t, T>::value) {
    std::string name; if (has and not s.isUnpacking()) name = c->_ckpt_type_name();
    if (has) {
      cont(s, name, 0);
      if (s.isUnpacking()) reset(polyMake<T>(name));
      c->_ckpt_visit(s);
    } else if (s.isUnpacking()) reset(nullptr);
  } else {
    if (s.isUnpacking()) reset(has ? constructHeap<T>() : nullptr);
    if (has) dispatchOne(s, *c);
  }
}
template <typename S, typename T, typename D> void cont(S& s, std::unique_ptr<T,D>& c, int) {
  ptrReadWrite<S,T>(s, c, [&](T* p) { c.reset(p); });
}
template <typename S, typename T> void cont(S& s, std::shared_ptr<T>& c, int) {
  ptrReadWrite<S,T>(s, c, [&](T* p) { c.reset(p); });
}

template <typename S, typename T> using cont_t =
  decltype(cont(std::declval<S&>(), std::declval<T&>(), 0));

template <typename S, typename T> void dispatchOne(S& s, T& t0) {
  using U = std::remove_const_t<T>;
  U& t = const_cast<U&>(t0);
  if constexpr (std::is_same_v<S, Footprinter>) {
    s.bytes(nullptr, sizeof(U));
  } else if constexpr (std::is_array_v<U>) {
    for (auto& e : t) dispatchOne(s, e);
  } else if constexpr (std::is_arithmetic_v<U> or std::is_enum_v<U>) {
    raw(s, t);
  } else if constexpr (detection::is_detected_convertible<std::true_type, det::bytecopy_t, U>::value) {
    raw(s, t);
  } else if constexpr (detection::is_detected<cont_t, S, U>::value) {
    cont(s, t, 0);
  } else if constexpr (detection::is_detected<det::free_t, U, S>::value) {
    serialize(s, t);
  } else if constexpr (detection::is_detected<det::member_t, U, S>::value) {
    t.serialize(s);
  } else {
    static_assert(std::is_trivially_copyable_v<U>, "shim: type is not serializable");
    raw(s, t);
  }
}

template <typename S, typename T,
  typename = std::enable_if_t<std::is_base_of_v<Base, S>>>
S& operator|(S& s, T& t) { dispatchOne(s, t); return s; }
template <typename S, typename T,
  typename = std::enable_if_t<std::is_base_of_v<Base, S>>>
S& operator|(S& s, T const& t) { dispatchOne(s, const_cast<T&>(t)); return s; }
template <typename S, typename T,
  typename = std::enable_if_t<std::is_base_of_v<Base, S>>>
S& operator&(S& s, T& t) { dispatchOne(s, t); return s; }
template <typename S, typename T,
  typename = std::enable_if_t<std::is_base_of_v<Base, S>>>
S& operator<<(S& s, T& t) { dispatchOne(s, t); return s; }

template <typename S, typename T>
void dispatchSerializeArray(S& s, T* p, std::size_t n) {
  for (std::size_t i = 0; i < n; i++) dispatchOne(s, p[i]);
}

template <typename T> std::size_t getSize(T& t) {
  Sizer s; dispatchOne(s, t); return s.getSize();
}
template <typename T> std::size_t getMemoryFootprint(T&, std::size_t sz = sizeof(T)) { return sz; }
template <typename T> std::size_t getMemoryFootprint(T const&, std::size_t sz = sizeof(T)) { return sz; }

struct SerializedInfo {
  SerializedInfo(std::unique_ptr<char[]> own, char* b, std::size_t n)
    : own_(std::move(own)), buf_(b), n_(n) {}
  char* getBuffer() const { return buf_; }
  std::size_t getSize() const { return n_; }
  std::unique_ptr<char[]> own_; char* buf_; std::size_t n_;
};
using BufferCallbackType = std::function<char*(std::size_t)>;
template <typename T>
std::unique_ptr<SerializedInfo> serialize(T& t, BufferCallbackType fn = nullptr) {
  std::size_t n = getSize(t);
  std::unique_ptr<char[]> own; char* b;
  if (fn) b = fn(n); else { own.reset(new char[n ? n : 1]); b = own.get(); }
  Packer p(b); dispatchOne(p, t);
  if (static_cast<std::size_t>(p.p_ - b) != n) { std::fprintf(stderr, "shim: packed %zu != sized %zu\n", std::size_t(p.p_-b), n); std::abort(); }
  return std::make_unique<SerializedInfo>(std::move(own), b, n);
}
template <typename T> T* deserialize(char* b, void* mem = nullptr) {
  T* t = constructAt<T>(mem ? mem : ::operator new(sizeof(T)));
  Unpacker u(b); dispatchOne(u, *t); return t;
}
template <typename T> std::unique_ptr<T> deserialize(std::unique_ptr<SerializedInfo>&& in) {
  return std::unique_ptr<T>(deserialize<T>(in->getBuffer()));
}
template <typename T> void deserializeInPlace(char* b, T* t) { Unpacker u(b); dispatchOne(u, *t); }

template <typename T> void serializeToFile(T& t, std::string const& file) {
  auto s = serialize(t);
  FILE* f = std::fopen(file.c_str(), "wb");
  if (not f) throw std::runtime_error("shim: cannot open " + file);
  std::size_t w = s->getSize() ? std::fwrite(s->getBuffer(), 1, s->getSize(), f) : 0;
  std::fclose(f);
  if (w != s->getSize()) throw std::runtime_error("shim: short write");
}
inline std::vector<char> slurp(std::string const& file) {
  FILE* f = std::fopen(file.c_str(), "rb");
  if (not f) throw std::runtime_error("shim: cannot open " + file);
  std::vector<char> v; char b[4096]; std::size_t n;
  while ((n = std::fread(b, 1, sizeof b, f)) > 0) v.insert(v.end(), b, b + n);
  std::fclose(f); v.push_back(0);
  return v;
}
template <typename T> std::unique_ptr<T> deserializeFromFile(std::string const& file) {
  auto v = slurp(file); return std::unique_ptr<T>(deserialize<T>(v.data()));
}
template <typename T> void deserializeInPlaceFromFile(std::string const& file, T* t) {
  auto v = slurp(file); deserializeInPlace<T>(v.data(), t);
}

template <typename S, typename T> void reconstructPointedToObjectIfNeeded(S& s, T*& p) {
  if (s.isUnpacking()) p = constructHeap<T>();
}

} // namespace checkpoint
namespace magistrate = checkpoint;
#endif
