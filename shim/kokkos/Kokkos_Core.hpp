// Minimal sequential stand-in for the part of the Kokkos API that HERACLES++
// uses (Kokkos is not installed here).  It is compiled together with the real
// sources of /repo, both for the symbolic executor and for native replays.
//  * View: bounds-checked, zero-initialised unless WithoutInitializing, strided
//  * parallel_for/reduce/scan: every iteration is announced with hx_par_iter so
//    that conflicting accesses of two iterations are reported as a data race
//  * the "device" memory space is distinct from the host space
#pragma once
#include <array>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <iosfwd>
#include <limits>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

#ifdef HX_NO_INTRINSICS
inline void hx_par_begin() {}
inline void hx_par_iter(int) {}
inline void hx_par_end() {}
[[noreturn]] inline void hx_bounds(const char* m) { std::fprintf(stderr, "%s\n", m); std::abort(); }
#else
extern "C" {
void hx_par_begin();
void hx_par_iter(int);
void hx_par_end();
void hx_fail(const char*);
}
inline __attribute__((noinline)) void hx_bounds(const char* m) { hx_fail(m); }
#endif

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_IMPL_FUNCTION
#define KOKKOS_ASSERT(x) { assert(x); }
#define KOKKOS_VERSION 40501
#define KOKKOS_IF_ON_HOST(CODE) { CODE }
#define KOKKOS_IF_ON_DEVICE(CODE)

namespace Kokkos {

// ---------------------------------------------------------------- basic types
template <class T, std::size_t N>
struct Array
{
    T m_data[N];
    using value_type = T;
    using reference = T&;
    using const_reference = T const&;
    using pointer = T*;
    using const_pointer = T const*;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using iterator = T*;
    using const_iterator = T const*;
    static constexpr std::size_t size() { return N; }
    static constexpr std::size_t max_size() { return N; }
    static constexpr bool empty() { return false; }
    template <class I>
    constexpr T& operator[](I const& i)
    {
        if (static_cast<std::size_t>(i) >= N) hx_bounds("Kokkos::Array index out of bounds");
        return m_data[i];
    }
    template <class I>
    constexpr T const& operator[](I const& i) const
    {
        if (static_cast<std::size_t>(i) >= N) hx_bounds("Kokkos::Array index out of bounds");
        return m_data[i];
    }
    constexpr T* data() { return m_data; }
    constexpr T const* data() const { return m_data; }
    constexpr T* begin() { return m_data; }
    constexpr T* end() { return m_data + N; }
    constexpr T const* begin() const { return m_data; }
    constexpr T const* end() const { return m_data + N; }
    constexpr T const* cbegin() const { return m_data; }
    constexpr T const* cend() const { return m_data + N; }
    constexpr T& front() { return m_data[0]; }
    constexpr T const& front() const { return m_data[0]; }
    constexpr T& back() { return m_data[N - 1]; }
    constexpr T const& back() const { return m_data[N - 1]; }
    constexpr void fill(T const& v) { for (std::size_t i = 0; i < N; ++i) m_data[i] = v; }
    friend constexpr bool operator==(Array const& a, Array const& b)
    {
        for (std::size_t i = 0; i < N; ++i) if (!(a.m_data[i] == b.m_data[i])) return false;
        return true;
    }
    friend constexpr bool operator!=(Array const& a, Array const& b) { return !(a == b); }
};
template <class T>
struct Array<T, 0>
{
    using value_type = T;
    static constexpr std::size_t size() { return 0; }
    static constexpr bool empty() { return true; }
    constexpr T* data() { return nullptr; }
    constexpr T const* data() const { return nullptr; }
    constexpr T* begin() { return nullptr; }
    constexpr T* end() { return nullptr; }
    constexpr T const* begin() const { return nullptr; }
    constexpr T const* end() const { return nullptr; }
    template <class I> constexpr T& operator[](I const&) const { hx_bounds("Kokkos::Array<0> index"); return *static_cast<T*>(nullptr); }
};
template <class T, class... Us> Array(T, Us...) -> Array<T, 1 + sizeof...(Us)>;
template <class T, std::size_t N> constexpr T* begin(Array<T, N>& a) { return a.data(); }
template <class T, std::size_t N> constexpr T* end(Array<T, N>& a) { return a.data() + N; }
template <class T, std::size_t N> constexpr T const* begin(Array<T, N> const& a) { return a.data(); }
template <class T, std::size_t N> constexpr T const* end(Array<T, N> const& a) { return a.data() + N; }
template <class T, std::size_t N>
constexpr Array<T, N> to_array(T const (&x)[N]) { Array<T, N> r {}; for (std::size_t i = 0; i < N; ++i) r[i] = x[i]; return r; }
template <std::size_t I, class T, std::size_t N> constexpr T& get(Array<T, N>& a) { return a[I]; }
template <std::size_t I, class T, std::size_t N> constexpr T const& get(Array<T, N> const& a) { return a[I]; }

template <class T1, class T2>
struct pair
{
    using first_type = T1;
    using second_type = T2;
    T1 first {};
    T2 second {};
    constexpr pair() = default;
    constexpr pair(T1 const& a, T2 const& b) : first(a), second(b) {}
    template <class U, class V> constexpr pair(pair<U, V> const& p) : first(p.first), second(p.second) {}
    template <class U, class V> constexpr pair(std::pair<U, V> const& p) : first(p.first), second(p.second) {}
    template <class U, class V> constexpr pair& operator=(pair<U, V> const& p) { first = p.first; second = p.second; return *this; }
    constexpr std::pair<T1, T2> to_std_pair() const { return {first, second}; }
    friend constexpr bool operator==(pair const& a, pair const& b) { return a.first == b.first && a.second == b.second; }
    friend constexpr bool operator!=(pair const& a, pair const& b) { return !(a == b); }
};
template <class A, class B> pair(A, B) -> pair<A, B>;
template <class A, class B>
constexpr pair<std::decay_t<A>, std::decay_t<B>> make_pair(A a, B b) { return pair<std::decay_t<A>, std::decay_t<B>>(a, b); }

struct ALL_t
{
    constexpr ALL_t const& operator()() const { return *this; }
};
inline constexpr ALL_t ALL {};

// ------------------------------------------------------------- spaces, traits
struct HostSpace;
struct HostExec
{
    using memory_space = HostSpace;
    using execution_space = HostExec;
    static int concurrency() { return 1; }
    static void fence(std::string const& = "") {}
    static const char* name() { return "Host"; }
};
struct HostSpace
{
    using memory_space = HostSpace;
    using execution_space = HostExec;
    static constexpr bool hx_host = true;
};
#ifdef HX_UNIFIED
using HxDeviceSpace = HostSpace;
using HxDevice = HostExec;
#else
struct HxDeviceSpace;
struct HxDevice
{
    using memory_space = HxDeviceSpace;
    using execution_space = HxDevice;
    static int concurrency() { return 1; }
    static void fence(std::string const& = "") {}
    static const char* name() { return "Device"; }
};
struct HxDeviceSpace
{
    using memory_space = HxDeviceSpace;
    using execution_space = HxDevice;
    static constexpr bool hx_host = false;
};
#endif
struct SharedSpace { using memory_space = SharedSpace; using execution_space = HxDevice; static constexpr bool hx_host = true; };
struct SharedHostPinnedSpace { using memory_space = SharedHostPinnedSpace; using execution_space = HxDevice; static constexpr bool hx_host = true; };
using DefaultExecutionSpace = HxDevice;
using DefaultHostExecutionSpace = HostExec;
using Serial = HostExec;
template <class E, class M> struct Device { using execution_space = E; using memory_space = M; static constexpr bool hx_host = M::hx_host; };

template <unsigned V = 0> struct MemoryTraits { static constexpr bool is_unmanaged = (V & 1) != 0; };
enum : unsigned { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
using MemoryUnmanaged = MemoryTraits<1>;

template <int K>
struct HxLayout
{
    std::size_t dimension[8];
    static constexpr int hx_layout = K;
    HxLayout() { for (auto& d : dimension) d = std::size_t(-1); }
    template <class... I>
        requires(sizeof...(I) >= 1 && (std::is_integral_v<I> && ...))
    explicit HxLayout(I... i) : HxLayout()
    {
        std::size_t n = 0;
        ((dimension[n++] = static_cast<std::size_t>(i)), ...);
    }
    friend bool operator==(HxLayout const& a, HxLayout const& b)
    {
        for (int i = 0; i < 8; ++i) if (a.dimension[i] != b.dimension[i]) return false;
        return true;
    }
    friend bool operator!=(HxLayout const& a, HxLayout const& b) { return !(a == b); }
};
using LayoutLeft = HxLayout<0>;
using LayoutRight = HxLayout<1>;
using LayoutStride = HxLayout<2>;

struct WithoutInitializing_t {};
struct SequentialHostInit_t {};
inline constexpr WithoutInitializing_t WithoutInitializing {};
inline constexpr SequentialHostInit_t SequentialHostInit {};
struct AllowPadding_t {};
inline constexpr AllowPadding_t AllowPadding {};
struct HxAlloc { std::string label; bool init = true; };
namespace Impl {
inline void hx_prop(HxAlloc& a, std::string const& s) { a.label = s; }
inline void hx_prop(HxAlloc& a, char const* s) { a.label = s; }
inline void hx_prop(HxAlloc& a, WithoutInitializing_t) { a.init = false; }
template <class T> inline void hx_prop(HxAlloc&, T const&) {}
} // namespace Impl
inline bool hx_no_alloc = false; // views get extents but no memory: for symbolic sizes
template <class... A>
HxAlloc view_alloc(A const&... a) { HxAlloc r; (Impl::hx_prop(r, a), ...); return r; }

namespace Impl {
template <class T> struct is_layout : std::false_type {};
template <int K> struct is_layout<HxLayout<K>> : std::true_type {};
template <class T> struct is_mtraits : std::false_type {};
template <unsigned V> struct is_mtraits<MemoryTraits<V>> : std::true_type {};
template <class T> concept HasMem = requires { typename T::memory_space; };
template <class... P> struct find_layout { using type = LayoutLeft; };
template <class A, class... P>
struct find_layout<A, P...> { using type = typename std::conditional_t<is_layout<A>::value, std::type_identity<A>, find_layout<P...>>::type; };
template <class... P> struct find_mem { using type = DefaultExecutionSpace::memory_space; };
template <class A, class... P>
    requires HasMem<A>
struct find_mem<A, P...> { using type = typename A::memory_space; };
template <class A, class... P>
    requires(!HasMem<A>)
struct find_mem<A, P...> { using type = typename find_mem<P...>::type; };
template <class... P> struct find_mt { using type = MemoryTraits<0>; };
template <class A, class... P>
struct find_mt<A, P...> { using type = typename std::conditional_t<is_mtraits<A>::value, std::type_identity<A>, find_mt<P...>>::type; };
template <class T> struct ptr_rank { static constexpr unsigned value = 0; using type = T; };
template <class T> struct ptr_rank<T*> { static constexpr unsigned value = 1 + ptr_rank<T>::value; using type = typename ptr_rank<T>::type; };
template <class T, unsigned N> struct add_ptrs { using type = typename add_ptrs<T*, N - 1>::type; };
template <class T> struct add_ptrs<T, 0> { using type = T; };
template <class T> struct static_ext { static constexpr unsigned n = 0; static void fill(std::size_t*) {} };
template <class T, std::size_t N> struct static_ext<T[N]>
{
    static constexpr unsigned n = 1 + static_ext<T>::n;
    static void fill(std::size_t* p) { p[0] = N; static_ext<T>::fill(p + 1); }
};
template <class T, class V> struct rebind_value { using type = V; };
template <class T, class V> struct rebind_value<T*, V> { using type = typename rebind_value<T, V>::type*; };
template <class T, std::size_t N, class V> struct rebind_value<T[N], V> { using type = typename rebind_value<T, V>::type[N]; };
} // namespace Impl

template <class DataType, class... P>
struct ViewTraits
{
    using base = std::remove_all_extents_t<DataType>;
    using value_type = typename Impl::ptr_rank<base>::type;
    using const_value_type = std::add_const_t<value_type>;
    using non_const_value_type = std::remove_const_t<value_type>;
    using data_type = DataType;
    using const_data_type = typename Impl::rebind_value<DataType, const_value_type>::type;
    using non_const_data_type = typename Impl::rebind_value<DataType, non_const_value_type>::type;
    using array_layout = typename Impl::find_layout<P...>::type;
    using memory_space = typename Impl::find_mem<P...>::type;
    using memory_traits = typename Impl::find_mt<P...>::type;
    using execution_space = typename memory_space::execution_space;
    using size_type = std::size_t;
    using host_mirror_space = std::conditional_t<memory_space::hx_host, memory_space, HostSpace>;
    struct dimension
    {
        static constexpr unsigned rank_dynamic = Impl::ptr_rank<base>::value;
        static constexpr unsigned rank = rank_dynamic + Impl::static_ext<DataType>::n;
    };
    static constexpr unsigned rank = dimension::rank;
    static constexpr unsigned rank_dynamic = dimension::rank_dynamic;
};

template <class DataType, class... P>
class View
{
public:
    using traits = ViewTraits<DataType, P...>;
    using value_type = typename traits::value_type;
    using const_value_type = typename traits::const_value_type;
    using non_const_value_type = typename traits::non_const_value_type;
    using data_type = typename traits::data_type;
    using const_data_type = typename traits::const_data_type;
    using non_const_data_type = typename traits::non_const_data_type;
    using array_layout = typename traits::array_layout;
    using memory_space = typename traits::memory_space;
    using memory_traits = typename traits::memory_traits;
    using execution_space = typename traits::execution_space;
    using host_mirror_space = typename traits::host_mirror_space;
    using device_type = Device<execution_space, memory_space>;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using size_type = std::size_t;
    using const_type = View<const_data_type, array_layout, memory_space, memory_traits>;
    using non_const_type = View<non_const_data_type, array_layout, memory_space, memory_traits>;
    using HostMirror = View<non_const_data_type, array_layout, typename host_mirror_space::memory_space>;
    using host_mirror_type = HostMirror;
    static constexpr unsigned rank_dynamic = traits::dimension::rank_dynamic;
    static constexpr unsigned Rank = traits::dimension::rank;
    struct rank_t
    {
        constexpr operator std::size_t() const { return Rank; }
        constexpr std::size_t operator()() const { return Rank; }
    };
    static constexpr rank_t rank {};
    static constexpr unsigned S = Rank == 0 ? 1 : Rank;

    value_type* m_ptr = nullptr;
    std::size_t m_ext[S];
    std::size_t m_str[S];
    const char* m_label = "";

    View()
    {
        for (unsigned i = 0; i < S; ++i) { m_ext[i] = 0; m_str[i] = 0; }
        Impl::static_ext<DataType>::fill(m_ext + rank_dynamic);
    }
    template <class... I>
        requires(sizeof...(I) >= rank_dynamic && sizeof...(I) <= Rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(std::string const& label, I const&... n) : View(HxAlloc {label, true}, n...)
    {
    }
    template <class... I>
        requires(sizeof...(I) >= rank_dynamic && sizeof...(I) <= Rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(HxAlloc const& al, I const&... n) : View()
    {
        unsigned r = 0;
        ((hx_ext(r++, n)), ...);
        allocate(al);
    }
    explicit View(std::string const& label, array_layout const& l) : View(HxAlloc {label, true}, l) {}
    explicit View(HxAlloc const& al, array_layout const& l)
        requires(Rank > 0)
        : View()
    {
        for (unsigned i = 0; i < rank_dynamic; ++i) m_ext[i] = l.dimension[i];
        allocate(al);
    }
    template <class... I>
        requires(sizeof...(I) == rank_dynamic && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(value_type* p, I const&... n) : View()
    {
        unsigned r = 0;
        ((hx_ext(r++, n)), ...);
        m_ptr = p;
        strides();
    }
    View(View const&) = default;
    View& operator=(View const&) = default;
    View(View&& o) noexcept : View(static_cast<View const&>(o)) { o.m_ptr = nullptr; }
    View& operator=(View&& o) noexcept
    {
        if (this != &o) { *this = static_cast<View const&>(o); o.m_ptr = nullptr; }
        return *this;
    }
    ~View() = default;
    template <class DT, class... Q>
        requires(View<DT, Q...>::Rank == Rank && std::is_convertible_v<typename View<DT, Q...>::value_type*, value_type*>
                 && (std::is_same_v<typename View<DT, Q...>::memory_space, memory_space> || (View<DT, Q...>::memory_space::hx_host && memory_space::hx_host)))
    View(View<DT, Q...> const& o) : m_ptr(o.m_ptr), m_label(o.m_label)
    {
        for (unsigned i = 0; i < S; ++i) { m_ext[i] = o.m_ext[i]; m_str[i] = o.m_str[i]; }
    }
    template <class DT, class... Q>
        requires(View<DT, Q...>::Rank == Rank && std::is_convertible_v<typename View<DT, Q...>::value_type*, value_type*>)
    View& operator=(View<DT, Q...> const& o)
    {
        *this = View(o);
        return *this;
    }

    template <class I> void hx_ext(unsigned r, I const& n)
    {
        if constexpr (std::is_signed_v<I>) { if (n < 0) throw std::runtime_error("Kokkos: negative view extent"); }
        m_ext[r] = static_cast<std::size_t>(n);
    }
    void strides()
    {
        if constexpr (array_layout::hx_layout == 1) {
            std::size_t s = 1;
            for (unsigned i = Rank; i-- > 0;) { m_str[i] = s; s *= m_ext[i]; }
        } else {
            std::size_t s = 1;
            for (unsigned i = 0; i < Rank; ++i) { m_str[i] = s; s *= m_ext[i]; }
        }
    }
    void allocate(HxAlloc const& al)
    {
        strides();
        std::size_t n = 1;
        for (unsigned i = 0; i < Rank; ++i) n *= m_ext[i];
        std::size_t const bytes = (n ? n : 1) * sizeof(value_type);
        if (hx_no_alloc) return;
        // never freed: views are reference counted in Kokkos and their life time is not under study
        using NC = non_const_value_type;
        if constexpr (std::is_trivially_default_constructible_v<NC>) {
            m_ptr = static_cast<value_type*>(al.init ? std::calloc(bytes, 1) : std::malloc(bytes));
        } else {
            m_ptr = new NC[n ? n : 1]();
        }
        char* l = static_cast<char*>(std::malloc(al.label.size() + 1));
        std::memcpy(l, al.label.c_str(), al.label.size() + 1);
        m_label = l;
    }

    template <class... I>
        requires(sizeof...(I) == Rank && (std::is_convertible_v<I, std::size_t> && ...))
    value_type& operator()(I const&... idx) const
    {
        if constexpr (Rank == 0) {
            return *m_ptr;
        } else {
            std::size_t const id[] = {static_cast<std::size_t>(idx)...};
            std::size_t off = 0;
            for (unsigned r = 0; r < Rank; ++r) {
                if (id[r] >= m_ext[r]) hx_bounds("Kokkos::View index out of bounds");
                off += id[r] * m_str[r];
            }
            return m_ptr[off];
        }
    }
    template <class I>
        requires(Rank == 1 && std::is_convertible_v<I, std::size_t>)
    value_type& operator[](I const& i) const { return (*this)(i); }
    template <class... I> value_type& access(I const&... idx) const { return (*this)(idx...); }

    value_type* data() const { return m_ptr; }
    template <class I> constexpr std::size_t extent(I const& r) const { return static_cast<unsigned>(r) < Rank ? m_ext[static_cast<unsigned>(r)] : 1; }
    template <class I> constexpr int extent_int(I const& r) const { return static_cast<int>(extent(r)); }
    static constexpr std::size_t static_extent(unsigned) { return 0; }
    template <class I> std::size_t stride(I const& r) const { return m_str[static_cast<unsigned>(r)]; }
    std::size_t stride_0() const { return m_str[0]; }
    std::size_t size() const
    {
        std::size_t n = 1;
        for (unsigned i = 0; i < Rank; ++i) n *= m_ext[i];
        return n;
    }
    std::size_t span() const
    {
        if (size() == 0) return 0;
        std::size_t n = 1;
        for (unsigned i = 0; i < Rank; ++i) n += (m_ext[i] - 1) * m_str[i];
        return n;
    }
    bool span_is_contiguous() const { return span() == size(); }
    bool is_allocated() const { return m_ptr != nullptr; }
    std::string label() const { return std::string(m_label); }
    int use_count() const { return 1; }
    array_layout layout() const
    {
        array_layout l;
        for (unsigned i = 0; i < Rank; ++i) l.dimension[i] = m_ext[i];
        return l;
    }
    template <class DT, class... Q> friend bool operator==(View const& a, View<DT, Q...> const& b)
    {
        if (static_cast<const void*>(a.m_ptr) != static_cast<const void*>(b.m_ptr)) return false;
        for (unsigned i = 0; i < Rank; ++i) if (a.m_ext[i] != b.m_ext[i]) return false;
        return true;
    }
};
template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};
template <class D, class... P> struct is_view<View<D, P...> const> : std::true_type {};
template <class T> inline constexpr bool is_view_v = is_view<T>::value;

// -------------------------------------------------------------------- subview
namespace Impl {
template <class A> inline constexpr bool is_idx = std::is_integral_v<std::remove_cvref_t<A>> || std::is_enum_v<std::remove_cvref_t<A>>;
template <class T, class L, class M, class Out>
struct sub_apply
{
    Out out {};
    T* p;
    unsigned in = 0, o = 0;
    template <class V, class A> void one(V const& v, A const& a)
    {
        std::size_t const e = v.m_ext[in], s = v.m_str[in];
        if constexpr (std::is_same_v<A, ALL_t>) {
            out.m_ext[o] = e; out.m_str[o] = s; ++o;
        } else if constexpr (is_idx<A>) {
            if (static_cast<std::size_t>(a) >= e) hx_bounds("Kokkos::subview index out of bounds");
            p += static_cast<std::size_t>(a) * s;
        } else {
            long long const b = static_cast<long long>(a.first), f = static_cast<long long>(a.second);
            if (b < 0 || f < b || static_cast<std::size_t>(f) > e) hx_bounds("Kokkos::subview range out of bounds");
            p += static_cast<std::size_t>(b) * s;
            out.m_ext[o] = static_cast<std::size_t>(f - b); out.m_str[o] = s; ++o;
        }
        ++in;
    }
};
} // namespace Impl
template <class D, class... P, class... A>
auto subview(View<D, P...> const& v, A const&... a)
{
    using VT = View<D, P...>;
    static_assert(sizeof...(A) == VT::Rank);
    constexpr unsigned R = (0U + ... + (Impl::is_idx<A> ? 0U : 1U));
    using DT = typename Impl::add_ptrs<typename VT::value_type, R>::type;
    using Out = View<DT, typename VT::array_layout, typename VT::memory_space, typename VT::memory_traits>;
    Impl::sub_apply<typename VT::value_type, int, int, Out> s;
    s.p = v.m_ptr;
    (s.one(v, a), ...);
    s.out.m_ptr = s.p;
    s.out.m_label = v.m_label;
    return s.out;
}
template <class V, class... A> using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

// ------------------------------------------------------------------ deep_copy
namespace Impl {
template <unsigned R, class F>
void each(std::size_t const* ext, F const& f)
{
    std::size_t id[R == 0 ? 1 : R] = {};
    for (unsigned r = 0; r < R; ++r) if (ext[r] == 0) return;
    while (true) {
        f(id);
        unsigned r = 0;
        for (; r < R; ++r) { if (++id[r] < ext[r]) break; id[r] = 0; }
        if (r == R) return;
    }
}
} // namespace Impl
template <class D, class... P, class E, class... Q>
void deep_copy(View<D, P...> const& dst, View<E, Q...> const& src)
{
    using VD = View<D, P...>;
    using VS = View<E, Q...>;
    static_assert(VD::Rank == VS::Rank);
    static_assert(!std::is_const_v<typename VD::value_type>);
    constexpr unsigned R = VD::Rank;
    bool same = true;
    for (unsigned r = 0; r < R; ++r) {
        if (dst.m_ext[r] != src.m_ext[r]) throw std::runtime_error("Kokkos::deep_copy: extents of views do not match");
        if (dst.m_str[r] != src.m_str[r]) same = false;
    }
    if (static_cast<const void*>(dst.m_ptr) == static_cast<const void*>(src.m_ptr) && same) return;
    if (same && dst.span() == dst.size() && std::is_same_v<std::remove_const_t<typename VD::value_type>, std::remove_const_t<typename VS::value_type>>) {
        if (dst.size()) std::memcpy(const_cast<std::remove_const_t<typename VD::value_type>*>(dst.m_ptr), src.m_ptr, dst.size() * sizeof(typename VD::value_type));
        return;
    }
    Impl::each<R>(dst.m_ext, [&](std::size_t const* id) {
        std::size_t a = 0, b = 0;
        for (unsigned r = 0; r < R; ++r) { a += id[r] * dst.m_str[r]; b += id[r] * src.m_str[r]; }
        dst.m_ptr[a] = src.m_ptr[b];
    });
}
template <class D, class... P>
void deep_copy(View<D, P...> const& dst, typename View<D, P...>::non_const_value_type const& v)
{
    using VD = View<D, P...>;
    Impl::each<VD::Rank>(dst.m_ext, [&](std::size_t const* id) {
        std::size_t a = 0;
        for (unsigned r = 0; r < VD::Rank; ++r) a += id[r] * dst.m_str[r];
        dst.m_ptr[a] = v;
    });
}
template <class T, class E, class... Q>
    requires(std::is_arithmetic_v<T> && View<E, Q...>::Rank == 0)
void deep_copy(T& dst, View<E, Q...> const& src) { dst = *src.m_ptr; }
template <class Ex, class A, class B>
    requires(requires { typename Ex::execution_space; } && !is_view_v<Ex>)
void deep_copy(Ex const&, A const& a, B const& b) { deep_copy(a, b); }

template <class D, class... P>
typename View<D, P...>::HostMirror create_mirror(View<D, P...> const& v)
{
    typename View<D, P...>::HostMirror m;
    for (unsigned i = 0; i < View<D, P...>::Rank; ++i) m.m_ext[i] = v.m_ext[i];
    m.allocate(HxAlloc {v.label(), true});
    return m;
}
template <class D, class... P>
typename View<D, P...>::HostMirror create_mirror_view(View<D, P...> const& v)
{
    if constexpr (View<D, P...>::memory_space::hx_host && !std::is_const_v<typename View<D, P...>::value_type>) {
        return typename View<D, P...>::HostMirror(v);
    } else {
        return create_mirror(v);
    }
}
template <class D, class... P>
auto create_mirror_view(WithoutInitializing_t, View<D, P...> const& v) { return create_mirror_view(v); }
template <class Sp, class D, class... P>
auto create_mirror_view_and_copy(Sp const&, View<D, P...> const& v, std::string const& = "")
{
    using M = typename Sp::memory_space;
    using Out = View<typename View<D, P...>::non_const_data_type, typename View<D, P...>::array_layout, M>;
    if constexpr (std::is_same_v<M, typename View<D, P...>::memory_space> && !std::is_const_v<typename View<D, P...>::value_type>) {
        return Out(v);
    } else {
        Out m;
        for (unsigned i = 0; i < View<D, P...>::Rank; ++i) m.m_ext[i] = v.m_ext[i];
        m.allocate(HxAlloc {v.label(), true});
        deep_copy(m, v);
        return m;
    }
}
template <class V> void resize(V& v, std::size_t a)
{
    V n(v.label(), a);
    for (std::size_t i = 0; i < a && i < v.extent(0); ++i) n(i) = v(i);
    v = n;
}
template <class V, class... I> void realloc(V& v, I... n) { v = V(v.label(), n...); }

// ------------------------------------------------------------------- policies
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate A = Iterate::Default, Iterate B = Iterate::Default>
struct Rank { static constexpr unsigned rank = N; };
template <class I> struct IndexType { using type = I; };
template <class T> struct Schedule {};
struct Static {};
struct Dynamic {};
template <unsigned A, unsigned B = 0> struct LaunchBounds {};
namespace Impl {
template <class... P> struct find_rank { static constexpr unsigned value = 0; };
template <unsigned N, Iterate A, Iterate B, class... P> struct find_rank<Kokkos::Rank<N, A, B>, P...> { static constexpr unsigned value = N; };
template <class X, class... P> struct find_rank<X, P...> { static constexpr unsigned value = find_rank<P...>::value; };
template <class... P> struct find_index { using type = long long; };
template <class I, class... P> struct find_index<Kokkos::IndexType<I>, P...> { using type = I; };
template <class I, class... P>
    requires std::is_integral_v<I>
struct find_index<I, P...> { using type = I; };
template <class X, class... P>
    requires(!std::is_integral_v<X>)
struct find_index<X, P...> { using type = typename find_index<P...>::type; };
} // namespace Impl
template <class... P>
struct RangePolicy
{
    using index_type = typename Impl::find_index<P...>::type;
    using member_type = index_type;
    index_type b = 0, e = 0;
    template <class A, class B> requires(std::is_convertible_v<A, index_type> && std::is_convertible_v<B, index_type>)
    RangePolicy(A bb, B ee) : b(static_cast<index_type>(bb)), e(static_cast<index_type>(ee)) {}
    template <class Ex, class A, class B> requires(requires { typename Ex::execution_space; })
    RangePolicy(Ex const&, A bb, B ee) : b(static_cast<index_type>(bb)), e(static_cast<index_type>(ee)) {}
    index_type begin() const { return b; }
    index_type end() const { return e; }
    template <class F> void run(F const& f) const
    {
        int it = 0;
        for (index_type i = b; i < e; ++i) { hx_par_iter(it++); f(i); }
    }
};
RangePolicy(int, int) -> RangePolicy<int>;
template <class... P>
struct MDRangePolicy
{
    static constexpr unsigned rank = Impl::find_rank<P...>::value;
    using index_type = typename Impl::find_index<P...>::type;
    using array_index_type = long long;
    using point_type = Array<index_type, rank>;
    index_type m_lower[rank];
    index_type m_upper[rank];
    template <class A, class B>
        requires(requires(A const& a, B const& c) { a[0]; c[0]; } && !std::is_convertible_v<A, long long>)
    MDRangePolicy(A const& a, B const& c) { set(a, c); }
    template <class A, class B, class T>
        requires(requires(A const& a, B const& c) { a[0]; c[0]; } && !requires { typename A::execution_space; })
    MDRangePolicy(A const& a, B const& c, T const&) { set(a, c); }
    MDRangePolicy(point_type const& a, point_type const& c) { set(a, c); }
    template <class Ex, class A, class B>
        requires(requires { typename Ex::execution_space; })
    MDRangePolicy(Ex const&, A const& a, B const& c) { set(a, c); }
    template <class X, class Y>
        requires(std::is_integral_v<X> && std::is_integral_v<Y>)
    MDRangePolicy(std::initializer_list<X> a, std::initializer_list<Y> c)
    {
        for (unsigned i = 0; i < rank; ++i) { m_lower[i] = static_cast<index_type>(a.begin()[i]); m_upper[i] = static_cast<index_type>(c.begin()[i]); }
    }
    template <class A, class B> void set(A const& a, B const& c)
    {
        for (unsigned i = 0; i < rank; ++i) { m_lower[i] = static_cast<index_type>(a[i]); m_upper[i] = static_cast<index_type>(c[i]); }
    }
    template <class F> void run(F const& f) const
    {
        int it = 0;
        if constexpr (rank == 1) {
            for (index_type i = m_lower[0]; i < m_upper[0]; ++i) { hx_par_iter(it++); f(i); }
        } else if constexpr (rank == 2) {
            for (index_type j = m_lower[1]; j < m_upper[1]; ++j)
                for (index_type i = m_lower[0]; i < m_upper[0]; ++i) { hx_par_iter(it++); f(i, j); }
        } else if constexpr (rank == 3) {
            for (index_type k = m_lower[2]; k < m_upper[2]; ++k)
                for (index_type j = m_lower[1]; j < m_upper[1]; ++j)
                    for (index_type i = m_lower[0]; i < m_upper[0]; ++i) { hx_par_iter(it++); f(i, j, k); }
        } else if constexpr (rank == 4) {
            for (index_type l = m_lower[3]; l < m_upper[3]; ++l)
                for (index_type k = m_lower[2]; k < m_upper[2]; ++k)
                    for (index_type j = m_lower[1]; j < m_upper[1]; ++j)
                        for (index_type i = m_lower[0]; i < m_upper[0]; ++i) { hx_par_iter(it++); f(i, j, k, l); }
        } else if constexpr (rank == 5) {
            for (index_type m = m_lower[4]; m < m_upper[4]; ++m)
                for (index_type l = m_lower[3]; l < m_upper[3]; ++l)
                    for (index_type k = m_lower[2]; k < m_upper[2]; ++k)
                        for (index_type j = m_lower[1]; j < m_upper[1]; ++j)
                            for (index_type i = m_lower[0]; i < m_upper[0]; ++i) { hx_par_iter(it++); f(i, j, k, l, m); }
        } else {
            static_assert(rank <= 5 && rank >= 1);
        }
    }
};
namespace Impl {
template <class T> concept Policy = requires(T const& p) { p.run([](auto...) {}); } || requires { typename T::index_type; };
template <class T> auto as_policy(T const& p)
{
    if constexpr (std::is_integral_v<T>) return RangePolicy<IndexType<T>>(T(0), p);
    else return p;
}
} // namespace Impl

template <class Pol, class F>
    requires(!std::is_convertible_v<Pol, std::string>)
void parallel_for(Pol const& p, F const& f)
{
    hx_par_begin();
    Impl::as_policy(p).run(f);
    hx_par_end();
}
template <class Pol, class F> void parallel_for(std::string const&, Pol const& p, F const& f) { parallel_for(p, f); }

// ------------------------------------------------------------------- reducers
template <class T> struct reduction_identity
{
    static constexpr T sum() { return T(0); }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return std::numeric_limits<T>::lowest(); }
    static constexpr T min() { return std::numeric_limits<T>::max(); }
};
#define HX_REDUCER(NAME, INIT, JOIN)                                                                     \
    template <class T, class Sp = HostSpace>                                                             \
    struct NAME                                                                                          \
    {                                                                                                    \
        using reducer = NAME;                                                                            \
        using value_type = std::remove_cv_t<T>;                                                          \
        value_type* v;                                                                                   \
        explicit NAME(value_type& x) : v(&x) {}                                                          \
        template <class... P> explicit NAME(View<T, P...> const& w) : v(w.data()) {}                     \
        static void init(value_type& x) { x = INIT; }                                                    \
        static void join(value_type& a, value_type const& b) { JOIN; }                                   \
        value_type& reference() const { return *v; }                                                     \
    };                                                                                                   \
    template <class T, class... P> NAME(View<T, P...> const&) -> NAME<T>;
HX_REDUCER(Sum, value_type(0), a += b)
HX_REDUCER(Prod, value_type(1), a *= b)
HX_REDUCER(Max, reduction_identity<value_type>::max(), if (a < b) a = b)
HX_REDUCER(Min, reduction_identity<value_type>::min(), if (b < a) a = b)
HX_REDUCER(LAnd, value_type(1), a = a && b)
HX_REDUCER(LOr, value_type(0), a = a || b)
#undef HX_REDUCER
namespace Impl {
template <class T> concept Reducer = requires { typename T::reducer; };
template <class R> auto as_reducer(R& r)
{
    if constexpr (Reducer<std::remove_cvref_t<R>>) return r;
    else if constexpr (is_view_v<std::remove_cvref_t<R>>) return Sum<typename std::remove_cvref_t<R>::value_type>(r);
    else return Sum<R>(r);
}
} // namespace Impl
template <class Pol, class F, class... R>
    requires(!std::is_convertible_v<Pol, std::string> && sizeof...(R) >= 1)
void parallel_reduce(Pol const& p, F const& f, R&&... r)
{
    auto reds = std::make_tuple(Impl::as_reducer(r)...);
    std::apply([&](auto&... red) {
        auto tot = std::make_tuple(typename std::remove_cvref_t<decltype(red)>::value_type()...);
        std::apply([&](auto&... t) {
            (red.init(t), ...);
            hx_par_begin();
            Impl::as_policy(p).run([&](auto... idx) {
                // every iteration gets its own accumulator: the result may not depend on the order
                auto loc = std::make_tuple(typename std::remove_cvref_t<decltype(red)>::value_type()...);
                std::apply([&](auto&... l) {
                    (red.init(l), ...);
                    f(idx..., l...);
                    hx_par_iter(-1);
                    (red.join(t, l), ...);
                }, loc);
            });
            hx_par_end();
            ((red.reference() = t), ...);
        }, tot);
    }, reds);
}
template <class Pol, class F, class... R>
void parallel_reduce(std::string const&, Pol const& p, F const& f, R&&... r) { parallel_reduce(p, f, std::forward<R>(r)...); }

template <class Pol, class F, class T>
    requires(!std::is_convertible_v<Pol, std::string>)
void parallel_scan(Pol const& p, F const& f, T& total)
{
    T pre = T();
    Impl::as_policy(p).run([&](auto i) { f(i, pre, false); });
    T acc = T();
    Impl::as_policy(p).run([&](auto i) { f(i, acc, true); });
    total = acc;
}
namespace Impl {
template <class F> struct scan_arg;
template <class C, class I, class T, class B> struct scan_arg<void (C::*)(I, T&, B) const> { using type = T; };
template <class C, class I, class T, class B> struct scan_arg<void (C::*)(I, T&, B)> { using type = T; };
} // namespace Impl
template <class Pol, class F>
    requires(!std::is_convertible_v<Pol, std::string>)
void parallel_scan(Pol const& p, F const& f)
{
    typename Impl::scan_arg<decltype(&F::operator())>::type t {};
    parallel_scan(p, f, t);
}
template <class Pol, class F> void parallel_scan(std::string const&, Pol const& p, F const& f) { parallel_scan(p, f); }
template <class Pol, class F, class T> void parallel_scan(std::string const&, Pol const& p, F const& f, T& t) { parallel_scan(p, f, t); }

// ----------------------------------------------------------------------- math
#define HX_M1(f) inline double f(double x) { return ::f(x); } inline float f(float x) { return static_cast<float>(::f(static_cast<double>(x))); } \
    template <class I> requires std::is_integral_v<I> double f(I x) { return ::f(static_cast<double>(x)); }
HX_M1(sqrt) HX_M1(exp) HX_M1(log) HX_M1(log10) HX_M1(log2) HX_M1(exp2) HX_M1(expm1) HX_M1(log1p) HX_M1(sin) HX_M1(cos) HX_M1(tan) HX_M1(asin) HX_M1(acos)
HX_M1(atan) HX_M1(sinh) HX_M1(cosh) HX_M1(tanh) HX_M1(cbrt) HX_M1(floor) HX_M1(ceil) HX_M1(round) HX_M1(trunc) HX_M1(fabs) HX_M1(rint)
#undef HX_M1
#define HX_M2(f) template <class A, class B> requires(std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) double f(A x, B y) { return ::f(static_cast<double>(x), static_cast<double>(y)); }
HX_M2(pow) HX_M2(fmin) HX_M2(fmax) HX_M2(atan2) HX_M2(hypot) HX_M2(fmod) HX_M2(copysign) HX_M2(fdim)
#undef HX_M2
inline double fma(double a, double b, double c) { return ::fma(a, b, c); }
inline double rsqrt(double x) { return 1. / ::sqrt(x); }
inline int abs(int x) { return x < 0 ? -x : x; }
inline long abs(long x) { return x < 0 ? -x : x; }
inline long long abs(long long x) { return x < 0 ? -x : x; }
inline void (*hx_abs_hook)() = nullptr; // lets a harness bound the number of iterations of a convergence loop
inline double abs(double x) { if (hx_abs_hook) hx_abs_hook(); return ::fabs(x); }
inline float abs(float x) { return x < 0 ? -x : x; }
template <class T> bool isfinite(T x) { return __builtin_isfinite(static_cast<double>(x)); }
template <class T> bool isnan(T x) { return __builtin_isnan(static_cast<double>(x)); }
template <class T> bool isinf(T x) { return __builtin_isinf(static_cast<double>(x)); }
template <class T> bool signbit(T x) { return x < 0; }
template <class T> constexpr T const& max(T const& a, T const& b) { return a < b ? b : a; }
template <class T> constexpr T const& min(T const& a, T const& b) { return b < a ? b : a; }
template <class T> constexpr T max(std::initializer_list<T> l) { T r = *l.begin(); for (auto const& x : l) if (r < x) r = x; return r; }
template <class T> constexpr T min(std::initializer_list<T> l) { T r = *l.begin(); for (auto const& x : l) if (x < r) r = x; return r; }
template <class T> constexpr T const& clamp(T const& v, T const& lo, T const& hi) { return v < lo ? lo : hi < v ? hi : v; }
template <class T> constexpr void kokkos_swap(T& a, T& b) { T t = a; a = b; b = t; }
template <class T> constexpr pair<T, T> minmax(T const& a, T const& b) { return b < a ? pair<T, T>(b, a) : pair<T, T>(a, b); }
namespace numbers {
template <class T> inline constexpr T pi_v = T(3.141592653589793238462643383279502884L);
template <class T> inline constexpr T e_v = T(2.718281828459045235360287471352662498L);
template <class T> inline constexpr T ln2_v = T(0.693147180559945309417232121458176568L);
template <class T> inline constexpr T ln10_v = T(2.302585092994045684017991454684364208L);
template <class T> inline constexpr T sqrt2_v = T(1.414213562373095048801688724209698079L);
template <class T> inline constexpr T sqrt3_v = T(1.732050807568877293527446341505872367L);
template <class T> inline constexpr T inv_pi_v = T(0.318309886183790671537767526745028724L);
inline constexpr double pi = pi_v<double>, e = e_v<double>, ln2 = ln2_v<double>, ln10 = ln10_v<double>, sqrt2 = sqrt2_v<double>, sqrt3 = sqrt3_v<double>, inv_pi = inv_pi_v<double>;
} // namespace numbers
namespace Experimental {
template <class T> struct infinity { static constexpr T value = std::numeric_limits<T>::infinity(); };
template <class T> inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template <class T> inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template <class T> inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template <class T> inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template <class T> inline constexpr T norm_min_v = std::numeric_limits<T>::min();
template <class T> inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
} // namespace Experimental

// ----------------------------------------------------------------------- misc
template <class T> inline void atomic_add(T* p, T v) { *p += v; }
template <class T> inline T atomic_fetch_add(T* p, T v) { T o = *p; *p += v; return o; }
template <class... A> inline void printf(const char* f, A... a) { if constexpr (sizeof...(A) == 0) ::printf("%s", f); else ::printf(f, a...); }
[[noreturn]] inline void abort(const char* = "") { std::abort(); }
inline void fence(std::string const& = "") {}
inline void initialize(int&, char**) {}
inline void initialize() {}
inline void finalize() {}
inline bool is_initialized() { return true; }
struct InitializationSettings {};
struct ScopeGuard { template <class... A> explicit ScopeGuard(A&&...) {} };
template <class OS> void print_configuration(OS&, bool = false) {}
struct Timer { double seconds() const { return 0; } void reset() {} };
namespace Profiling {
inline void pushRegion(std::string const&) {}
inline void popRegion() {}
struct ScopedRegion { explicit ScopedRegion(std::string const&) {} };
} // namespace Profiling
namespace Tools {}
} // namespace Kokkos
template <class T, std::size_t N> struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N> {};
template <std::size_t I, class T, std::size_t N> struct std::tuple_element<I, Kokkos::Array<T, N>> { using type = T; };
