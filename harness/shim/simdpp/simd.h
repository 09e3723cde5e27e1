#pragma once
// A small stand-in for libsimdpp, which is not installed here. It implements the few vector types
// and functions that pybinding uses, element by element, following libsimdpp's documentation.
// PBT_SIMD_NULL selects the generic code of pybinding, otherwise the instruction set for which the
// file is compiled is reported, just like libsimdpp does.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <x86intrin.h>

#if defined(PBT_SIMD_NULL)
# define SIMDPP_USE_NULL 1
# define SIMDPP_USE_SSE2 0
# define SIMDPP_USE_SSE3 0
# define SIMDPP_USE_AVX 0
# define SIMDPP_USE_AVX2 0
# define SIMDPP_USE_FMA3 0
#else
# define SIMDPP_USE_NULL 0
# define SIMDPP_USE_SSE2 1
# ifdef __SSE3__
#  define SIMDPP_USE_SSE3 1
# else
#  define SIMDPP_USE_SSE3 0
# endif
# ifdef __AVX__
#  define SIMDPP_USE_AVX 1
# else
#  define SIMDPP_USE_AVX 0
# endif
# ifdef __AVX2__
#  define SIMDPP_USE_AVX2 1
# else
#  define SIMDPP_USE_AVX2 0
# endif
# ifdef __FMA__
#  define SIMDPP_USE_FMA3 1
# else
#  define SIMDPP_USE_FMA3 0
# endif
#endif

namespace simdpp {

constexpr unsigned pbt_register_bytes = SIMDPP_USE_AVX ? 32 : 16;

namespace pbt {
    inline void misaligned(void const* p) {
        std::fprintf(stderr, "aligned vector access at the misaligned address %p\n", p);
        std::abort();
    }
    inline void need_aligned(void const* p, std::size_t bytes) {
        if (reinterpret_cast<std::uintptr_t>(p) % bytes != 0) { misaligned(p); }
    }
    template<class T, unsigned N> struct Native { struct None {}; using type = None; };
    template<> struct Native<float, 4> { using type = __m128; };
    template<> struct Native<double, 2> { using type = __m128d; };
#if SIMDPP_USE_AVX
    template<> struct Native<float, 8> { using type = __m256; };
    template<> struct Native<double, 4> { using type = __m256d; };
#endif
}

#define PBT_SIMD_VECTOR(name, T)                                                                   \
    template<unsigned N, class E = void> class name;                                               \
    template<unsigned N> class alignas(N * sizeof(T) < 32 ? N * sizeof(T) : 32) name<N, void> {    \
        T d[N];                                                                                    \
    public:                                                                                        \
        using element_type = T;                                                                    \
        static constexpr unsigned base_length = pbt_register_bytes / sizeof(T);                    \
        static constexpr unsigned length = N;                                                      \
        static constexpr unsigned vec_length = N < base_length ? 1 : N / base_length;              \
        using base_vector_type = name<base_length, void>;                                          \
        using native = typename pbt::Native<T, N>::type;                                           \
        name() = default;                                                                          \
        name(native const& x) { std::memcpy(d, &x, sizeof(d)); }                                   \
        operator native() const { native x; std::memcpy(&x, d, sizeof(d)); return x; }             \
        T& operator[](unsigned i) { return d[i]; }                                                 \
        T operator[](unsigned i) const { return d[i]; }                                            \
        base_vector_type& vec(unsigned i) { return reinterpret_cast<base_vector_type*>(d)[i]; }    \
        base_vector_type const& vec(unsigned i) const {                                            \
            return reinterpret_cast<base_vector_type const*>(d)[i];                                \
        }                                                                                          \
        name const& eval() const { return *this; }                                                 \
    };

PBT_SIMD_VECTOR(float32, float)
PBT_SIMD_VECTOR(float64, double)
PBT_SIMD_VECTOR(uint32, std::uint32_t)
PBT_SIMD_VECTOR(uint64, std::uint64_t)
#undef PBT_SIMD_VECTOR

using float32x4 = float32<4>;
using float32x8 = float32<8>;
using float64x2 = float64<2>;
using float64x4 = float64<4>;

// aligned and unaligned access
namespace pbt {
    template<class V> constexpr std::size_t access_alignment() {
        return sizeof(V) < pbt_register_bytes ? sizeof(V) : pbt_register_bytes;
    }
}
template<class V> V load_u(void const* p) { V r; std::memcpy(&r, p, sizeof(V)); return r; }
template<class V> V load(void const* p) {
    pbt::need_aligned(p, pbt::access_alignment<V>());
    return load_u<V>(p);
}
template<class V> void store_u(void* p, V const& v) { std::memcpy(p, &v, sizeof(V)); }
template<class V> void store(void* p, V const& v) {
    pbt::need_aligned(p, pbt::access_alignment<V>());
    store_u(p, v);
}
template<class V> V load_splat(void const* p) {
    typename V::element_type x;
    std::memcpy(&x, p, sizeof(x));
    V r;
    for (unsigned i = 0; i < V::length; ++i) { r[i] = x; }
    return r;
}

#define PBT_SIMD_ARITHMETIC(name, T)                                                               \
    template<unsigned N> name<N> operator+(name<N> const& a, name<N> const& b) {                   \
        name<N> r; for (unsigned i = 0; i < N; ++i) { r[i] = a[i] + b[i]; } return r; }            \
    template<unsigned N> name<N> operator-(name<N> const& a, name<N> const& b) {                   \
        name<N> r; for (unsigned i = 0; i < N; ++i) { r[i] = a[i] - b[i]; } return r; }            \
    template<unsigned N> name<N> operator*(name<N> const& a, name<N> const& b) {                   \
        name<N> r; for (unsigned i = 0; i < N; ++i) { r[i] = a[i] * b[i]; } return r; }            \
    template<unsigned N> name<N> operator*(T a, name<N> const& b) {                                \
        name<N> r; for (unsigned i = 0; i < N; ++i) { r[i] = a * b[i]; } return r; }               \
    template<unsigned N> name<N> operator*(name<N> const& a, T b) { return b * a; }                \
    template<unsigned N> name<N> fmadd(name<N> const& a, name<N> const& b, name<N> const& c) {     \
        name<N> r; for (unsigned i = 0; i < N; ++i) { r[i] = a[i] * b[i] + c[i]; } return r; }     \
    template<unsigned N> name<N> neg(name<N> const& a) {                                           \
        name<N> r; for (unsigned i = 0; i < N; ++i) { r[i] = -a[i]; } return r; }                  \
    template<unsigned N> T reduce_add(name<N> const& a) {                                          \
        T r = 0; for (unsigned i = 0; i < N; ++i) { r += a[i]; } return r; }                       \
    template<unsigned s0, unsigned s1, unsigned N> name<N> permute2(name<N> const& a) {            \
        name<N> r;                                                                                 \
        for (unsigned i = 0; i < N; i += 2) { r[i] = a[i + s0]; r[i + 1] = a[i + s1]; }            \
        return r; }                                                                                \
    template<unsigned s0, unsigned s1, unsigned s2, unsigned s3, unsigned N>                       \
    name<N> shuffle4x2(name<N> const& a, name<N> const& b) {                                       \
        constexpr unsigned s[] = {s0, s1, s2, s3};                                                 \
        name<N> r;                                                                                 \
        for (unsigned i = 0; i < N; ++i) {                                                         \
            auto const k = s[i % 4];                                                               \
            r[i] = k < 4 ? a[i / 4 * 4 + k] : b[i / 4 * 4 + k - 4];                                \
        }                                                                                          \
        return r; }                                                                                \
    template<unsigned N> void transpose2(name<N>& a, name<N>& b) {                                 \
        for (unsigned i = 0; i < N; i += 2) {                                                      \
            auto const t = a[i + 1]; a[i + 1] = b[i]; b[i] = t; } }

PBT_SIMD_ARITHMETIC(float32, float)
PBT_SIMD_ARITHMETIC(float64, double)
#undef PBT_SIMD_ARITHMETIC

template<class V, class... T> V make_float(T... xs) {
    typename V::element_type const values[] = {static_cast<typename V::element_type>(xs)...};
    V r;
    for (unsigned i = 0; i < V::length; ++i) { r[i] = values[i % sizeof...(T)]; }
    return r;
}
template<class V, class... T> V make_uint(T... xs) { return make_float<V>(xs...); }

template<class To, class From> To bit_cast(From const& x) {
    static_assert(sizeof(To) == sizeof(From), "");
    To r;
    std::memcpy(&r, &x, sizeof(r));
    return r;
}

template<unsigned N> float32<N> bit_xor(float32<N> const& a, uint32<N> const& b) {
    auto r = bit_cast<uint32<N>>(a);
    for (unsigned i = 0; i < N; ++i) { r[i] ^= b[i]; }
    return bit_cast<float32<N>>(r);
}
template<unsigned N> float64<N> bit_xor(float64<N> const& a, uint64<N> const& b) {
    auto r = bit_cast<uint64<N>>(a);
    for (unsigned i = 0; i < N; ++i) { r[i] ^= b[i]; }
    return bit_cast<float64<N>>(r);
}

} // namespace simdpp
