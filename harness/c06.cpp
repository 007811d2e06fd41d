// C06: loads.
#include "common.hpp"
using namespace h;
using T = VT;
#ifdef SIZES
using ABIS = size_abis<T, SIZES>;
#else
using ABIS = abis<T>;
#endif
static Guard &guard() { static Guard g; return g; }

// Where the source array lies relative to inaccessible pages.  lo/hi: first and last index that may be touched.
template<class U> const U *place(const U *src, std::size_t n, std::size_t lo, std::size_t hi, unsigned where, std::size_t align)
{
    Guard &g = guard();
    std::memset(g.begin_at(), 0xa5, Guard::area);
    unsigned char *p;
    if (where == 0) p = g.end_at((hi + 1) * sizeof(U));              // element hi ends at the last accessible byte
    else if (where == 1) p = g.begin_at() - lo * sizeof(U);          // element lo starts at the first accessible byte
    else p = g.begin_at() + 64 * 3 + (where - 2) * sizeof(U);
    if (align > 1)
    {
        p = where == 1 ? g.begin_at() : reinterpret_cast<unsigned char *>(reinterpret_cast<std::uintptr_t>(p) / align * align);
    }
    for (std::size_t i = 0; i < n; ++i)
        if (p + i * sizeof(U) >= g.begin_at() && p + (i + 1) * sizeof(U) <= g.begin_at() + Guard::area) std::memcpy(p + i * sizeof(U), src + i, sizeof(U));
    return reinterpret_cast<const U *>(p);
}
template<class X, class U, class Flags> [[gnu::noinline]] X do_load(const U *p, const X &old, const typename X::mask_type &m, unsigned api)
{
    switch (api)
    {
    case 0: { X x(p, Flags{}); return x; }
    case 1: { X x = old; x.copy_from(p, Flags{}); return x; }
    case 2: { X x = old; x.copy_from(p, m, Flags{}); return x; }
    default: { X x(p, m, Flags{}); return x; }
    }
}
template<class X, class U> void load_case(Tape &t, Case &c)
{
    using E = typename X::value_type;
    using MT = typename X::mask_type;
    constexpr std::size_t N = X::size();
    unsigned api = unsigned(t.below(4));
#ifdef __SANITIZE_ADDRESS__
    if (api == 3 && std::is_same_v<typename X::value_type, bool>) api = 2; // the lanes a masked construction leaves out hold no value to look at
#endif
    const unsigned flag = unsigned(t.below(3)), where = unsigned(t.below(5));
    std::array<U, N> src{};
    const unsigned shape = unsigned(t.below(8));
    for (std::size_t i = 0; i < N; ++i)
        if (shape == 7 && i) src[i] = src[0];
        else if constexpr (std::is_same_v<U, bool>) src[i] = t.next() & 1;
        else src[i] = gen_castable<E, U>(t);
    std::array<E, N> old{};
    for (auto &x : old) x = gen<E>(t);
    const auto mask = gen_mask<N>(t);
    const u64 k = t.next();
    c.mixv(api); c.mixv(flag); c.mixv(where); c.mixv(src); c.mixv(mask);
    c.nontrivial = N == 1 || !uniform(src);
    static const char *an[] = {"construct", "copy_from", "masked copy_from", "masked construct"}, *fn[] = {"element_aligned", "vector_aligned", "overaligned<64>"}, *wn[] = {"up to an unmapped page", "right after an unmapped page", "at offset 0", "at offset 1", "at offset 2"};
    c.cls = an[api];
    if (c.want_desc) c.desc = std::string(an[api]) + " " + fn[flag] + " from " + ty_name(ty_of<U>()) + " " + wn[where] + " src=" + show_arr(src) + (api >= 2 ? " mask=" + show_arr(mask) : "") + (api ? " old=" + show_arr(old) : "");
    std::size_t lo = 0, hi = N - 1;
    if (api >= 2) // only the selected elements may be touched
    {
        bool any = false;
        for (std::size_t i = 0; i < N; ++i) if (mask[i]) { if (!any) lo = i; hi = i; any = true; }
        if (!any) { lo = 0; hi = 0; }
    }
    std::size_t align = 1;
    if (flag == 1) { if constexpr (is_simd<X>::value && !std::is_same_v<U, bool>) align = dpm::memory_alignment_v<X, U>; else align = 64; }
    if (flag == 2) align = 64;
    const U *p = place(src.data(), N, lo, hi, where, align);
    const X o = mk<X>(old, k);
    const MT m = mk<MT>(mask, k >> 8);
    X r = o;
    switch (flag)
    {
    case 0: r = do_load<X, U, dpm::element_aligned_tag>(p, o, m, api); break;
    case 1: r = do_load<X, U, dpm::vector_aligned_tag>(p, o, m, api); break;
    default: r = do_load<X, U, dpm::overaligned_tag<64>>(p, o, m, api); break;
    }
    const auto g = arr(r, k >> 16);
    for (std::size_t i = 0; i < N; ++i)
    {
        if (api == 3 && !mask[i]) continue; // unspecified
        const E e = api == 2 && !mask[i] ? old[i] : static_cast<E>(src[i]);
        if (!eqv<E>(g[i], e)) { c.fail(std::string(an[api]) + " " + fn[flag] + ": lane " + std::to_string(i) + " of " + std::to_string(N) + " is " + show(g[i]) + " expected " + show(e) + " from " + show(src[i])); return; }
    }
}
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    using M = dpm::simd_mask<T, A>;
    for_types(tlist<i8, u8, i16, u16, i32, u32, i64, u64, f32, f64>{}, []<class U>() {
        static const std::string n = std::string("load_") + ty_name(ty_of<U>());
        sub<T, A>(n.c_str(), load_case<S, U>, std::is_same_v<T, U> ? 300 : 100);
    });
    sub<T, A>("mask_load_bool", load_case<M, bool>, 200);
    sub<T, A>("mask_load_i32", load_case<M, i32>);
}
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A>(); }); })
