// C12: horizontal reductions.
#include "common.hpp"
using namespace h;
template<class T> void exact(Case &c, const char *what, T got, std::type_identity_t<T> exp) { if (!eqv<T>(got, exp)) c.fail(std::string(what) + " is " + show(got) + " expected " + show(exp)); }
template<class T> void value(Case &c, const char *what, T got, std::type_identity_t<T> exp) { if (!(got == exp) && !eqv<T>(got, exp)) c.fail(std::string(what) + " is " + show(got) + " expected " + show(exp)); }
// T is a parameter so that the branch for the other kind of element is never instantiated
template<class A, class T> void reg()
{
    constexpr bool FP = std::is_floating_point_v<T>;
    using S = dpm::simd<T, A>;
    constexpr std::size_t N = S::size();
    if constexpr (!FP)
        sub<T, A>("integer", +[](Tape &t, Case &c) {
            const auto x = gen_lanes<T, N>(t);
            const u64 k = t.next();
            c.mixv(x); c.nontrivial = N == 1 || !uniform(x);
            if (c.want_desc) c.desc = show_arr(x);
            const S v = mk<S>(x, k);
            auto fold = [&](auto f) { T r = x[0]; for (std::size_t i = 1; i < N; ++i) r = f(r, x[i]); return r; };
            auto mul = [](T a, T b) -> T { return mulw(a, b); };
            auto add = [](T a, T b) -> T { return addw(a, b); };
            exact(c, "reduce", dpm::reduce(v), fold(add));
            exact(c, "reduce(plus)", dpm::reduce(v, std::plus<>{}), fold(add));
            exact(c, "reduce(plus<T>)", dpm::reduce(v, std::plus<T>{}), fold(add));
            // std::multiplies on signed 32/64-bit (and on 16-bit after promotion) overflows in the scalar reference; odd small factors do not
            if constexpr (std::is_unsigned_v<T> && sizeof(T) != 2) exact(c, "reduce(multiplies)", dpm::reduce(v, std::multiplies<>{}), fold(mul));
            exact(c, "reduce(bit_and)", dpm::reduce(v, std::bit_and<>{}), fold([](T a, T b) -> T { return T(a & b); }));
            exact(c, "reduce(bit_or)", dpm::reduce(v, std::bit_or<>{}), fold([](T a, T b) -> T { return T(a | b); }));
            exact(c, "reduce(bit_xor)", dpm::reduce(v, std::bit_xor<>{}), fold([](T a, T b) -> T { return T(a ^ b); }));
            exact(c, "hand", dpm::ext::hand(v), fold([](T a, T b) -> T { return T(a & b); }));
            exact(c, "hor", dpm::ext::hor(v), fold([](T a, T b) -> T { return T(a | b); }));
            exact(c, "hxor", dpm::ext::hxor(v), fold([](T a, T b) -> T { return T(a ^ b); }));
            exact(c, "hadd", dpm::ext::hadd(v), fold(add));
            exact(c, "reduce_min", dpm::reduce_min(v), fold([](T a, T b) { return b < a ? b : a; }));
            exact(c, "reduce_max", dpm::reduce_max(v), fold([](T a, T b) { return a < b ? b : a; }));
            exact(c, "reduce(wrapping product by function)", dpm::reduce(v, mul), fold(mul));
            exact(c, "reduce(xnor by generic function)", dpm::reduce(v, [](auto a, auto b) -> T { return T(~(a ^ b)); }), fold([](T a, T b) -> T { return T(~(a ^ b)); }));
            exact(c, "reduce(function of one-element vectors)", dpm::reduce(v, [](const dpm::simd<T, abi::scalar> &a, const dpm::simd<T, abi::scalar> &b) { return a ^ b; }), fold([](T a, T b) -> T { return T(a ^ b); }));
            // products that do not overflow: mostly +-1 and a few 2s
            std::array<T, N> y = x;
            unsigned twos = 0;
            for (auto &e : y) { const u64 w = t.next(); e = w % 8 == 0 && twos < 5 ? (++twos, T(2)) : std::is_signed_v<T> && w % 8 < 4 ? T(-1) : T(1); if (w % 64 == 63) e = 0; }
            c.mixv(y);
            const S u = mk<S>(y, k >> 8);
            T p = y[0]; for (std::size_t i = 1; i < N; ++i) p = T(p * y[i]);
            exact(c, "reduce(multiplies) of small factors", dpm::reduce(u, std::multiplies<>{}), p);
            exact(c, "hmul of small factors", dpm::ext::hmul(u), p);
        });
    if constexpr (FP)
    {
        sub<T, A>("minmax", +[](Tape &t, Case &c) {
            auto x = gen_lanes<T, N>(t);
            for (auto &e : x) if (e != e) e = std::copysign(std::numeric_limits<T>::infinity(), e);
            const u64 k = t.next();
            c.mixv(x); c.nontrivial = N == 1 || !uniform(x);
            if (c.want_desc) c.desc = show_arr(x);
            const S v = mk<S>(x, k);
            T lo = x[0], hi = x[0]; for (auto e : x) { if (e < lo) lo = e; if (hi < e) hi = e; }
            value(c, "reduce_min", dpm::reduce_min(v), lo);
            value(c, "reduce_max", dpm::reduce_max(v), hi);
        });
        sub<T, A>("exact", +[](Tape &t, Case &c) { // all bracketings agree: small integers; powers of two; one kind of infinity
            std::array<T, N> x, y;
            const unsigned inf = unsigned(t.below(4));
            for (std::size_t i = 0; i < N; ++i) { const u64 w = t.next(); x[i] = T(int(w % 4097) - 2048); y[i] = std::ldexp(w & 1 ? T(-1) : T(1), int(w >> 8) % 3 - 1); }
            if (inf == 1) x[t.below(N)] = std::numeric_limits<T>::infinity();
            if (inf == 2) x[t.below(N)] = -std::numeric_limits<T>::infinity();
            if (inf == 3) { x[t.below(N)] = std::numeric_limits<T>::quiet_NaN(); y[t.below(N)] = std::numeric_limits<T>::infinity(); }
            const u64 k = t.next();
            c.mixv(x); c.mixv(y); c.nontrivial = N == 1 || !uniform(x);
            c.cls = inf ? "with a non-finite element" : "finite";
            if (c.want_desc) c.desc = show_arr(x) + " / " + show_arr(y);
            const S v = mk<S>(x, k), u = mk<S>(y, k >> 8);
            T s = 0, p = 1; for (std::size_t i = 0; i < N; ++i) { s += x[i]; p *= y[i]; }
            value(c, "reduce", dpm::reduce(v), s);
            value(c, "reduce(plus<T>)", dpm::reduce(v, std::plus<T>{}), s);
            value(c, "hadd", dpm::ext::hadd(v), s);
            value(c, "reduce(multiplies)", dpm::reduce(u, std::multiplies<>{}), p);
            value(c, "hmul", dpm::ext::hmul(u), p);
            value(c, "reduce(sum by function)", dpm::reduce(v, [](T a, T b) { return a + b; }), s);
            value(c, "reduce(product by generic function)", dpm::reduce(u, [](auto a, auto b) { return a * b; }), p);
        });
        sub<T, A>("bounded", +[](Tape &t, Case &c) {
            std::array<T, N> x, y;
            for (std::size_t i = 0; i < N; ++i) { x[i] = gen<T>(t, Dom::moderate); y[i] = T(1) + gen<T>(t, Dom::unit) / 4; if (!std::isfinite(y[i])) y[i] = T(0.75); y[i] = std::clamp(y[i], T(0.5), T(1.75)); }
            const u64 k = t.next();
            c.mixv(x); c.mixv(y); c.nontrivial = N == 1 || !uniform(x);
            if (c.want_desc) c.desc = show_arr(x) + " / " + show_arr(y);
            const S v = mk<S>(x, k), u = mk<S>(y, k >> 8);
            long double s = 0, sa = 0, p = 1;
            for (std::size_t i = 0; i < N; ++i) { s += x[i]; sa += std::fabs((long double) x[i]); p *= y[i]; }
            const long double eps = std::numeric_limits<T>::epsilon();
            auto near = [&](const char *w, T got, long double e, long double tol) { if (!(std::fabs(got - e) <= tol)) c.fail(std::string(w) + " is " + show(got) + " expected " + show(T(e)) + " within " + std::to_string((double) (tol / eps)) + " eps"); };
            near("reduce", dpm::reduce(v), s, N * eps * sa);
            near("reduce(multiplies)", dpm::reduce(u, std::multiplies<>{}), p, N * eps * std::fabs(p));
            near("reduce(sum by function)", dpm::reduce(v, [](T a, T b) { return a + b; }), s, N * eps * sa);
        });
    }
}
#ifdef SIZES
using ABIS = size_abis<VT, SIZES>;
#else
using ABIS = abis<VT>;
#endif
H_MAIN(+[] { for_types(ABIS{}, []<class A>() { reg<A, VT>(); }); })
