// C24: a lane's result depends on that lane's operands only.
#include "mcommon.hpp"
using namespace h;
template<class X> auto to_arrays(const X &x, u64 k)
{
    if constexpr (requires { std::tuple_size<X>::value; }) return std::apply([&](const auto &...e) { return std::tuple{arr(e, k)...}; }, x);
    else return std::tuple{arr(x, k)};
}
template<class T, class A, class Op, Dom D, class... Args> struct lane_case
{
    static constexpr std::size_t N = dpm::simd<T, A>::size();
    using In = std::tuple<std::array<typename Args::elem, N>...>;
    template<std::size_t... I> static auto eval(const In &x, u64 k, std::index_sequence<I...>)
    {
        return to_arrays(Op{}(Args::template load<A>(std::get<I>(x).data(), Tape::mix(k + I))...), k >> 9);
    }
    static auto eval(const In &x, u64 k) { return eval(x, k, std::index_sequence_for<Args...>{}); }
    template<class F> static void each(In &x, F f) { std::apply([&](auto &...e) { (f(e), ...); }, x); }
    template<class R, std::size_t... I> static void same(Case &c, const char *what, const R &got, std::size_t i, const R &want, std::size_t j, const In &x, std::index_sequence<I...>)
    {
        auto one = [&](const auto &g, const auto &w) {
            if (eqv(g[i], w[j])) return;
            std::string ops;
            std::apply([&](const auto &...e) { ((ops += " " + show(e[j])), ...); }, x);
            c.fail(std::string(what) + ": for the operands" + ops + " lane " + std::to_string(j) + " gives " + show(w[j]) + ", but as lane " + std::to_string(i) + " gives " + show(g[i]));
        };
        (one(std::get<I>(got), std::get<I>(want)), ...);
    }
    template<class R> static void same(Case &c, const char *what, const R &got, std::size_t i, const R &want, std::size_t j, const In &x) { same(c, what, got, i, want, j, x, std::make_index_sequence<std::tuple_size_v<R>>{}); }
    static void run(Tape &t, Case &c)
    {
        In x, y, z;
        each(x, [&](auto &a) { a = gen_lanes<typename std::decay_t<decltype(a)>::value_type, N>(t, D); c.mixv(a); });
        std::size_t p[N];
        for (std::size_t i = 0; i < N; ++i) p[i] = i;
        for (std::size_t i = N; i > 1; --i) std::swap(p[i - 1], p[t.below(i)]);
        const std::size_t j = t.below(N);
        each(z, [&](auto &a) { a = gen_lanes<typename std::decay_t<decltype(a)>::value_type, N>(t, D); });
        const u64 k = t.next();
        c.nontrivial = N == 1 || !uniform(std::get<0>(x));
        if (c.want_desc) { each(x, [&](auto &a) { c.desc += show_arr(a) + " "; }); c.desc += "lane " + std::to_string(j) + " among "; each(z, [&](auto &a) { c.desc += show_arr(a) + " "; }); }
        const auto r = eval(x, k);
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            for (std::size_t i = 0; i < N; ++i) ((std::get<I>(y)[i] = std::get<I>(x)[p[i]]), ...);
            ((std::get<I>(z)[j] = std::get<I>(x)[j]), ...);
        }(std::index_sequence_for<Args...>{});
        const auto ry = eval(y, k >> 3);
        for (std::size_t i = 0; i < N; ++i) same(c, "permuted lanes", ry, i, r, p[i], x);
        const auto rz = eval(z, k >> 5);
        same(c, "other lanes replaced", rz, j, r, j, x);
        [&]<std::size_t... I>(std::index_sequence<I...>) { (std::get<I>(z).fill(std::get<I>(x)[j]), ...); }(std::index_sequence_for<Args...>{});
        const auto rb = eval(z, k >> 7);
        for (std::size_t i = 0; i < N; ++i) same(c, "all lanes alike", rb, i, r, j, x);
    }
};
template<class T, class A, Dom D, class... Args, class Op> void li(const char *name, Op) { sub<T, A>(name, lane_case<T, A, Op, D, Args...>::run); }
template<class A, class T> void reg()
{
    using S = dpm::simd<T, A>;
    using W = V<T>;
    constexpr Dom any = Dom::any;
#define O1(NAME, D, ...) li<T, A, D, W>(NAME, [](S a) { return __VA_ARGS__; });
#define O2(NAME, D, ...) li<T, A, D, W, W>(NAME, [](S a, S b) { return __VA_ARGS__; });
#define O3(NAME, D, ...) li<T, A, D, W, W, W>(NAME, [](S a, S b, S c) { return __VA_ARGS__; });
    O2("add_sub_mul", any, (std::tuple{a + b, a - b, a * b}))
    const auto safe = [](S b) { if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) for (std::size_t i = 0; i < S::size(); ++i) if (T(b[i]) == T(-1)) b[i] = T(1); return b; };
    O2("div", Dom::nonzero, a / decltype(safe){}(b))
    O2("compare", any, (std::tuple{a == b, a != b, a < b, a <= b, a > b, a >= b}))
    O2("min_max", any, (std::tuple{dpm::min(a, b), dpm::max(a, b)}))
    O1("neg_inc", any, (std::tuple{-a, a++, --a, !a}))
    O1("cast_f64", any, dpm::static_simd_cast<dpm::rebind_simd_t<double, S>>(a))
    O1("cast_f32", any, dpm::static_simd_cast<dpm::rebind_simd_t<float, S>>(a))
    O1("cast_i32", Dom::small, dpm::static_simd_cast<dpm::rebind_simd_t<i32, S>>(a))
    O1("cast_i64", Dom::small, dpm::static_simd_cast<dpm::rebind_simd_t<i64, S>>(a))
    O1("cast_u8", Dom::nonneg, dpm::static_simd_cast<dpm::rebind_simd_t<u8, S>>(a))
    li<T, A, any, W, W, M<T>>("blend", [](S a, S b, dpm::simd_mask<T, A> m) { return dpm::blend(m, a, b); });
    if constexpr (std::is_integral_v<T>)
    {
        O2("bits", any, (std::tuple{a & b, a | b, a ^ b, ~a}))
        O2("shift", Dom::shamt, (std::tuple{a << b, a >> b}))
        O1("shift_const", any, (std::tuple{a << 1, a >> 3, dpm::ext::lsr<3>(a), dpm::ext::lsl<5>(a)}))
        O2("mod", Dom::nonzero, a % decltype(safe){}(b))
    }
    else
    {
        constexpr Dom mo = Dom::moderate;
        O1("sqrt", any, dpm::sqrt(a)) O1("rcp", any, (std::tuple{dpm::ext::rcp(a), dpm::ext::rsqrt(a)})) O2("hypot", any, dpm::hypot(a, b)) O2("hypot_wide", Dom::wide, dpm::hypot(a, b))
        O1("log", any, (std::tuple{dpm::log(a), dpm::log2(a), dpm::log10(a), dpm::log1p(a)})) O1("log_positive", Dom::positive, (std::tuple{dpm::log(a), dpm::log2(a), dpm::log10(a), dpm::log1p(a)}))
        O1("trig", any, (std::tuple{dpm::sin(a), dpm::cos(a), dpm::tan(a)})) O1("trig_angle", Dom::angle, (std::tuple{dpm::sin(a), dpm::cos(a), dpm::tan(a)}))
        li<T, A, Dom::angle, W>("sincos", [](S a) { S s(T(7)), c(T(8)); dpm::ext::sincos(a, s, c); return std::tuple{s, c}; });
        li<T, A, any, W>("sincos_any", [](S a) { S s(T(7)), c(T(8)); dpm::ext::sincos(a, s, c); return std::tuple{s, c}; });
        O1("inverse_trig", any, (std::tuple{dpm::asin(a), dpm::acos(a), dpm::atan(a)})) O1("inverse_trig_unit", Dom::unit, (std::tuple{dpm::asin(a), dpm::acos(a), dpm::atan(a)}))
        O2("atan2", any, dpm::atan2(a, b)) O2("pow", any, dpm::pow(a, b))
        O1("exp", mo, (std::tuple{dpm::exp(a), dpm::exp2(a), dpm::expm1(a), dpm::cbrt(a)}))
        O1("hyperbolic", mo, (std::tuple{dpm::sinh(a), dpm::cosh(a), dpm::tanh(a), dpm::asinh(a), dpm::acosh(a), dpm::atanh(a)}))
        O1("errgamma", Dom::gammad, (std::tuple{dpm::erf(a), dpm::erfc(a), dpm::tgamma(a), dpm::lgamma(a)}))
        O1("round", any, (std::tuple{dpm::ceil(a), dpm::floor(a), dpm::trunc(a), dpm::round(a), dpm::rint(a), dpm::nearbyint(a)}))
        O1("round_half", Dom::halfway, (std::tuple{dpm::ceil(a), dpm::floor(a), dpm::trunc(a), dpm::round(a), dpm::rint(a), dpm::nearbyint(a)}))
        O1("to_int", mo, (std::tuple{dpm::lround(a), dpm::llround(a), dpm::lrint(a), dpm::llrint(a), dpm::ext::ltrunc(a)}))
        li<T, A, any, W>("frexp", [](S a) { dpm::simd<int, A> e(9); S m = dpm::frexp(a, &e); S i(T(3)); S f = dpm::modf(a, &i); return std::tuple{m, e, f, i}; });
        O1("logb", any, (std::tuple{dpm::logb(a), dpm::ilogb(a), dpm::fpclassify(a)}))
        li<T, A, Dom::expn, W, V<int>>("scalbn", [](S a, dpm::simd<int, A> e) { return std::tuple{dpm::ldexp(a, e), dpm::scalbn(a, e)}; });
        O2("nextafter", any, (std::tuple{dpm::nextafter(a, b), dpm::copysign(a, b)}))
        O1("class", any, (std::tuple{dpm::isfinite(a), dpm::isinf(a), dpm::isnan(a), dpm::isnormal(a), dpm::signbit(a)}))
        O2("quiet", any, (std::tuple{dpm::isgreater(a, b), dpm::isless(a, b), dpm::islessgreater(a, b), dpm::isunordered(a, b)}))
        O2("fbasic", any, (std::tuple{dpm::fmax(a, b), dpm::fmin(a, b), dpm::fdim(a, b), dpm::fmod(a, b), dpm::remainder(a, b)}))
        O3("fma", any, (std::tuple{dpm::fma(a, b, c), dpm::ext::fmsub(a, b, c), dpm::ext::fnmadd(a, b, c), dpm::ext::fnmsub(a, b, c), dpm::lerp(a, b, c)}))
        O1("abs", any, (std::tuple{dpm::abs(a), dpm::fabs(a), -a}))
    }
}
H_MAIN(+[] { for_types(abis<VT>{}, []<class A>() { reg<A, VT>(); }); })
