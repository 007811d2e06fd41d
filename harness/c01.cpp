// C01: lane-wise arithmetic.
#include "common.hpp"
using namespace h;
using T = VT;
template<class A> void reg()
{
    using S = dpm::simd<T, A>;
    const Opt dv{.dom = {Dom::any, Dom::nonzero}, .fix = fix_div<T>};
#define BIN(NAME, OP, REF, O) \
    lw<T, A, V<T>, V<T>>(NAME, [](S a, S b) { return a OP b; }, [](T a, T b) -> T { return REF; }, O); \
    lw<T, A, V<T>, V<T>>(NAME "_assign", [](S a, S b) { S c = a; S &r = (c OP##= b); r = c; return std::tuple{c, a, b}; }, [](T a, T b) -> std::tuple<T, T, T> { return {REF, a, b}; }, O); \
    lw<T, A, V<T>, Sc<T>>(NAME "_scalar", [](S a, T b) { return a OP b; }, [](T a, T b) -> T { return REF; }, O); \
    lw<T, A, V<T>, Sc<T>>(NAME "_assign_scalar", [](S a, T b) { a OP##= b; return a; }, [](T a, T b) -> T { return REF; }, O);
    BIN("add", +, addw(a, b), Opt{})
    BIN("sub", -, subw(a, b), Opt{})
    BIN("mul", *, mulw(a, b), Opt{})
    BIN("div", /, T(a / b), (std::is_integral_v<T> ? dv : Opt{}))
    if constexpr (std::is_integral_v<T>) { BIN("mod", %, modw(a, b), dv) }
    lw<T, A, V<T>>("neg", [](S a) { return -a; }, [](T a) -> T { if constexpr (std::is_floating_point_v<T>) return -a; else return subw(T(0), a); });
    lw<T, A, V<T>>("pos", [](S a) { return +a; }, [](T a) -> T { return a; });
    lw<T, A, V<T>>("preinc", [](S a) { S r = ++a; return std::tuple{r, a}; }, [](T a) -> std::tuple<T, T> { return {addw(a, T(1)), addw(a, T(1))}; });
    lw<T, A, V<T>>("predec", [](S a) { S r = --a; return std::tuple{r, a}; }, [](T a) -> std::tuple<T, T> { return {subw(a, T(1)), subw(a, T(1))}; });
    lw<T, A, V<T>>("postinc", [](S a) { S r = a++; return std::tuple{r, a}; }, [](T a) -> std::tuple<T, T> { return {a, addw(a, T(1))}; });
    lw<T, A, V<T>>("postdec", [](S a) { S r = a--; return std::tuple{r, a}; }, [](T a) -> std::tuple<T, T> { return {a, subw(a, T(1))}; });
    lw<T, A, V<T>>("lnot", [](S a) { return !a; }, [](T a) -> bool { return !a; });
    lw<T, A, V<T>, V<T>>("self", [](S a, S b) { S c = a; c += c; S d = b; d -= d; return std::tuple{c, d}; }, [](T a, T b) -> std::tuple<T, T> { return {addw(a, a), subw(b, b)}; });
}
H_MAIN(+[] { for_types(abis<T>{}, []<class A>() { reg<A>(); }); })
