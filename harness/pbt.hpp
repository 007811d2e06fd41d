// Property-based testing engine shared by every harness in this directory.
// A test case is a pure function of a "tape" of 64-bit words.  Generation draws words from a
// deterministic RNG seeded by (VERIF_SEED, subject, case index); shrinking edits the tape; a
// replay file is the (shrunk) tape.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt
{
using u64 = std::uint64_t;

struct Tape
{
    std::vector<u64> w;
    std::size_t pos = 0;
    bool gen = false;
    u64 s = 0;
    static u64 mix(u64 z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 next()
    {
        if (pos < w.size()) return w[pos++];
        u64 v = 0;
        if (gen) { s += 0x9e3779b97f4a7c15ull; v = mix(s); w.push_back(v); }
        ++pos;
        return v;
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // word 0 -> false
};

enum class Ty : std::uint8_t { i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, b, sz, ld };
inline std::size_t ty_size(Ty t)
{
    switch (t) { case Ty::i8: case Ty::u8: case Ty::b: return 1; case Ty::i16: case Ty::u16: return 2; case Ty::i32: case Ty::u32: case Ty::f32: return 4; case Ty::ld: return sizeof(long double); default: return 8; }
}
template<class T> constexpr Ty ty_of()
{
    if constexpr (std::is_same_v<T, bool>) return Ty::b;
    else if constexpr (std::is_same_v<T, float>) return Ty::f32;
    else if constexpr (std::is_same_v<T, double>) return Ty::f64;
    else if constexpr (std::is_same_v<T, long double>) return Ty::ld;
    else
    {
        constexpr bool s = std::is_signed_v<T>;
        if constexpr (sizeof(T) == 1) return s ? Ty::i8 : Ty::u8;
        else if constexpr (sizeof(T) == 2) return s ? Ty::i16 : Ty::u16;
        else if constexpr (sizeof(T) == 4) return s ? Ty::i32 : Ty::u32;
        else return s ? Ty::i64 : Ty::u64;
    }
}
const char *ty_name(Ty);
std::string fmt(Ty, const void *);
template<class T> std::string show(const T &v) { return fmt(ty_of<T>(), &v); }

// How one element is generated.  `Dom` values are hints for the float/integer generator.
enum class Dom : std::uint8_t
{
    any,      // every bit pattern reachable, biased to boundary values (quiet NaNs only for floats)
    nonzero,  // as any, never 0 (integer divisors)
    shamt,    // valid shift amount for the element width
    small,    // small magnitudes (sums/products stay exact / representable)
    finite,   // finite floats, any exponent
    moderate, // |x| <= ~1e3, log-uniform and near-integers
    halfway,  // values near k + 1/2, integers and the 2^23/2^31/2^52/2^63 boundaries
    unit,     // [-1.25, 1.25], biased to +-1, +-0.5
    angle,    // [-1e4, 1e4], biased to multiples of pi/4 and +-0
    positive, // positive floats incl. denormals, near 1
    expn,     // integer exponents, biased to the ends of the float exponent range
    wide,     // finite log-uniform over the full exponent range
    gammad,   // domain for tgamma/lgamma
    nonneg,   // integers >= 0
};
void gen_value(Tape &, Ty, Dom, void *out);
template<class T> T gen(Tape &t, Dom d = Dom::any) { T v{}; gen_value(t, ty_of<T>(), d, &v); return v; }

// Per-case report.
struct Case
{
    bool failed = false;
    bool nontrivial = false;
    bool excluded = false; // covered by a listed known finding, not judged
    u64 hash = 1469598103934665603ull;
    std::string cls;       // class label for the distribution
    std::string desc;      // human readable case (filled when want_desc)
    std::string msg;       // failure message
    bool want_desc = false;
    void mixin(const void *p, std::size_t n)
    {
        auto *b = static_cast<const unsigned char *>(p);
        for (std::size_t i = 0; i < n; ++i) { hash ^= b[i]; hash *= 1099511628211ull; }
    }
    template<class T> void mixv(const T &v) { mixin(&v, sizeof v); }
    void fail(const std::string &m) { if (!failed) { failed = true; msg = m; } }
};

using RunFn = std::function<void(Tape &, Case &)>;
// weight: relative number of cases for this subject (percent of --cases)
void add_subject(const std::string &name, RunFn fn, unsigned weight = 100);



// ---------- lane-wise subjects ----------
struct In { Ty ty; Dom dom; };
// got/exp: pointers to one lane; in: pointers to the lane's inputs
using CmpFn = bool (*)(const void *got, const void *exp, const void *const *in);
struct Out { Ty ty; CmpFn cmp = nullptr; };
using OpFn = void (*)(const void *const *in, void *const *out);
using RefFn = void (*)(const void *const *in, void *const *out); // one lane
using ExclFn = bool (*)(const void *const *in);                  // one lane: true -> listed finding
struct Lanewise
{
    std::string name;
    std::size_t n;
    std::vector<In> in;
    std::vector<Out> out;
    OpFn op;
    RefFn ref;
    unsigned weight = 100;
    // Optional per-case fix-up of generated inputs (lane pointers); keeps inputs in the domain.
    void (*fix)(void *const *in) = nullptr;
    unsigned scalar_mask = 0; // bit k: input k is a scalar shared by all lanes
};
void add_lanewise(Lanewise);
// Hash of the inputs of the running lane-wise case: picks how operands are loaded, padded and read back.
extern u64 g_mix;

bool cmp_exact(Ty, const void *a, const void *b); // floats: bitwise, any NaN == any NaN

extern bool g_rounding;
int run_main(int argc, char **argv, void (*register_all)());

// float helpers


// guarded buffers: `bytes` usable bytes ending right before (or starting right after) an inaccessible page
struct Guard
{
    unsigned char *map = nullptr; std::size_t len = 0;
    Guard();
    // pointer p such that [p, p+bytes) is accessible, p+bytes is the first byte of a no-access page
    unsigned char *end_at(std::size_t bytes) const;
    // pointer p whose preceding byte lies in a no-access page
    unsigned char *begin_at() const;
    static constexpr std::size_t area = 16384;
};
}
