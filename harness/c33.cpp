// C33: assertions.  Every case evaluates one assertion of a generated kind, condition and message in a child process
// and looks at what the child wrote, whether it went on, and how often the condition was evaluated.
#include <dpm/utility.hpp>
#include "pbt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
struct Shared { volatile unsigned evaluated, after, elsewhere; };
static Shared *g_sh;
static volatile long g_a, g_b;
[[gnu::noinline]] static bool cond(bool v) { g_sh->evaluated = g_sh->evaluated + 1; return v; }

#ifdef NDEBUG
constexpr bool DEBUG = false;
#else
constexpr bool DEBUG = true;
#endif
struct Site { const char *file; unsigned line; const char *func; const char *text; };
static Site g_site;
#define SITE(FUNC, TEXT) (g_site = {__FILE__, __LINE__, FUNC, TEXT})
static auto location(DPM_SOURCE_LOC_TYPE l = DPM_SOURCE_LOC_CURRENT) { return l; }

// The kinds of assertion; `live` tells whether the kind is checked in this build, `loc` that the location is the caller's.
struct Kind { const char *name; bool live, assume, msg; void (*run)(bool, const char *); };
namespace
{
struct Thing // functions with different names to report
{
    bool v; const char *m;
    void always() const { SITE("always", "cond(v)"); DPM_ASSERT_ALWAYS(cond(v)); g_sh->after = 1; }
    int msg_always(int k) const { SITE("msg_always", "cond(v) && k > 0"); DPM_ASSERT_MSG_ALWAYS(cond(v) && k > 0, m); g_sh->after = 1; return k; }
    template<class X> void debug(X) const { SITE("debug", "cond(v)"); DPM_ASSERT(cond(v)); g_sh->after = 1; }
    static void msg_debug(bool w, const char *q) noexcept { SITE("msg_debug", "(cond(w), w)"); DPM_ASSERT_MSG((cond(w), w), q); g_sh->after = 1; }
};
}
// the place the assertion reports is where `location` was called
static void loc_inner(bool v, const char *m, DPM_SOURCE_LOC_TYPE l) { DPM_ASSERT_MSG_LOC_ALWAYS(cond(v), m, l); g_sh->after = 1; }
static void loc_always(bool v, const char *m) { auto l = (SITE("loc_always", "cond(v)"), location()); loc_inner(v, m, l); }
static void loc_debug_inner(bool v, const char *m, [[maybe_unused]] DPM_SOURCE_LOC_TYPE l) { (void) v; (void) m; DPM_ASSERT_MSG_LOC(cond(v), m, l); g_sh->after = 1; }
static void loc_debug(bool v, const char *m) { auto l = (SITE("loc_debug", "cond(v)"), location()); loc_debug_inner(v, m, l); }
// as one statement of an if, and twice in a row
static void in_if(bool v, const char *m)
{
    if (g_a <= g_b)
        SITE("in_if", "cond(v) == true"), (void) 0;
    if (g_a > g_b)
        DPM_ASSERT_ALWAYS(cond(false));
    else
        { g_site.line = __LINE__; DPM_ASSERT_MSG_ALWAYS(cond(v) == true, m); }
    g_sh->after = 1;
}
static void twice(bool v, const char *m)
{
    DPM_ASSERT_ALWAYS(cond(true)); SITE("twice", "cond(v)"); DPM_ASSERT_MSG_ALWAYS(cond(v), m);
    g_sh->after = 1;
}
static void in_lambda(bool v, const char *m)
{
    [&] { SITE("in_lambda", "!!cond(v)"); DPM_ASSERT_MSG_ALWAYS(!!cond(v), m); g_sh->after = 1; }();
}
static const Kind kinds[] = {
    {"always", true, false, false, [](bool v, const char *m) { Thing{v, m}.always(); }},
    {"msg_always", true, false, true, [](bool v, const char *m) { Thing{v, m}.msg_always(3); }},
    {"debug", DEBUG, true, false, [](bool v, const char *m) { Thing{v, m}.debug(1.0f); }},
    {"msg_debug", DEBUG, true, true, [](bool v, const char *m) { Thing::msg_debug(v, m); }},
    {"loc_always", true, false, true, loc_always},
    {"loc_debug", DEBUG, false, true, loc_debug},
    {"in_if", true, false, true, in_if},
    {"twice", true, false, true, twice},
    {"in_lambda", true, false, true, in_lambda},
};

static void subject(Tape &t, Case &c, const Kind &k)
{
    bool v = t.chance(1, 2);
    if (!k.live && k.assume) v = true; // the compiler may rely on the condition
    // messages are shown as they are
    static const char alphabet[] = "abc XYZ 0129 %s%n%d%% `'\"\\ .,:-\t{}()<>";
    std::string msg;
    const bool null = t.chance(1, 6);
    const std::size_t n = t.chance(1, 8) ? 200 + t.below(3000) : t.below(24);
    for (std::size_t i = 0; i < n; ++i) msg += alphabet[t.below(sizeof alphabet - 1)];
    c.mixv(v); c.mixv(null); c.mixin(msg.data(), msg.size());
    c.nontrivial = !v || !msg.empty();
    c.cls = v ? "holds" : "fails";
    if (c.want_desc) c.desc = std::string(k.name) + (v ? " that holds" : " that fails") + (null ? ", no message" : ", message \"" + msg.substr(0, 60) + "\" (" + std::to_string(n) + ")");
    int fd[2];
    if (pipe(fd)) return;
    g_sh->evaluated = g_sh->after = 0;
    g_a = 1; g_b = 2;
    // the site is only known once the assertion has been reached: let the child tell
    Site *site = reinterpret_cast<Site *>(g_sh + 1);
    *site = {};
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        rlimit none{0, 0};
        setrlimit(RLIMIT_CORE, &none);
        signal(SIGTRAP, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGILL, SIG_DFL);
        dup2(fd[1], 2); close(fd[0]); close(fd[1]);
        // what was noted before the assertion is copied out as the process ends or dies
        struct Note { static void f(int s) { *reinterpret_cast<Site *>(g_sh + 1) = g_site; signal(s, SIG_DFL); raise(s); } };
        for (int s : {SIGTRAP, SIGABRT, SIGILL}) signal(s, Note::f);
        errno = 77;
        k.run(v, null ? nullptr : msg.c_str());
        std::fflush(nullptr);
        _exit(v && errno != 77 ? 9 : 7);
    }
    close(fd[1]);
    std::string out;
    char b[4096];
    for (ssize_t r; (r = read(fd[0], b, sizeof b)) > 0 || (r < 0 && errno == EINTR);) if (r > 0) out.append(b, std::size_t(r));
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    const bool stop = k.live && !v;
    const unsigned evals = k.live ? (std::strcmp(k.name, "twice") ? 1 : 2) : 0;
    if (!stop)
    {
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 7 || !g_sh->after) c.fail(std::string("the program did not go on after an assertion that ") + (v ? "holds" : "is not checked in this build") + ", status " + std::to_string(st));
        else if (!out.empty()) c.fail("an assertion that " + std::string(v ? "holds" : "is not checked") + " wrote \"" + out.substr(0, 80) + "\"");
    }
    else
    {
        const auto has = [&](const std::string &s) { return out.find(s) != std::string::npos; };
        if (!WIFSIGNALED(st) || g_sh->after) c.fail("the program went on after an assertion that fails, status " + std::to_string(st));
        else if (!has(site->file)) c.fail("the report does not name the file: \"" + out.substr(0, 200) + "\"");
        else if (!has(std::to_string(site->line))) c.fail("the report does not name line " + std::to_string(site->line) + ": \"" + out.substr(0, 200) + "\"");
        else if (!has(site->func)) c.fail(std::string("the report does not name the function ") + site->func + ": \"" + out.substr(0, 200) + "\"");
        else if (!has(site->text)) c.fail(std::string("the report does not show the condition ") + site->text + ": \"" + out.substr(0, 200) + "\"");
        else if (k.msg && !null && !has(msg)) c.fail("the report does not show the message: \"" + out.substr(0, 300) + "\"");
    }
    if (!(k.assume && !k.live) && g_sh->evaluated != evals) c.fail("the condition was evaluated " + std::to_string(g_sh->evaluated) + " times instead of " + std::to_string(evals));
}
int main(int argc, char **argv)
{
    g_sh = static_cast<Shared *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return run_main(argc, argv, +[] {
        for (const Kind &k : kinds) add_subject(k.name, [&k](Tape &t, Case &c) { subject(t, c, k); });
    });
}
