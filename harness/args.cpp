// Command-line parsing against a specification of what argument vectors spell
// wrap: exit
#include "sx.h"
#include <mutable/util/ArgParser.hpp>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
using namespace m;
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hash(const char *s) { uint64_t n = 0; while (s[n]) n++; return n; }   // stand in for the string hash
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hashn(const char *s, size_t l) { uint64_t n = 0; while (n < l && s[n]) n++; return n; }

struct Event { char opt; std::string text; long num = 0; bool operator==(const Event &o) const { return opt == o.opt and text == o.text and num == o.num; } };
static std::vector<Event> *events; static const std::vector<Event> *want; static bool refuse;   // what happened; what must have happened before the vector is refused
extern "C" [[noreturn]] void __wrap_exit(int code) {   // the process would end here
    sx_check(refuse, "a vector that is well-formed is not refused");
    sx_check(code != EXIT_SUCCESS, "a refused vector is a failure");
    sx_check(*events == *want, "options before the malformed one were handled");
    sx_cover("refused");
    sx_assume(false); __builtin_unreachable();
}
static void options(ArgParser &P, std::vector<Event> &ev)
{
    P.add<bool>("-h", "--help", "help", [&](bool b) { ev.push_back({ 'h', "", b }); });
    P.add<bool>("G", nullptr, "--flag", "flag", [&](bool b) { ev.push_back({ 'f', "", b }); });
    P.add<int>("G", "-i", "--int", "int", [&](int i) { ev.push_back({ 'i', "", i }); });
    P.add<const char*>("G", "-s", "--str", "string", [&](const char *s) { ev.push_back({ 's', s }); });
    P.add<std::vector<std::string_view>>("-l", nullptr, "list", [&](std::vector<std::string_view> v) { Event e{ 'l', "", (long)v.size() }; for (auto s : v) { e.text += s; e.text += '|'; } ev.push_back(e); });
}
struct Spec { std::vector<Event> ev; std::vector<std::string> pos; bool refuse = false; };
// the vector, character for character; numbers are decimal digits
static bool number(const std::string &s, long &v)
{
    size_t i = 0; bool neg = false; if (i < s.size() and (s[i] == '-' or s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size() or s.size() - i > 12) return false;
    v = 0; for (; i != s.size(); ++i) { if (s[i] < 0x30 or s[i] > 0x39) return false; v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v; return v >= INT32_MIN and v <= INT32_MAX;
}
static Spec spec(const std::vector<std::string> &a)
{
    Spec S; size_t i = 1;
    for (; i < a.size(); ++i) {
        const std::string &t = a[i];
        if (t == "--") { ++i; break; }
        char o = t == "-h" or t == "--help" ? 'h' : t == "--flag" ? 'f' : t == "-i" or t == "--int" ? 'i' : t == "-s" or t == "--str" ? 's' : t == "-l" ? 'l' : 0;
        if (o == 'h' or o == 'f') { S.ev.push_back({ o, "", 1 }); continue; }
        if (not o) { if (t.compare(0, 2, "--")) S.pos.push_back(t); continue; }
        if (++i >= a.size()) { S.refuse = true; return S; }
        const std::string &v = a[i];
        if (o == 'i') { long n; if (not number(v, n)) { S.refuse = true; return S; } S.ev.push_back({ 'i', "", n }); }
        else if (o == 's') S.ev.push_back({ 's', v });
        else { Event e{ 'l', "" }; if (not v.empty()) { e.num = 1; for (char c : v) if (c == ',') { e.text += '|'; ++e.num; } else e.text += c; e.text += '|'; } S.ev.push_back(e); }
    }
    for (; i < a.size(); ++i) S.pos.push_back(a[i]);
    return S;
}
static void vector(const std::vector<std::string> &a)
{
    std::vector<const char*> argv; for (auto &s : a) { char *c = (char*)std::malloc(s.size() + 1); std::memcpy(c, s.c_str(), s.size() + 1); argv.push_back(c); } argv.push_back(nullptr);
    const char **v = (const char**)std::malloc(argv.size() * sizeof(char*)); std::memcpy(v, argv.data(), argv.size() * sizeof(char*));   // reads past the end are noticed
    ArgParser P; std::vector<Event> ev; options(P, ev);
    Spec S = spec(a); events = &ev; want = &S.ev; refuse = S.refuse;
    P(int(a.size()), v);
    sx_check(not S.refuse, "a malformed vector is refused");
    sx_check(ev == S.ev, "each option present is handled once with its value");
    sx_check(P.args().size() == S.pos.size(), "number of positional arguments");
    for (size_t i = 0; i != S.pos.size() and i != P.args().size(); ++i) sx_check(P.args()[i] == S.pos[i], "positional arguments keep their order");
    sx_cover("parsed");
    for (size_t i = 0; i != a.size(); ++i) std::free((void*)argv[i]); std::free(v);
}
static const char *W[] = { "-h", "--help", "--flag", "-i", "--int", "-s", "-l", "--", "--unknown", "x", "", "-7", "3x", "a,,b", "-", "--helpx" };
SX_MAIN(vectors) { std::vector<std::string> a{ "prog" }; unsigned n = sx_choose(5 + SX_THOROUGH, "n"); for (unsigned i = 0; i != n; ++i) a.push_back(W[sx_choose(n <= 3 ? 16 : 13, "argument")]); vector(a); }
static std::string word(unsigned max) { std::string s; unsigned n = sx_choose(max + 1, "length"); for (unsigned i = 0; i != n; ++i) { char c = sx_make<char>("character"); sx_assume(c != 0); s += c; } return s; }
SX_MAIN(any_name) { vector({ "prog", word(4 + SX_THOROUGH), "12" }); }
SX_MAIN(any_long_name) { vector({ "prog", "--" + word(4), "12", "-h" }); }
static std::string printable(unsigned max) { std::string s = word(max); if (not s.empty()) sx_assume(s[0] > ' ' or s[0] < 0); return s; }   // leading white space is skipped by the conversion
SX_MAIN(any_int) { vector({ "prog", "-i", printable(4 + SX_THOROUGH), "rest" }); }
SX_MAIN(any_list) { vector({ "prog", "-l", word(4 + SX_THOROUGH), "rest" }); }
SX_MAIN(any_string) { vector({ "prog", "--str", word(3 + SX_THOROUGH), "-h" }); }

// numbers of every type: small ones of any text, and those around the limits
using I = __int128;
template<typename T> static void numeric(unsigned max)
{
    std::string s;
    constexpr I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    auto text = [](I v) { std::string t; bool neg = v < 0; if (neg) v = -v; do t.insert(t.begin(), char('0' + int(v % 10))), v /= 10; while (v); if (neg) t.insert(t.begin(), '-'); return t; };
    switch (sx_choose(4, "kind")) {
        case 0: s = printable(max); break;
        case 1: s = text(hi); s.back() = sx_make<char>("digit"); sx_assume(s.back() != 0); break;
        case 2: s = lo ? text(lo) : "-1"; s.back() = sx_make<char>("digit"); sx_assume(s.back() != 0); break;
        default: s = text(hi) + char(sx_range('0', '9', "digit", 8)); break;
    }
    ArgParser P; std::vector<Event> ev, none; T got = 0; unsigned calls = 0;
    P.add<T>("-n", nullptr, "number", [&](T v) { got = v; ++calls; });
    I v = 0; bool ok = true; size_t i = 0; bool neg = false; if (i < s.size() and (s[i] == '-' or s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size()) ok = false;
    for (; i != s.size(); ++i) { if (s[i] < '0' or s[i] > '9') { ok = false; break; } v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    if (lo == 0 and neg and v == 0) return;   // minus zero is not judged
    if (v < lo or v > hi) ok = false;
    events = &ev; want = &none; refuse = not ok;
    const char *argv[] = { "prog", "-n", s.c_str(), nullptr };
    P(3, argv);
    sx_check(ok, "text that is no number of the type is refused");
    sx_check(calls == 1 and (I)got == v, "numbers are converted exactly");
    sx_cover("converted");
}
SX_MAIN(number_int) { numeric<int>(3 + SX_THOROUGH); }
SX_MAIN(number_long) { numeric<long>(2 + SX_THOROUGH); }
SX_MAIN(number_long_long) { numeric<long long>(2); }
SX_MAIN(number_unsigned) { numeric<unsigned>(2 + SX_THOROUGH); }
SX_MAIN(number_unsigned_long) { numeric<unsigned long>(2 + SX_THOROUGH); }
SX_MAIN(number_unsigned_long_long) { numeric<unsigned long long>(2); }

template<typename T> static void real()
{
    struct { const char *s; bool ok; double v; } L[] = { { "0", true, 0 }, { "1", true, 1 }, { "-2.5", true, -2.5 }, { ".25", true, .25 }, { "1e3", true, 1000 }, { "+8", true, 8 }, { "", false }, { "x", false }, { "1x", false }, { "1.5.2", false }, { "1e", false }, { "-", false }, { "1 ", false } };
    auto &e = L[sx_choose(sizeof L / sizeof *L, "text")];
    ArgParser P; std::vector<Event> ev, none; T got = 0; unsigned calls = 0;
    P.add<T>(nullptr, "--real", "number", [&](T v) { got = v; ++calls; });
    events = &ev; want = &none; refuse = not e.ok;
    const char *argv[] = { "prog", "--real", e.s, nullptr };
    P(3, argv);
    sx_check(e.ok, "text that is no number is refused");
    sx_check(calls == 1 and got == T(e.v), "numbers are converted exactly");
    sx_cover("converted");
}
SX_MAIN(real_float) { real<float>(); }
SX_MAIN(real_double) { real<double>(); }
SX_MAIN(missing)
{
    bool given = sx_choose(2, "given");
    ArgParser P; std::vector<Event> ev, none; options(P, ev); events = &ev; want = &none; refuse = not given;
    static const char *O[] = { "-i", "--int", "-s", "--str", "-l" };
    const char **argv = (const char**)std::malloc((3 + given) * sizeof(char*)); argv[0] = "prog"; argv[1] = O[sx_choose(5, "option")]; if (given) argv[2] = "1"; argv[2 + given] = nullptr;
    P(2 + given, argv); sx_check(given, "an option without its value is refused"); sx_check(ev.size() == 1 and P.args().empty(), "a value is no argument of its own");
    std::free(argv); sx_cover("handled");
}
