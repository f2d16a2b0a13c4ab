// C20: integer helpers; C13: LIKE; C21: escaping, quoting, date texts
#include "sx.h"
#include <mutable/util/fn.hpp>
#include <string>
#include <sstream>
using namespace m;
typedef unsigned __int128 u128; typedef __int128 i128;
template<typename T> static u128 W(T v) { return (u128)v; }

template<typename T> static void pow2() {
    constexpr unsigned B = 8 * sizeof(T);
    T n = sx_make<T>("n"); unsigned pc = 0; for (unsigned i = 0; i < B; i++) pc += (n >> i) & 1;
    sx_check(is_pow_2(n) == (pc == 1), "is_pow_2");
    u128 half = (u128)1 << (B - 1);
    if (W(n) <= half) { T c = ceil_to_pow_2(n); sx_check(is_pow_2(c) && c >= n && (n <= 1 ? c == 1 : W(c) < 2 * W(n)), "ceil_to_pow_2"); }
    if (n) {
        unsigned lf = log2_floor(n); sx_check(lf < B && (W(1) << lf) <= W(n) && W(n) < (W(1) << (lf + 1)), "log2_floor");
        unsigned lc = log2_ceil(n); sx_check(lc <= B && W(n) <= (W(1) << lc) && (n == 1 ? lc == 0 : (W(1) << (lc - 1)) < W(n)), "log2_ceil");
    }
    T k = (T)((T)1 << sx_fork_value(sx_range(0, B - 1, "k")));
    if (W(n) + W(k) - 1 <= W((T)~(T)0)) { T c = ceil_to_multiple_of_pow_2(n, k); sx_check((c & (T)(k - 1)) == 0 && c >= n && W(c) < W(n) + W(k), "ceil_to_multiple_of_pow_2"); }
}
SX_MAIN(pow2_8) { pow2<uint8_t>(); }
SX_MAIN(pow2_16) { pow2<uint16_t>(); }
SX_MAIN(pow2_32) { pow2<uint32_t>(); }
SX_MAIN(pow2_64) { pow2<uint64_t>(); }

template<typename T> static void rnd() {
    T v = sx_make<T>("v"), f = sx_make<T>("f"); bool th = false; T r = 0;
    u128 want = f ? (W(v) + W(f) - 1) / W(f) * W(f) : 0;
    if (f && want > W((T)~(T)0)) return;
    try { r = round_up_to_multiple(v, f); } catch (const m::invalid_argument &) { th = true; sx_cover("rejected"); }
    sx_check(th == (f == 0 && v != 0), "a zero factor is rejected"); sx_check(th || (v == 0 ? r == 0 : r >= v && W(r) < W(v) + W(f)), "round_up_to_multiple is the least"); if (!th && f) sx_check(W(r) == want, "round_up_to_multiple");
}
SX_MAIN(round_8) { rnd<uint8_t>(); }
SX_MAIN(round_16) { uint16_t v = sx_make<uint16_t>("v"), f = (uint16_t)sx_fork_value(sx_range(1, SX_THOROUGH ? 48 : 12, "f")); unsigned w = (v + f - 1) / f * f; if (w > 65535) return; sx_check(round_up_to_multiple(v, f) == w, "round_up_to_multiple"); }
template<typename T> static void rnd_top() { T v = (T)~(T)0 - (T)sx_sym(SX_THOROUGH ? 20 : 12, "below"), f = (T)sx_fork_value(sx_range(1, SX_THOROUGH ? 64 : 16, "f")); if (v > (T)((T)~(T)0 - (T)~(T)0 % f)) return; T r = round_up_to_multiple(v, f); sx_check(r >= v && r - v < f, "least"); sx_check(r % f == 0, "multiple"); sx_cover("top"); }
SX_MAIN(round_top) { if (sx_choose(2, "wide")) rnd_top<uint64_t>(); else rnd_top<uint32_t>(); }
SX_MAIN(round_64_small) { uint64_t v = sx_sym(SX_THOROUGH ? 28 : 22, "v") + (sx_bool("high") ? 0xffffffff00000000ull : 0), f = sx_fork_value(sx_range(1, 16, "f")); uint64_t r = round_up_to_multiple(v, f); sx_check(r >= v && r - v < f, "least"); sx_check(r % f == 0, "multiple"); }

template<typename T, typename U> static void sat() {
    T a = sx_make<T>("a"); U b = sx_make<U>("b"); using C = std::common_type_t<T, U>; u128 M = W(std::numeric_limits<C>::max());
    u128 s = W(a) + W(b), p = W(a) * W(b);
    sx_check(W(add_wo_overflow(a, b)) == (s > M ? M : s), "add_wo_overflow"); sx_check(W(sum_wo_overflow(a, b)) == (s > M ? M : s), "sum of two");
    sx_check(W(mul_wo_overflow(a, b)) == (p > M ? M : p), "mul_wo_overflow"); sx_check(W(prod_wo_overflow(a, b)) == (p > M ? M : p), "product of two");
}
SX_MAIN(saturate8) { sat<uint8_t, uint8_t>(); }
SX_MAIN(saturate16_8) { sat<uint16_t, uint8_t>(); }
SX_MAIN(saturate8_32) { uint8_t a = sx_make<uint8_t>("a"); uint32_t b = sx_make<uint32_t>("b"); u128 s = W(a) + W(b), p = W(a) * W(b), M = 0xffffffffu; sx_check(W(add_wo_overflow(a, b)) == (s > M ? M : s), "mixed add"); sx_check(W(mul_wo_overflow(a, b)) == (p > M ? M : p), "mixed mul"); }
SX_MAIN(saturate64) {
    uint64_t a = sx_make<uint64_t>("a"), b = sx_make<uint64_t>("b"), c = sx_make<uint64_t>("c"); u128 M = ~0ull, s = W(a) + W(b);
    sx_check(W(add_wo_overflow(a, b)) == (s > M ? M : s), "add64"); u128 s3 = s + W(c); sx_check(W(sum_wo_overflow(a, b, c)) == (s3 > M ? M : s3), "sum of three");
    uint8_t x = sx_make<uint8_t>("x"), y = sx_make<uint8_t>("y"), z = sx_make<uint8_t>("z"), w = sx_make<uint8_t>("w"); unsigned s4 = x + y + z + w; sx_check(sum_wo_overflow(x, y, z, w) == (s4 > 255 ? 255 : s4), "sum of four");
}
SX_MAIN(saturate_mul) {
    uint64_t a = sx_make<uint64_t>("a"); u128 M = ~0ull;
    uint64_t k = sx_choose(8, "k"); k = k == 6 ? 1ull << 32 : k == 7 ? 1ull << 63 : k; u128 p = W(a) * k; sx_check(W(mul_wo_overflow(a, k)) == (p > M ? M : p), "mul64"); sx_check(W(mul_wo_overflow(k, a)) == (p > M ? M : p), "mul64 swapped");
    static const uint8_t vals[] = {0, 1, 2, 3, 15, 16, 17, 255};
    uint8_t x = sx_make<uint8_t>("x"), y = vals[sx_choose(8, "y")], z = vals[sx_choose(8, "z")]; u128 q = W(x) * W(y); q = q > 255 ? 255 : q; q = q * W(z); q = q > 255 ? 255 : q;
    sx_check(W(prod_wo_overflow(x, y, z)) == q, "product of three");
}
SX_MAIN(powi_) {
    uint32_t b = sx_make<uint32_t>("b"); unsigned e = sx_choose(9, "e"); uint32_t r = 1; for (unsigned i = 0; i < e; i++) r *= b; sx_check(powi(b, e) == r, "powi");
    int8_t s = sx_make<int8_t>("s"); unsigned e2 = e % 5; int64_t q = 1; for (unsigned i = 0; i < e2; i++) q *= s; sx_check(powi((int64_t)s, e2) == q, "powi signed"); sx_check(powi<int32_t>(s, uint64_t(e2 % 5)) == (int32_t)q, "powi, 64-bit exponent");
}
template<typename T> static void setb() { T w = sx_make<T>("w"); bool v = sx_bool("v"); uint32_t n = sx_range(0, 8 * sizeof(T) - 1, "n"); T o = w; setbit(&w, v, n); T m = (T)((T)1 << n); sx_check(w == (T)(v ? (o | m) : (o & (T)~m)), "setbit"); }
SX_MAIN(setbit_) { setb<uint8_t>(); setb<uint16_t>(); setb<uint32_t>(); setb<uint64_t>(); }
template<typename T> static void wide() {
    T a = sx_make<T>("a"), b = sx_make<T>("b"); uint64_t n = sx_make<uint64_t>("n"); i128 d = a > b ? (i128)a - (i128)b : (i128)b - (i128)a;
    sx_check(is_range_wide_enough(a, b, n) == (d + 1 >= (i128)(u128)n), "range width");
}
SX_MAIN(wide8) { wide<int8_t>(); wide<uint8_t>(); }
SX_MAIN(wide16) { wide<int16_t>(); wide<uint16_t>(); }
SX_MAIN(wide32) { wide<int32_t>(); wide<uint32_t>(); }
SX_MAIN(wide64) { wide<int64_t>(); wide<uint64_t>(); }
SX_MAIN(page) { uint64_t n = sx_make<uint64_t>("n"), p = get_pagesize(); sx_check(is_pow_2(p), "page size"); sx_check(bool(Is_Page_Aligned(n)) == (n % 4096 == 0), "alignment test"); sx_assume(n >= 1 && n <= ~0ull - 4096); uint64_t c = Ceil_To_Next_Page(n); sx_check(c >= n && c - n < 4096 && c % 4096 == 0, "page ceiling"); }
// sequence numbers order doubles and are gap-free between neighbours
SX_MAIN(sequence) {
    uint64_t u = sx_make<uint64_t>("u"), w = sx_make<uint64_t>("w"); double x, y; memcpy(&x, &u, 8); memcpy(&y, &w, 8);
    sx_assume(x == x && y == y); sx_check((x < y) == (sequence_number(x) < sequence_number(y)) && (x == y) == (sequence_number(x) == sequence_number(y)), "order of doubles");
    if (u < 0x7ff0000000000000ull) { uint64_t v = u + 1; double z; memcpy(&z, &v, 8); sx_check(sequence_number(z) == sequence_number(x) + 1, "successor"); }
    uint32_t a = sx_make<uint32_t>("a"), b = sx_make<uint32_t>("b"); float f, g; memcpy(&f, &a, 4); memcpy(&g, &b, 4);
    sx_assume(f == f && g == g); sx_check((f < g) == (sequence_number(f) < sequence_number(g)) && (f == g) == (sequence_number(f) == sequence_number(g)), "order of floats");
    if (a < 0x7f800000u) { uint32_t c = a + 1; float h; memcpy(&h, &c, 4); sx_check(sequence_number(h) == sequence_number(f) + 1, "float successor"); }
}
SX_MAIN(chars) {
    int c = (int)sx_make<int32_t>("c");
    bool o = c >= '0' && c <= '7', d = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', h = d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    sx_check(is_oct(c) == o && is_dec(c) == d && is_hex(c) == h && is_lower(c) == lo && is_upper(c) == up && is_alpha(c) == (lo || up) && is_alnum(c) == (lo || up || d), "character classes");
}

/*--- strings ---*/
static std::string symstr(unsigned n, const char *nm) { std::string s(n, '\0'); for (unsigned i = 0; i < n; i++) s[i] = (char)sx_sym(8, nm); return s; }
// LIKE, against the definition: split the pattern into items, then match by position sets
#define LS (SX_THOROUGH ? 6 : 5)
#define LP (SX_THOROUGH ? 5 : 4)
static void like_run(char esc) {
    unsigned ns = sx_choose(LS + 1, "slen"), np = sx_choose(LP + 1, "plen"); std::string s = symstr(ns, "s"), p = symstr(np, "p");
    bool bad = false; unsigned reach = 1; // bit j: the items so far match s[0..j)
    for (unsigned i = 0; i < np && !bad; i++) {
        char c = p[i];
        if (c == esc) { if (++i == np) { bad = true; break; } c = p[i]; if (!(c == '%' || c == '_' || c == esc)) { bad = true; break; } }
        else if (c == '%') { unsigned r = 0, acc = 0; for (unsigned j = 0; j <= ns; j++) { acc |= (reach >> j) & 1; r |= acc << j; } reach = r; continue; }
        else if (c == '_') { reach = (reach << 1) & ((1u << (ns + 1)) - 1); continue; }
        unsigned r = 0; for (unsigned j = 0; j < ns; j++) r |= (((reach >> j) & 1) & (unsigned)(s[j] == c)) << (j + 1);
        reach = r;
    }
    bool th = false, r = false; try { r = like(s, p, esc); } catch (const m::runtime_error &) { th = true; }
    sx_check(th == bad, "malformed patterns, and only they, are rejected"); if (bad) { sx_cover("rejected"); return; }
    sx_check(r == (bool)((reach >> ns) & 1), "LIKE follows its pattern"); if (r) sx_cover("match");
}
SX_MAIN(like_default) { like_run('\\'); }
SX_MAIN(like_escape) { like_run('!'); }

#define EN (SX_THOROUGH ? 8 : 5)
SX_MAIN(escaping) {
    unsigned n = sx_choose(EN + 1, "len"); std::string s = symstr(n, "s"); std::string e = escape(s); sx_check(unescape(e) == s, "unescape inverts escape");
    unsigned q = 0; for (unsigned i = 0; i < e.size(); i++) { if (e[i] == '\\') { i++; sx_check(i < e.size() && (e[i] == '\\' || e[i] == '"' || e[i] == 'n'), "escape emits complete sequences"); continue; } sx_check(e[i] != '"' && e[i] != '\n', "escaped text has no bare quote or newline"); q++; }
    sx_check(unquote(quote(s)) == s, "unquote inverts quote"); sx_check(interpret(quote(e)) == s, "interpret inverts escape and quote");
    if (n == 1) sx_check(escape(s[0]) == e, "escape of a character");
    sx_observe("elen", e.size());
}
SX_MAIN(escaping_custom) {
    unsigned n = sx_choose(4, "len"); std::string s = symstr(n, "s"); char esc = (char)sx_sym(8, "esc"), quo = (char)sx_sym(8, "quo");
    sx_assume(esc != quo && esc != 'n' && quo != 'n' && esc != '\n' && quo != '\n' && esc != 0 && quo != 0);
    sx_check(unescape(escape(s, esc, quo), esc, quo) == s, "unescape inverts escape for any escape and quote character");
}
SX_MAIN(unescaping) {
    unsigned n = sx_choose(EN + 1, "len"); std::string s = symstr(n, "s"); std::string u = unescape(s); sx_check(u.size() <= n, "never longer");
    std::string w; for (unsigned i = 0; i < n; i++) { if (s[i] == '\\' && i + 1 < n && (s[i + 1] == '\\' || s[i + 1] == '"')) { w += s[++i]; } else if (s[i] == '\\' && i + 1 < n && s[i + 1] == 'n') { w += '\n'; i++; } else w += s[i]; }
    sx_check(u == w, "unescape replaces exactly the escape sequences");
    bool th = false; std::string r; try { r = unquote(s); } catch (const m::invalid_argument &) { th = true; sx_cover("rejected"); }
    bool bad = n < 2 || (s[0] == '"' && s[n - 1] != '"'); sx_check(th == bad, "unquote rejects unmatched quotes"); if (!bad) sx_check(r == (s[0] == '"' ? s.substr(1, n - 2) : s), "unquote strips exactly the quotes");
}
SX_MAIN(replacing) {
    unsigned n = sx_choose(5, "len"); std::string s = symstr(n, "s"); std::string h = html_escape(s), w;
    for (char c : s) { if (c == '&') w += "&amp;"; else if (c == '<') w += "&lt;"; else if (c == '>') w += "&gt;"; else w += c; }
    sx_check(h == w, "html_escape"); 
    std::string a = symstr(sx_choose(4, "n2"), "t"), f = symstr(1 + sx_choose(2, "nf"), "f"), t = symstr(sx_choose(3, "nt"), "to");
    std::string x; for (size_t i = 0; i < a.size();) { if (i + f.size() <= a.size() && a.compare(i, f.size(), f) == 0) { x += t; i += f.size(); } else x += a[i++]; }
    sx_check(replace_all(a, f, t) == x, "replace_all replaces every occurrence once");
}
SX_MAIN(cstrings) {
    unsigned n = sx_choose(4, "n"), k = sx_choose(4, "k"); std::string a = symstr(n, "a"), b = symstr(k, "b"); for (char c : a) sx_assume(c != 0); for (char c : b) sx_assume(c != 0);
    bool eq = a == b; sx_check(streq(a.c_str(), b.c_str()) == eq, "streq"); unsigned q = sx_choose(5, "q"); sx_check(strneq(a.c_str(), b.c_str(), q) == (a.substr(0, q) == b.substr(0, q)), "strneq");
    sx_check(StrEqual{}(a.c_str(), b.c_str()) == eq && StrEqualWithNull{}(a.c_str(), b.c_str()) == eq && !StrEqualWithNull{}(a.c_str(), nullptr) && !StrEqualWithNull{}(nullptr, b.c_str()) && StrEqualWithNull{}(nullptr, nullptr), "comparison functors");
    StrHash H; sx_check(H(a.c_str()) == H(a) && H(std::string_view(a)) == H(a) && H(a.c_str(), a.size()) == H(a), "every spelling of a string hashes alike"); sx_check(!eq || H(a) == H(b), "equal strings hash alike");
    bool allsp = true; for (char c : a) allsp &= (c == ' ' || (c >= 9 && c <= 13)); sx_check(m::isspace(a.c_str()) == allsp && m::isspace(a.c_str(), n) == allsp, "blank test");
}
// calendar texts: put_tm then get_tm
SX_MAIN(tm_roundtrip) {
    std::tm t{}; int y = (int)(int16_t)sx_sym(16, "y"); sx_assume(y >= -9999 && y <= 9999); t.tm_year = y - 1900; t.tm_mon = sx_range(0, 11, "mon"); t.tm_mday = sx_range(1, 31, "day"); t.tm_hour = sx_range(0, 23, "h"); t.tm_min = sx_range(0, 59, "m"); t.tm_sec = sx_range(0, 60, "s");
    std::stringstream ss; ss << put_tm(t); std::tm r{}; ss >> get_tm(r);
    sx_check(!ss.fail(), "parses"); sx_check(r.tm_year == t.tm_year && r.tm_mon == t.tm_mon && r.tm_mday == t.tm_mday && r.tm_hour == t.tm_hour && r.tm_min == t.tm_min && r.tm_sec == t.tm_sec, "calendar text round trip");
}
