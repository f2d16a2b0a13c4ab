// C15: importing delimiter-separated values
#include "sqlenv.hpp"
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hash(const char *s) { uint64_t n = 0; while (s[n]) n++; return n; }   // stand in for the string hash
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hashn(const char *s, size_t l) { uint64_t n = 0; while (n < l && s[n]) n++; return n; }
#include "storage/RowStore.hpp"
#include <mutable/io/Reader.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
using namespace m::storage;
enum Kind { KB, K1, K2, K8, KX, KZ, KC, KD };
static const PrimitiveType *type_of(Kind k) { switch (k) { case KB: return BO(); case K1: return I1(); case K2: return I2(); case K8: return I8(); case KX: return DE(2, 1); case KZ: return DE(18, 2); case KD: return DA(); default: return CH(8); } }
struct Cell { bool null = true, shown = true; int64_t i = 0; std::string s; };
struct Import { const Table &T; std::vector<Kind> kinds; unsigned rows = 0; unsigned errors = 0; std::vector<std::vector<Cell>> expected; };
static const char *const names[] = {"a", "b", "c"};
static Table &make(Env &E, const std::vector<Kind> &k) { std::vector<std::pair<const char*, const PrimitiveType*>> cols; for (unsigned i = 0; i < k.size(); i++) cols.push_back({names[i], type_of(k[i])}); Table &T = E.table("T", cols); RowLayoutFactory f; T.layout(f); T.store(std::make_unique<RowStore>(T)); return T; }
// what the text of a cell denotes; no value: malformed
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool fits(__int128 v, Kind k) { switch (k) { case K1: case KX: return v >= -128 && v <= 127; case K2: return v >= -32768 && v <= 32767; default: return v >= INT64_MIN && v <= INT64_MAX; } }
static bool denotes(Kind k, const std::string &t, int64_t &v) {
    if (k == KB) { v = t == "TRUE"; return v || t == "FALSE"; }
    size_t p = 0, n = t.size(); bool neg = false; if (p < n && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-';
    unsigned scale = k == KX ? 1 : k == KZ ? 2 : 0, digits = 0; __int128 x = 0; for (; p < n && digit(t[p]); p++, digits++) x = x * 10 + (t[p] - '0');
    for (unsigned j = 0; j < scale; j++) x *= 10;
    if (scale && p < n && t[p] == '.') { p++; __int128 w = scale == 2 ? 10 : 1; for (; p < n && digit(t[p]); p++, digits++) { x += w * (t[p] - '0'); w /= 10; } }
    if (p < n || !digits) return false; if (neg) x = -x; if (!fits(x, k)) return false; v = (int64_t)x; return true; }
// a date: the digits of year, month and day; not judged: dates that are no days, text behind a date
static bool date(const std::string &t, char quote, int64_t &v) { size_t p = 0; bool q = p < t.size() && t[p] == quote; p += q; auto num = [&](unsigned n, int &x) { x = 0; while (n--) { if (p == t.size() || !digit(t[p])) return false; x = x * 10 + (t[p++] - '0'); } return true; }; int y, m, d; if (p < t.size() && t[p] == '-') sx_assume(false); if (!num(4, y)) return false; if (p == t.size() || t[p++] != '-' || !num(2, m)) return false; if (p == t.size() || t[p++] != '-' || !num(2, d)) return false; if (q && (p == t.size() || t[p++] != quote)) return false;
    sx_assume(p == t.size()); sx_assume(m >= 1 && m <= 12 && d >= 1 && d <= 28); v = y << 9 | m << 5 | d; return true; }
struct Text { const std::string &t; size_t p = 0; DSVReader::Config cfg; bool end() const { return p == t.size(); } bool eol() const { return end() || t[p] == '\n'; } bool stop() const { return eol() || t[p] == cfg.delimiter; } std::string plain() { std::string s; while (!stop()) s += t[p++]; return s; } };
// the rows that a file consists of
static void oracle(const std::string &in, size_t from, const DSVReader::Config &cfg, const std::vector<int> &cols, Import &I) { Text X{in, from, cfg};
    while (!X.end() && I.expected.size() < cfg.num_rows) { std::vector<Cell> row(I.kinds.size()); bool bad = false;
        for (size_t j = 0; j < cols.size() && !bad; j++) { if (j) { if (!X.end() && in[X.p] == cfg.delimiter) X.p++; else { bad = true; break; } }
            bool last = j + 1 == cols.size(); if (X.stop() && (last ? X.eol() : !X.eol())) continue;   // no text: NULL
            Kind k = cols[j] < 0 ? KC : I.kinds[cols[j]]; Cell c; bool ok = true;
            if (k == KC && !X.end() && in[X.p] == cfg.quote) { X.p++; bool skip = cols[j] < 0;
                for (;;) { if (X.end()) break; char ch = in[X.p];
                    if (cfg.escape == cfg.quote && ch == cfg.quote) { X.p++; if (X.end() || in[X.p] != cfg.quote) break; c.s += cfg.quote; X.p++; continue; }
                    if (ch == cfg.quote) { X.p++; break; } if (ch == cfg.escape) { X.p++; if (X.end()) break; c.s += in[X.p++]; continue; } c.s += ch; X.p++; }
                sx_assume(X.stop()); if (skip) sx_assume(c.s.find('\n') == std::string::npos && c.s.find(cfg.quote) == std::string::npos && c.s.find(cfg.escape) == std::string::npos); }   // not judged: text after a closing quote; quotes and line ends within columns that are skipped
            else if (k == KC) { c.s = X.plain(); if (cols[j] >= 0 && c.s.find(cfg.quote) != std::string::npos) ok = false; }
            else { std::string s = X.plain(); ok = k == KD ? date(s, cfg.quote, c.i) : denotes(k, s, c.i); if (k == KD && !ok) for (size_t q = 1; q < s.size(); q++) if (q != 11 || s[0] != cfg.quote) sx_assume(s[q] != cfg.quote); }   // not judged: how much of a malformed date that contains quotes is skipped
            if (!ok) I.errors++; else { c.null = false; if (cols[j] >= 0) row[cols[j]] = c; } }
        if (!bad && !X.eol()) bad = true;
        if (bad) { I.errors++; while (!X.eol()) X.p++; } else I.expected.push_back(row);
        if (!X.end()) X.p++; } }
static void import(Env &E, Import &I, DSVReader::Config cfg, const std::string &in, unsigned max) {
    E.diag.clear(); DSVReader R(I.T, cfg, E.diag); std::istringstream is(in); static_cast<Reader&>(R)(is, "-");
    sx_check(I.T.store().num_rows() == I.expected.size(), "one row per well-formed line"); sx_check((E.diag.num_errors() > 0) == (I.errors > 0), "an error is reported exactly when a cell or line is malformed");
    Schema S = I.T.schema(); StackMachine sm = Interpreter::compile_load(S, I.T.store().memory().addr(), I.T.layout(), S); Tuple t(S); Tuple *args[] = {&t};
    for (auto &row : I.expected) { sm(args); for (unsigned i = 0; i < row.size(); i++) { Cell &c = row[i]; sx_check(t.is_null(i) == c.null, "NULL exactly for cells without text and malformed ones"); if (c.null) continue;
        if (I.kinds[i] == KC) { const char *s = (const char*)t[i].as_p(); bool same = true; for (unsigned j = 0; j <= c.s.size(); j++) same &= s[j] == (j < c.s.size() ? c.s[j] : 0); sx_check(same, "the string in the file"); }
        else if (I.kinds[i] == KB) sx_check(t[i].as_b() == (bool)c.i, "the Boolean in the file"); else sx_check(t[i].as_i() == c.i, "the number in the file"); } sx_cover("row"); }
    if (I.errors) sx_cover("error"); if (I.expected.size() > 1) sx_cover("rows"); }
static std::string bytes(unsigned max, const char *alphabet = nullptr) { unsigned n = sx_choose(max + 1, "length"); std::string s; for (unsigned i = 0; i < n; i++) { char c; if (alphabet) c = alphabet[sx_choose(strlen(alphabet), "char")]; else { c = sx_make<char>("byte"); sx_assume(c != 0); } s += c; } return s; }
static std::vector<int> plain(unsigned n) { std::vector<int> v; for (unsigned i = 0; i < n; i++) v.push_back(i); return v; }
static DSVReader::Config config() { DSVReader::Config c; switch (sx_choose(3, "config")) { case 0: return c; case 1: return DSVReader::Config::CSV(); default: c.delimiter = char(0xFF); c.quote = '\''; c.escape = char(0x80); return c; } }
static void one(std::vector<Kind> k, const std::string &in, DSVReader::Config cfg) { Env E; Import I{make(E, k), k}; oracle(in, 0, cfg, plain(k.size()), I); import(E, I, cfg, in, in.size()); }
// any bytes, one column
SX_MAIN(boolean) { static const char *const P[] = {"", "TRU", "FALS", "TRUE\nFAL"}; std::string in = P[sx_choose(4, "prefix")]; one({KB}, in + bytes(SX_THOROUGH ? 4 : 3), {}); }
SX_MAIN(small) { one({sx_choose(2, "type") ? K1 : K2}, bytes(SX_THOROUGH ? 5 : 4), {}); }
SX_MAIN(large) { static const char *const P[] = {"922337203685477580", "-922337203685477580", "+92233720368547758", "-3276", "0000000000000000000012"}; std::string in = P[sx_choose(5, "prefix")]; one({sx_choose(2, "type") ? K8 : K2}, in + bytes(3), {}); }
SX_MAIN(decimal) { one({KX}, bytes(SX_THOROUGH ? 5 : 4), {}); }
SX_MAIN(precise) { static const char *const P[] = {"92233720368547758.", "-92233720368547758.0", "9223372036854775", "-.", "1.9"}; std::string in = P[sx_choose(5, "prefix")]; one({KZ}, in + bytes(3), {}); }
SX_MAIN(string) { one({KC}, bytes(SX_THOROUGH ? 5 : 4), config()); }
SX_MAIN(dates) { std::string t = sx_choose(2, "quoted") ? "\"2024-06-17\"" : "2024-06-17"; unsigned p = sx_choose(t.size(), "position"); switch (sx_choose(3, "change")) { case 0: for (unsigned i = p; i < p + 2 && i < t.size(); i++) { t[i] = sx_make<char>("byte"); sx_assume(t[i] != 0); } break; case 1: t.erase(p); break; default: t.insert(p, 1, sx_make<char>("byte")); sx_assume(t[p] != 0); } one({KD}, t, {}); }
// rows of several columns
SX_MAIN(columns) { static const Kind K[][2] = {{K1, KC}, {KC, K1}, {KC, KC}}; unsigned k = sx_choose(3, "types"); one({K[k][0], K[k][1]}, bytes(SX_THOROUGH ? 5 : 4), sx_choose(2, "RFC 4180") ? DSVReader::Config::CSV() : DSVReader::Config()); }
SX_MAIN(records) { one({K1, KC}, bytes(SX_THOROUGH ? 7 : 6, "1,\n\"x"), sx_choose(2, "RFC 4180") ? DSVReader::Config::CSV() : DSVReader::Config()); }
SX_MAIN(limit) { DSVReader::Config cfg; cfg.num_rows = sx_choose(4, "limit"); one({K1}, bytes(SX_THOROUGH ? 7 : 6, "1,\n"), cfg); }
// headlines
SX_MAIN(header) { static const struct { const char *line; std::vector<int> cols; } H[] = {{"a,b", {0, 1}}, {"b,a", {1, 0}}, {"b", {1}}, {"b,zz,a", {1, -1, 0}}, {"zz,a", {-1, 0}}, {"a,zz", {0, -1}}}; unsigned h = sx_choose(6, "headline"); std::vector<Kind> k{K1, KC}; DSVReader::Config cfg; cfg.has_header = true; std::string head = H[h].line, in = head + "\n" + bytes(SX_THOROUGH ? 5 : 4); Env E; Import I{make(E, k), k}; oracle(in, head.size() + 1, cfg, H[h].cols, I); import(E, I, cfg, in, 0); }
SX_MAIN(skipped) { DSVReader::Config cfg; cfg.has_header = sx_choose(2, "has header"); cfg.skip_header = true; std::string head = bytes(2); sx_assume(head.find('\n') == std::string::npos); std::string in = head + "\n" + bytes(SX_THOROUGH ? 4 : 3); std::vector<Kind> k{K1}; Env E; Import I{make(E, k), k}; oracle(in, head.size() + 1, cfg, plain(1), I); import(E, I, cfg, in, 0); }
