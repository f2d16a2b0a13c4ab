// C05: the lexer, against a classification of texts by the documented token grammar.
#include "sx.h"
#include "lex/Lexer.hpp"
#include <sstream>
#include <cstring>
using namespace m; using namespace m::ast;
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hash(const char *s) { uint64_t n = 0; while (s[n]) n++; return n; }   // stands in for the string hash: the lexer must not depend on its values
struct Null : std::ostream { Null() : std::ostream(nullptr) { } };
typedef unsigned char u8;
extern "C" __attribute__((used, noinline)) uint64_t sx_stub_hashn(const char *s, size_t l) { uint64_t n = 0; while (n < l && s[n]) n++; return n; }
static bool al(u8 c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
static bool dg(u8 c) { return (c >= '0') & (c <= '9'); }
static bool oc(u8 c) { return (c >= '0') & (c <= '7'); }
static bool hx(u8 c) { return dg(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
static bool id(u8 c) { return al(c) | dg(c) | (c == '_'); }
static bool blank(u8 c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }
struct KW { const char *t; TokenType tt; };
static const KW kws[] = {
#define M_KEYWORD(a, b) { #b, TK_##a },
#include <mutable/tables/Keywords.tbl>
#undef M_KEYWORD
};
constexpr unsigned NKW = sizeof(kws) / sizeof(*kws);
static bool all(const u8 *s, unsigned n, bool (*p)(u8)) { bool r = true; for (unsigned i = 0; i < n; i++) r &= p(s[i]); return r; }
// a number of the grammar: prefix, digits, dot, digits, exponent
static TokenType number(const u8 *s, unsigned n) {
    bool hex = n > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'); unsigned i = hex ? 2 : 0, a = 0, b = 0; bool dot = false, exp = false, octal = !hex && n && s[0] == '0';
    auto d = [&](u8 c) { return hex ? hx(c) : dg(c); };
    bool allOct = true;
    while (i < n && d(s[i])) { allOct &= oc(s[i]); i++; a++; }
    if (i < n && s[i] == '.') { dot = true; i++; while (i < n && d(s[i])) i++, b++; }
    if (!a && !b) return TK_ERROR;
    if (i < n && (s[i] == (hex ? 'p' : 'e') || s[i] == (hex ? 'P' : 'E'))) { exp = true; i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; unsigned e = 0; while (i < n && dg(s[i])) i++, e++; if (!e) return TK_ERROR; }
    if (i != n) return TK_ERROR;
    if (dot || exp) return hex ? TK_HEX_FLOAT : TK_DEC_FLOAT;
    if (hex) return TK_HEX_INT;
    if (octal) return allOct ? TK_OCT_INT : TK_ERROR;
    return TK_DEC_INT;
}
static bool stringlit(const u8 *s, unsigned n) {
    if (n < 2 || s[0] != '"') return false;
    unsigned i = 1; while (i < n && s[i] != '"') { if (s[i] == '\\') { if (i + 1 >= n) return false; u8 e = s[i + 1]; if (!((e == '"') | (e == '\\') | (e == 'n') | (e == 't'))) return false; i += 2; } else i++; }
    return i == n - 1;
}
static bool dateform(const u8 *s, unsigned n, const char *f) { unsigned l = (unsigned)strlen(f); if (l != n) return false; bool r = true; for (unsigned i = 0; i < n; i++) r &= f[i] == '0' ? dg(s[i]) : s[i] == (u8)f[i]; return r; }
// the token type of a whole text, TK_ERROR when it is no token
static TokenType classify(const u8 *s, unsigned n) {
    u8 c = s[0];
    if (n == 1) switch (c) { case '(': return TK_LPAR; case ')': return TK_RPAR; case '~': return TK_TILDE; case '+': return TK_PLUS; case '-': return TK_MINUS; case '*': return TK_ASTERISK; case '/': return TK_SLASH; case '%': return TK_PERCENT; case '=': return TK_EQUAL; case '<': return TK_LESS; case '>': return TK_GREATER; case ',': return TK_COMMA; case ';': return TK_SEMICOL; case '.': return TK_DOT; default:; }
    if (n == 2 && s[1] == '=') switch (c) { case '!': return TK_BANG_EQUAL; case '<': return TK_LESS_EQUAL; case '>': return TK_GREATER_EQUAL; default:; }
    if (n == 2 && s[1] == '.' && c == '.') return TK_DOTDOT;
    if (c == '"') return stringlit(s, n) ? TK_STRING_LITERAL : TK_ERROR;
    if (c == '\\') { bool semi = false; for (unsigned i = 1; i < n; i++) semi |= s[i] == ';'; return semi ? TK_ERROR : TK_INSTRUCTION; }
    if (dg(c) || c == '.') return number(s, n);
    if (n > 2 && c == 'd' && s[1] == '\'') { if (dateform(s, n, "d'0000-00-00'") || dateform(s, n, "d'-0000-00-00'")) return TK_DATE; if (dateform(s, n, "d'0000-00-00 00:00:00'") || dateform(s, n, "d'-0000-00-00 00:00:00'")) return TK_DATE_TIME; return TK_ERROR; }
    if ((al(c) | (c == '_')) && all(s, n, id)) {
        for (unsigned k = 0; k < NKW; k++) if (strlen(kws[k].t) == n) { bool eq = true; for (unsigned i = 0; i < n; i++) eq &= s[i] == (u8)kws[k].t[i]; if (eq) return kws[k].tt; }
        return TK_IDENTIFIER;
    }
    return TK_ERROR;
}
static ThreadSafeStringPool *P;
static unsigned tokens, errors;
static void lex(const u8 *s, unsigned n, bool readwrite = false, unsigned max = ~0u) {
    ThreadSafeStringPool pool; Null out; Diagnostic diag(false, out, out);
    std::string text((const char*)s, n); std::istringstream ro(readwrite ? "" : text); std::stringstream rw; if (readwrite) rw.str(text);
    tokens = errors = 0;
    { Lexer L(diag, pool, "in", readwrite ? (std::istream&)rw : ro); unsigned i = 0, line = 1, col = 1;
      auto skip = [&] { if (s[i] == '\n') { line++; col = 1; } else col++; i++; };
      for (;;) {
        for (;;) { if (i < n && blank(s[i])) skip(); else if (i + 1 < n && s[i] == '-' && s[i + 1] == '-') { while (i < n && s[i] != '\n') skip(); } else break; }
        Token t = L.next();
        if (i == n) { sx_check(t.type == TK_EOF && !t, "the end of the input is reported there"); sx_check(t.pos.line == line && t.pos.column == col, "the end is reported at its position"); sx_check(L.next().type == TK_EOF, "and again when asked again"); break; }
        sx_check(t.type != TK_EOF, "text is not skipped");
        const char *x = *t.text; unsigned l = (unsigned)strlen(x); sx_check(l > 0 && i + l <= n, "a token is a part of the input");
        bool same = true; for (unsigned j = 0; j < l; j++) same &= (u8)x[j] == s[i + j]; sx_check(same, "a token's text is the next part of the input");
        sx_check(t.pos.line == line && t.pos.column == col && t.pos.name[0] == 'i', "a token is reported where it starts");
        TokenType tt = classify(s + i, l); sx_check(tt == t.type, "a token has the type the grammar gives its text");
        for (unsigned k = l + 1; i + k <= n; k++) sx_check(classify(s + i, k) == TK_ERROR, "a token extends as far as the grammar allows");
        tokens++; if (t.type == TK_ERROR) errors++;
        sx_check(diag.num_errors() == errors, "each text outside the grammar is reported once");
        for (unsigned j = 0; j < l; j++) skip();
        if (tokens == max) break;
      } }
    sx_observe("tokens", tokens); sx_observe("errors", errors);
}
static u8 byte(const char *n) { u8 c = sx_make<u8>(n); sx_assume(c != 0); return c; }
SX_MAIN(bytes) { u8 s[8]; unsigned n = (unsigned)sx_choose(SX_THOROUGH ? 6 : 5, "n"); for (unsigned i = 0; i < n; i++) s[i] = byte("c"); lex(s, n); if (errors) sx_cover("error"); }
SX_MAIN(numbers) {   // texts of characters that occur in numbers
    u8 s[10]; unsigned n = 1 + (unsigned)sx_choose(SX_THOROUGH ? 7 : 6, "n");
    for (unsigned i = 0; i < n; i++) { u8 c = byte("c"); sx_assume(hx(c) | ((c | 32) == 'x') | ((c | 32) == 'p') | (c == '.') | (c == '+') | (c == '-')); s[i] = c; }
    sx_assume(dg(s[0]) | (s[0] == '.')); lex(s, n); if (errors) sx_cover("error");
}
SX_MAIN(literals) { u8 s[10]; unsigned n = 1 + (unsigned)sx_choose(SX_THOROUGH ? 8 : 7, "n"); s[0] = '"'; for (unsigned i = 1; i < n; i++) { u8 c = byte("c"); sx_assume((c == '"') | (c == '\\') | (c == 'n') | (c == 't') | (c == '\n') | (c == 'x') | (c >= 128)); s[i] = c; } lex(s, n); if (errors) sx_cover("error"); }
SX_MAIN(comments) { u8 s[10]; unsigned n = (unsigned)sx_choose(SX_THOROUGH ? 9 : 8, "n"); for (unsigned i = 0; i < n; i++) { u8 c = byte("c"); sx_assume((c == '-') | blank(c) | (c == '=')); s[i] = c; } lex(s, n); }
SX_MAIN(dates) {   // a date or datetime with arbitrary digits, one character replaced, left out or put in, or cut short
    const char *f[] = { "d'0000-00-00'", "d'-0000-00-00'", "d'0000-00-00 00:00:00'", "d'-0000-00-00 00:00:00'" };
    const char *t = f[sx_choose(4, "form")]; unsigned n = (unsigned)strlen(t), m = 0, how = (unsigned)sx_choose(5, "change"), at = how ? 2 + (unsigned)sx_choose(n - 2, "at") : 0; u8 s[32];
    for (unsigned i = 0; i < n; i++) {
        if (how == 1 && i == at) { s[m++] = byte("c"); continue; }
        if (how == 2 && i == at) continue;
        if (how == 3 && i == at) s[m++] = byte("c");
        if (how == 4 && i == at) break;
        if (t[i] == '0') { u8 c = byte("d"); sx_assume(dg(c)); s[m++] = c; } else s[m++] = (u8)t[i];
    }
    lex(s, m, false, 1); if (errors) sx_cover("error");
}
SX_MAIN(words) {   // every keyword: whole, one character replaced, one left out, one added
    const KW &k = kws[sx_choose(NKW, "keyword")]; unsigned n = (unsigned)strlen(k.t), how = (unsigned)sx_choose(4, "change"), at = how ? (unsigned)sx_choose(how == 3 ? n + 1 : n, "at") : 0, m = 0; u8 s[16];
    for (unsigned i = 0; i <= n; i++) { if (how == 3 && i == at) s[m++] = byte("c"); if (i == n) break; if (how == 1 && i == at) s[m++] = byte("c"); else if (!(how == 2 && i == at)) s[m++] = (u8)k.t[i]; }
    lex(s, m); if (errors) sx_cover("error");
}
SX_MAIN(instructions) { u8 s[8]; unsigned n = 1 + (unsigned)sx_choose(6, "n"); s[0] = '\\'; for (unsigned i = 1; i < n; i++) { u8 c = byte("c"); sx_assume((c == ';') | (c == '\\') | (c == 'a') | (c == ' ') | (c == '\n') | (c == '-')); s[i] = c; } lex(s, n); }
SX_MAIN(two_way) { u8 s[8]; unsigned n = (unsigned)sx_choose(5, "n"); for (unsigned i = 0; i < n; i++) { s[i] = byte("c"); sx_assume((s[i] == 'd') | (s[i] == '-') | (s[i] == '!') | (s[i] == '.') | (s[i] == '\'') | (s[i] == '<') | (s[i] == '1') | (s[i] == ' ')); } lex(s, n, true); }   // reading from a stream that is also writable
SX_MAIN(nul_bytes) {   // a NUL character is diagnosed wherever it stands outside a comment
    unsigned n = 1 + (unsigned)sx_choose(5, "n"); u8 s[8]; unsigned nul = (unsigned)sx_choose(n, "nul"); bool inComment = false;
    for (unsigned i = 0; i < n; i++) { u8 c = byte("c"); sx_assume((c == '"') | (c == 'a') | (c == '\\') | (c == ' ') | (c == '1') | (c == 'd') | (c == '\'')); s[i] = i == nul ? 0 : c; }
    ThreadSafeStringPool pool; Null out; Diagnostic diag(false, out, out); std::istringstream in(std::string((const char*)s, n));
    Lexer L(diag, pool, "in", in); unsigned k = 0; for (;; k++) { sx_check(k <= n, "lexing ends"); Token t = L.next(); if (t.type == TK_EOF) break; const char *x = *t.text; unsigned l = (unsigned)strlen(x); sx_check(l <= n, "a token is no longer than the input"); }
    sx_check(diag.num_errors() > 0, "a NUL character is reported"); sx_observe("errors", diag.num_errors());
}
