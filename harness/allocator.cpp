// C25: list_allocator and malloc_allocator: disjoint, aligned, stable blocks; everything returned
#include "sx.h"
#include <sys/mman.h>
#include <cstring>
#include <vector>
// stand-in for the kernel: pages of one arena, the highest free run first (neighbouring regions, as Linux hands them out)
constexpr unsigned PAGES = 48, PG = 4096;
alignas(16384) static unsigned char arena[PAGES * PG];
static bool mapped[PAGES]; static unsigned fails;
static void *sx_mmap(void *, size_t n, int, int, int, long) {
    unsigned k = n / PG; if (n % PG || !k) { fails++; return MAP_FAILED; }
    for (int p = (int)PAGES - (int)k; p >= 0; p--) { bool ok = true; for (unsigned i = 0; i < k; i++) ok &= !mapped[p + i]; if (ok) { for (unsigned i = 0; i < k; i++) mapped[p + i] = true; return arena + p * PG; } }
    return MAP_FAILED;
}
static int sx_munmap(void *a, size_t n) {
    if (n == 0) return -1; size_t o = (unsigned char*)a - arena; sx_check(o % PG == 0 && n % PG == 0 && o + n <= sizeof arena, "only whole mapped pages are unmapped");
    for (unsigned i = 0; i < n / PG; i++) { sx_check(mapped[o / PG + i], "a page is unmapped once"); mapped[o / PG + i] = false; } return 0;
}
#define mmap sx_mmap
#define munmap sx_munmap
#include <mutable/util/list_allocator.hpp>
#include <mutable/util/malloc_allocator.hpp>
#undef mmap
#undef munmap
using namespace m;
static unsigned used() { unsigned n = 0; for (bool b : mapped) n += b; return n; }
struct Block { unsigned char *p; size_t n, al; unsigned char tag; };
template<typename A> struct Client {
    A *a; std::vector<Block> live; unsigned char next = 1;
    void alloc(size_t n, size_t al, bool in_arena) {
        unsigned char *p = (unsigned char*)a->allocate(n, al); if (n == 0) { sx_check(p == nullptr, "no block for size zero"); a->deallocate(p, 0); return; }
        sx_check(p != nullptr, "a block"); sx_check(al == 0 || ((uintptr_t)p & (al - 1)) == 0, "the block is aligned");
        if (in_arena) { sx_check(p >= arena && p + n <= arena + sizeof arena, "inside mapped memory"); size_t o = p - arena; for (size_t i = o / PG; i <= (o + n - 1) / PG; i++) sx_check(mapped[i], "the block is mapped"); }
        for (auto &b : live) if (in_arena) sx_check(p + n <= b.p || b.p + b.n <= p, "blocks are disjoint");
        Block b{p, n, al, next++}; fill(b); live.push_back(b);
    }
    static void fill(Block &b) { if (b.n > 64) { memset(b.p, b.tag, 32); memset(b.p + b.n - 32, b.tag, 32); } else for (size_t i = 0; i < b.n; i++) b.p[i] = b.tag; }
    static void verify(Block &b) { bool ok = true; for (size_t i = 0; i < (b.n > 64 ? 32 : b.n); i++) ok &= b.p[i] == b.tag; if (b.n > 64) for (size_t i = b.n - 32; i < b.n; i++) ok &= b.p[i] == b.tag; sx_check(ok, "the contents stay until the block is released"); }
    void free(unsigned i) { verify(live[i]); a->deallocate(live[i].p, live[i].n); live.erase(live.begin() + i); }
    void finish() { for (auto &b : live) verify(b); if (live.size() > 1 && sx_choose(2, "fifo")) while (!live.empty()) free(0); else while (!live.empty()) free(live.size() - 1); }
};
static const size_t SIZES[] = {1, 24, 32, 100, 2040, 4088, 4089, 6000, 0, 8, 16, 40, 4096}; static const size_t ALS[] = {0, 64, 8192, 4096, 8, 16384};
static void step(Client<list_allocator> &c, unsigned ns, unsigned na) { unsigned k = sx_choose(ns + c.live.size(), "op"); if (k < ns) c.alloc(SIZES[k], ALS[na == 1 ? 0 : sx_choose(na, "al")], true); else c.free(k - ns); }
static list_allocator mk() { switch (sx_choose(3, "kind")) { case 0: return list_allocator(); case 1: return list_allocator(6000); default: return list_allocator(0, AllocationStrategy::Exponential); } }
#define H (SX_THOROUGH ? 5 : 4)
SX_MAIN(history) { { list_allocator a; Client<list_allocator> c{&a}; for (unsigned i = 0; i < H; i++) step(c, SX_THOROUGH ? 13 : 9, 1); c.finish(); } sx_check(used() == 0 && !fails, "all memory is returned"); }
SX_MAIN(history_aligned) { { list_allocator a; Client<list_allocator> c{&a}; for (unsigned i = 0; i < H - 1; i++) step(c, 8, SX_THOROUGH ? 6 : 3); c.finish(); } sx_check(used() == 0 && !fails, "all memory is returned"); }
SX_MAIN(history_kinds) { { list_allocator a(mk()); Client<list_allocator> c{&a}; for (unsigned i = 0; i < 3; i++) step(c, SX_THOROUGH ? 13 : 9, SX_THOROUGH ? 2 : 1); c.finish(); } sx_check(used() == 0 && !fails, "all memory is returned"); }
SX_MAIN(fragment) { // free any subset of five neighbouring blocks in any of two orders, then reuse the holes
    { list_allocator a; Client<list_allocator> c{&a}; for (unsigned i = 0; i < 5; i++) c.alloc(SIZES[1 + sx_choose(3, "size")], 0, true); unsigned m = sx_choose(31, "freed") + 1; if (sx_choose(2, "upward")) { for (int i = 0, k = 0; i < 5; i++) if (m >> i & 1) c.free(i - k++); } else for (int i = 4; i >= 0; i--) if (m >> i & 1) c.free(i);
      unsigned before = used(); c.alloc(24, 0, true); sx_check(used() == before, "a hole is reused"); c.alloc(sx_choose(2, "big") ? 200 : 60, 0, true); sx_check(used() == before, "a hole or the remainder of the page is reused"); c.finish(); }
    sx_check(used() == 0 && !fails, "all memory is returned");
}
SX_MAIN(coalesced) { // after everything is released, each mapped region is one chunk again
    list_allocator a; Client<list_allocator> c{&a}; unsigned n = 1 + sx_choose(4, "n"); for (unsigned i = 0; i < n; i++) c.alloc(SIZES[sx_choose(6, "size")], 0, true); unsigned p = used(); c.finish(); sx_check(used() == p, "released blocks stay with the allocator"); sx_check(a.num_chunks_available() >= 1 && a.num_chunks_available() <= p, "no more chunks than pages"); if (p == 1) { sx_check(a.num_chunks_available() == 1, "one chunk"); void *x = a.allocate(4088, 0); sx_check(used() == p, "the whole page can be handed out again"); a.deallocate(x, 4088); }
}
// sizes: one path per header position, every size with that header position
static size_t symsize(const char *n, unsigned classes) { unsigned k = 1 + sx_choose(classes, "words"); size_t r = sx_range(0, 7, n, 8); return 8 * k - r; }
SX_MAIN(symbolic_sizes) {
    { list_allocator a; unsigned M = SX_THOROUGH ? 9 : 5; size_t n1 = symsize("n1", M), n2 = symsize("n2", M);
      char *p = (char*)a.allocate(n1, 0), *q = (char*)a.allocate(n2, 0); sx_check(p >= (char*)arena && q >= (char*)arena && p + n1 <= (char*)arena + sizeof arena && q + n2 <= (char*)arena + sizeof arena, "inside the arena"); sx_check(p + n1 <= q || q + n2 <= p, "blocks are disjoint"); sx_check(used() == 1, "one page");
      p[0] = 1; q[0] = 2; sx_check(p[0] == 1, "contents");
      switch (sx_choose(3, "order")) {
        case 0: { a.deallocate(p, n1); sx_check(q[0] == 2, "contents"); size_t n3 = symsize("n3", M); char *r = (char*)a.allocate(n3, 0); sx_check(r + n3 <= q || q + n2 <= r, "blocks are disjoint"); r[0] = 3; sx_check(q[0] == 2, "contents"); a.deallocate(q, n2); sx_check(r[0] == 3, "contents"); a.deallocate(r, n3); break; }
        case 1: { a.deallocate(q, n2); sx_check(p[0] == 1, "contents"); size_t n3 = symsize("n3", M); char *r = (char*)a.allocate(n3, 0); sx_check(r + n3 <= p || p + n1 <= r, "blocks are disjoint"); r[0] = 3; sx_check(p[0] == 1, "contents"); a.deallocate(r, n3); sx_check(p[0] == 1, "contents"); a.deallocate(p, n1); break; }
        case 2: a.deallocate(q, n2); a.deallocate(p, n1); }
      sx_check(a.num_chunks_available() == 1, "one chunk again"); }
    sx_check(used() == 0, "all memory is returned");
}
SX_MAIN(symbolic_large) { // sizes around the page boundary
    { list_allocator a; size_t n1 = (sx_choose(2, "two pages") ? 2 * PG : PG) - sx_range(0, 7, "r1", 8) + 8 * sx_choose(4, "w1") - 24; char *p = (char*)a.allocate(n1, 0); sx_check(p >= (char*)arena && p + n1 <= (char*)arena + sizeof arena, "inside the arena"); size_t last = p + n1 - 1 - (char*)arena; sx_check(mapped[last / PG], "mapped"); p[0] = 2; size_t n2 = symsize("n2", 3); char *q = (char*)a.allocate(n2, 0); sx_check(p + n1 <= q || q + n2 <= p, "blocks are disjoint"); q[0] = 3; sx_check(p[0] == 2, "contents"); if (sx_choose(2, "order")) { a.deallocate(p, n1); sx_check(q[0] == 3, "contents"); a.deallocate(q, n2); } else { a.deallocate(q, n2); sx_check(p[0] == 2, "contents"); a.deallocate(p, n1); } }
    sx_check(used() == 0, "all memory is returned");
}
SX_MAIN(moves) { // moving, swapping, copying: the allocations follow the state
    { list_allocator a(sx_choose(2, "initial") ? 5000 : 0), b; Client<list_allocator> c{&a}, d{&b}; unsigned n = sx_choose(3, "n"), k = sx_choose(3, "k"); for (unsigned i = 0; i < n; i++) c.alloc(SIZES[sx_choose(5, "size")], 0, true); for (unsigned i = 0; i < k; i++) d.alloc(SIZES[sx_choose(5, "size")], 0, true); if (n && sx_choose(2, "free one")) c.free(0);
      switch (sx_choose(4, "op")) {
        case 0: { swap(a, b); c.a = &b; d.a = &a; c.alloc(50, 0, true); d.alloc(5000, 0, true); c.finish(); d.finish(); break; }
        case 1: { list_allocator e(std::move(a)); c.a = &e; c.alloc(50, 0, true); void *x = a.allocate(10); a.deallocate(x, 10); c.finish(); d.finish(); break; }
        case 2: { list_allocator e; e = std::move(a); c.a = &e; c.alloc(50, 0, true); c.finish(); d.finish(); break; }
        case 3: { list_allocator e(a); c.alloc(50, 0, true); Client<list_allocator> f{&e}; f.alloc(100, 0, true); c.alloc(4000, 0, true); f.finish(); c.finish(); d.finish(); break; } } }
    sx_check(used() == 0 && !fails, "all memory is returned");
}
struct alignas(64) Wide { char x[128]; };
SX_MAIN(typed) { // the typed convenience interface
    { list_allocator a; unsigned n = 1 + sx_choose(4, "n"); Wide *w = a.allocate<Wide>(n); uint64_t *u = a.allocate<uint64_t>(); char *s = a.allocate<char>(n); Wide *v = a.allocate<Wide>(); sx_check(((uintptr_t)w & 63) == 0 && ((uintptr_t)v & 63) == 0 && ((uintptr_t)u & 7) == 0, "aligned for the type"); memset(w, 1, n * sizeof(Wide)); memset(u, 2, 8); memset(s, 3, n); memset(v, 4, sizeof(Wide)); sx_check(w[n - 1].x[127] == 1 && w->x[0] == 1 && *u == 0x0202020202020202ull && s[0] == 3 && s[n - 1] == 3 && v->x[0] == 4, "contents"); a.deallocate(w, n); a.deallocate(u); a.deallocate(s, n); a.deallocate(v); auto up = a.make_unique<uint32_t>(); *up = 7; a.dispose(std::move(up)); auto ua = a.make_unique<uint32_t[]>(n); ua[n - 1] = 7; a.dispose(std::move(ua), n); }
    sx_check(used() == 0 && !fails, "all memory is returned");
}
SX_MAIN(from_malloc) { uint64_t l = sx_heap_live(); { malloc_allocator a; size_t n = 1 + sx_choose(40, "n"), al = sx_choose(2, "aligned") ? (size_t)1 << sx_choose(13, "al") : 0; char *p = (char*)a.allocate(n, al), *q = (char*)a.allocate(n, al); sx_check(p && q && p != q && (al == 0 || (((uintptr_t)p | (uintptr_t)q) & (al - 1)) == 0), "aligned, distinct blocks"); sx_check((((uintptr_t)p | (uintptr_t)q) & (al ? 7 : 15)) == 0, "at least the usual alignment"); p[0] = 1; p[n - 1] = 1; q[0] = 2; q[n - 1] = 2; sx_check(p[n - 1] == 1 && q[0] == 2, "contents"); a.deallocate(p, n); a.deallocate(q, n); } sx_check(sx_heap_live() == l, "all memory is returned"); }
