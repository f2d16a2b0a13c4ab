// C17: reader_writer_mutex and its guards under every schedule of small thread groups
#include "sx.h"
#include <mutable/util/reader_writer_lock.hpp>
using namespace m;
static reader_writer_mutex *M; static int readers, writers, version, finished, upgraded, refused;
static void in_read() { readers++; sx_check(writers == 0, "no writer while a reader holds the lock"); if (readers > 1) sx_cover("readers share"); sx_yield(); }
static void out_read() { sx_check(writers == 0, "no writer while a reader holds the lock"); readers--; }
static void in_write() { writers++; sx_check(writers == 1 && readers == 0, "a writer is alone"); sx_yield(); }
static void out_write() { sx_check(writers == 1 && readers == 0, "a writer is alone"); writers--; version++; }
// raw mutex
static void reader(void *) { M->lock_read(); in_read(); int v = version; out_read(); sx_check(v == version, "no write during a read"); M->unlock_read(); finished++; }
static void writer(void *) { M->lock_write(); in_write(); out_write(); M->unlock_write(); finished++; }
static void upgrader(void *) {
    M->lock_read(); in_read(); int v = version; readers--;   // from here on this thread no longer counts as a plain reader
    if (M->upgrade()) { in_write(); sx_check(v == version, "nothing was written between the read and the upgrade"); out_write(); upgraded++; M->unlock_write(); } else { refused++; sx_cover("upgrade refused"); M->unlock_read(); }
    finished++;
}
static void try_reader(void *) { if (M->try_lock_read()) { in_read(); out_read(); M->unlock_read(); } finished++; }
static void try_writer(void *) { if (M->try_lock_write()) { in_write(); out_write(); M->unlock_write(); } finished++; }
// guards
static void g_reader(void *) { { reader_writer_lock l(*M); l.lock_read(); sx_check(l.owns_read_lock() && !l.owns_write_lock(), "owns the read lock"); in_read(); out_read(); } finished++; }
static void g_writer(void *) { { reader_writer_lock l(*M); l.lock_write(); sx_check(l.owns_write_lock() && !l.owns_read_lock(), "owns the write lock"); in_write(); out_write(); } finished++; }
static void g_upgrader(void *) { { reader_writer_lock l(*M); int v; do { l.lock_read(); in_read(); v = version; readers--; } while (!l.upgrade()); sx_check(l.owns_write_lock(), "owns the write lock"); in_write(); sx_check(v == version, "nothing was written between the read and the upgrade"); out_write(); upgraded++; } finished++; }
static void s_reader(void *) { { read_lock l(*M); sx_check(l.owns_lock(), "owns the lock"); in_read(); out_read(); } finished++; }
static void s_writer(void *) { { write_lock l(*M); sx_check(l.owns_lock(), "owns the lock"); in_write(); out_write(); } finished++; }
static void s_upgrader(void *) {
    { upgrade_lock l(*M, std::defer_lock); write_lock w(*M, std::defer_lock); int v; do { l.lock(); in_read(); v = version; readers--; } while (w = l.upgrade(), !w.owns_lock()); sx_check(w.owns_lock() && !l.owns_read_lock(), "owns the write lock only"); in_write(); sx_check(v == version, "nothing was written between the read and the upgrade"); out_write(); upgraded++; }
    finished++;
}
typedef void (*Fn)(void *);
static void go(const Fn *f, unsigned nf, unsigned n) {
    reader_writer_mutex mtx; M = &mtx; unsigned prev = 0, w = 0, u = 0;
    for (unsigned i = 0; i < n; i++) { prev += sx_choose(nf - prev, "role"); u += f[prev] == g_upgrader || f[prev] == s_upgrader; if (u > 2 && !SX_THOROUGH) sx_assume(false); sx_spawn(f[prev], nullptr); }   // multisets of roles
    sx_join_all(); sx_check(finished == (int)n && readers == 0 && writers == 0, "every thread finishes and releases");
    sx_check(mtx.try_lock_write(), "afterwards the lock is free"); mtx.unlock_write(); sx_check(mtx.try_lock_read(), "afterwards the lock is free"); mtx.unlock_read();
}
static const Fn RAW[] = {reader, writer, upgrader, try_reader, try_writer}, GUARD[] = {g_reader, g_writer, g_upgrader}, SCOPED[] = {s_reader, s_writer, s_upgrader};
SX_MAIN(raw2) { go(RAW, 5, 2); }
SX_MAIN(raw3) { go(RAW, SX_THOROUGH ? 5 : 3, 3); }
SX_MAIN(guards2) { go(GUARD, 3, 2); }
SX_MAIN(guards3) { go(GUARD, 3, 3); }
SX_MAIN(scoped2) { go(SCOPED, 3, 2); }
SX_MAIN(scoped3) { go(SCOPED, 3, 3); }
SX_MAIN(raw4) { go(RAW, 3, 4); }
SX_MAIN(guard_moves) { // moving guards: each lock taken is released exactly once
    reader_writer_mutex a, b; 
    { reader_writer_lock x(a), y(b); if (sx_choose(2, "x held")) { if (sx_choose(2, "x write")) x.lock_write(); else x.lock_read(); } if (sx_choose(2, "y held")) { if (sx_choose(2, "y write")) y.lock_write(); else y.lock_read(); }
      bool yr = y.owns_read_lock(), yw = y.owns_write_lock(); if (sx_choose(2, "assign")) { x = std::move(y); sx_check(x.owns_read_lock() == yr && x.owns_write_lock() == yw, "the state moves"); } else { reader_writer_lock z(std::move(y)); sx_check(z.owns_read_lock() == yr && z.owns_write_lock() == yw && !y.owns_read_lock() && !y.owns_write_lock(), "the state moves"); } }
    sx_check(a.try_lock_write() && b.try_lock_write(), "both locks are free at the end");
}
SX_MAIN(scoped_moves) {
    reader_writer_mutex a, b;
    if (sx_choose(2, "kind")) { read_lock x(a, std::defer_lock), y(b, std::defer_lock); if (sx_choose(2, "x held")) x.lock(); bool h = sx_choose(2, "y held"); if (h) y.lock(); if (sx_choose(2, "assign")) { x = std::move(y); sx_check(x.owns_lock() == h, "the state moves"); } else { read_lock z(std::move(y)); sx_check(z.owns_lock() == h && !y.owns_lock(), "the state moves"); } }
    else { write_lock x(a, std::defer_lock), y(b, std::defer_lock); if (sx_choose(2, "x held")) x.lock(); bool h = sx_choose(2, "y held"); if (h) y.lock(); if (sx_choose(2, "assign")) { x = std::move(y); sx_check(x.owns_lock() == h, "the state moves"); } else { write_lock z(std::move(y)); sx_check(z.owns_lock() == h && !y.owns_lock(), "the state moves"); } }
    sx_check(a.try_lock_write() && b.try_lock_write(), "both locks are free at the end");
}
