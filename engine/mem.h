// Copy-on-write object memory.
#pragma once
#include "expr.h"
#include <cstdlib>
#include <string>
#include <vector>

enum OKind : uint8_t { O_Global, O_Const, O_Stack, O_Malloc, O_New, O_NewArr, O_Mmap };
struct Obj {
    uint32_t refs; OKind kind; bool sparse;
    uint64_t base, size;
    uint8_t *b; Expr **s;     // s may be null: no symbolic byte
    void *pages;              // sparse objects: std::map<uint64_t, page>
    const void *site;         // allocation site
};
constexpr unsigned ID_SHIFT = 24;
constexpr uint64_t OBJ_OFF = 0x1000;

inline Obj *newObj(OKind k, uint64_t base, uint64_t size, int fill, const void *site) {
    Obj *o = new Obj; o->refs = 1; o->kind = k; o->sparse = false; o->base = base; o->size = size; o->s = nullptr; o->pages = nullptr; o->site = site;
    o->b = (uint8_t*)malloc(size ? size : 1); memset(o->b, fill, size);
    return o;
}
inline Obj *cloneObj(Obj *o) {
    Obj *n = new Obj(*o); n->refs = 1;
    n->b = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->b, o->b, o->size);
    if (o->s) { n->s = (Expr**)malloc(o->size * sizeof(Expr*)); memcpy(n->s, o->s, o->size * sizeof(Expr*)); }
    return n;
}
inline void unrefObj(Obj *o) { if (o && --o->refs == 0) { free(o->b); free(o->s); delete o; } }

struct Chunk { uint32_t refs; Obj *o[64]; };
struct Mem {
    std::vector<Chunk*> tab;
    uint64_t nextId = 1;
    Mem() {}
    Mem(const Mem &m) : tab(m.tab), nextId(m.nextId) { for (auto c : tab) if (c) c->refs++; }
    Mem &operator=(const Mem&) = delete;
    ~Mem() { for (auto c : tab) dropChunk(c); }
    static void dropChunk(Chunk *c) { if (c && --c->refs == 0) { for (auto o : c->o) if (o) unrefObj(o); delete c; } }
    inline Obj *find(uint64_t addr) const {
        uint64_t id = addr >> ID_SHIFT, ci = id >> 6;
        if (ci >= tab.size()) return nullptr;
        Chunk *c = tab[ci];
        return c ? c->o[id & 63] : nullptr;
    }
    Obj *&slot(uint64_t id) {           // for writing the table
        uint64_t ci = id >> 6;
        if (ci >= tab.size()) tab.resize(ci + 1, nullptr);
        Chunk *&c = tab[ci];
        if (!c) { c = new Chunk; c->refs = 1; memset(c->o, 0, sizeof c->o); }
        else if (c->refs > 1) { Chunk *n = new Chunk(*c); n->refs = 1; for (auto o : n->o) if (o) o->refs++; c->refs--; c = n; }
        return c->o[id & 63];
    }
    Obj *writable(Obj *o) {
        uint64_t id = o->base >> ID_SHIFT;
        Obj *&s = slot(id);             // may bump refs of all objects in the chunk
        unsigned n = (o->size + OBJ_OFF) >> ID_SHIFT;
        if (s->refs > n + 1) {
            Obj *c = cloneObj(s);
            for (unsigned i = 0; i <= n; i++) { Obj *&t = slot(id + i); unrefObj(t); t = c; }
            c->refs = n + 1;
            return c;
        }
        return s;
    }
    uint64_t allocAt(uint64_t id, OKind k, uint64_t size, int fill, const void *site) {
        uint64_t base = (id << ID_SHIFT) + OBJ_OFF;
        Obj *o = newObj(k, base, size, fill, site);
        unsigned n = (size + OBJ_OFF) >> ID_SHIFT;
        for (unsigned i = 0; i <= n; i++) slot(id + i) = o;
        o->refs = n + 1;
        return base;
    }
    uint64_t alloc(OKind k, uint64_t size, int fill, const void *site) {
        uint64_t id = nextId; nextId += ((size + OBJ_OFF) >> ID_SHIFT) + 1;
        return allocAt(id, k, size, fill, site);
    }
    void free_(Obj *o) {
        uint64_t id = o->base >> ID_SHIFT; unsigned n = (o->size + OBJ_OFF) >> ID_SHIFT;
        for (unsigned i = 0; i <= n; i++) { Obj *&t = slot(id + i); Obj *x = t; t = nullptr; unrefObj(x); }
    }
};
