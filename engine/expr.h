// Hash-consed bit-vector expressions over symbolic input bytes, plus the decision layers.
#pragma once
#include "sxe.h"
#include <z3.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <deque>
#include <bitset>
#include <algorithm>

enum EK : uint8_t { K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR, K_AND, K_OR, K_XOR,
                    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_CONST, K_SET, K_TAB };

static const int MAXSYM = 192;
struct Mask {
    uint64_t m[3];
    bool any() const { return m[0] | m[1] | m[2]; }
    bool test(int i) const { return m[i >> 6] >> (i & 63) & 1; }
    void set(int i) { m[i >> 6] |= 1ull << (i & 63); }
    int count() const { return __builtin_popcountll(m[0]) + __builtin_popcountll(m[1]) + __builtin_popcountll(m[2]); }
    int first() const { for (int k = 0; k < 3; ++k) if (m[k]) return k * 64 + __builtin_ctzll(m[k]); return -1; }
    bool inter(const Mask &o) const { return (m[0] & o.m[0]) | (m[1] & o.m[1]) | (m[2] & o.m[2]); }
    void add(const Mask &o) { m[0] |= o.m[0]; m[1] |= o.m[1]; m[2] |= o.m[2]; }
};

struct Set256 { uint64_t w[4]; 
    bool test(int i) const { return w[i >> 6] >> (i & 63) & 1; }
    void set(int i) { w[i >> 6] |= 1ull << (i & 63); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    bool full() const { return (w[0] & w[1] & w[2] & w[3]) == ~0ull; }
    int count() const { int c = 0; for (int i = 0; i < 4; ++i) c += __builtin_popcountll(w[i]); return c; }
    Set256 operator&(const Set256 &o) const { Set256 r; for (int i = 0; i < 4; ++i) r.w[i] = w[i] & o.w[i]; return r; }
    Set256 operator|(const Set256 &o) const { Set256 r; for (int i = 0; i < 4; ++i) r.w[i] = w[i] | o.w[i]; return r; }
    Set256 operator~() const { Set256 r; for (int i = 0; i < 4; ++i) r.w[i] = ~w[i]; return r; }
    bool operator==(const Set256 &o) const { return !memcmp(w, o.w, sizeof w); }
};

struct Expr {
    EK k; uint8_t w; int16_t var;  // var: index if single-variable support, else -1
    uint32_t id;
    Expr *a, *b, *c;
    uint64_t v;                    // K_CONST value, K_SYM index, K_EXTRACT offset
    Mask sup;
    uint64_t *tab;                 // 256 entries when var >= 0
    Set256 set;                    // K_SET
    uint64_t ev; uint32_t stamp;
    bool hasb; uint64_t lo, hi;    // unsigned range over all inputs
    Z3_ast z;
};
typedef Expr *E;

static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ull << (w - 1); return (int64_t)((v ^ s) - s); }

static inline uint64_t foldop(EK k, unsigned w, uint64_t a, uint64_t b, unsigned wa) {
    uint64_t M = msk(w);
    switch (k) {
    case K_ADD: return (a + b) & M; case K_SUB: return (a - b) & M; case K_MUL: return (a * b) & M;
    case K_UDIV: return b ? a / b : M;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - a) & M; return (uint64_t)(x / y) & M; }
    case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
    case K_SHL: return b >= w ? 0 : (a << b) & M;
    case K_LSHR: return b >= w ? 0 : (a >> b) & M;
    case K_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & M;
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sx(a, wa) < sx(b, wa); case K_SLE: return sx(a, wa) <= sx(b, wa);
    default: abort();
    }
}

struct Pool {
    std::vector<E> buckets;
    std::deque<Expr> store;
    std::vector<E> chain;
    std::deque<std::vector<uint64_t>> tabs;
    std::unordered_map<uint64_t, std::vector<E>> ht;
    uint32_t nextid = 1;
    uint32_t evstamp = 1;
    Z3_context z3 = nullptr;
    Z3_sort bv8 = nullptr;

    void init_z3() {
        Z3_config cfg = Z3_mk_config();
        z3 = Z3_mk_context(cfg);   // non rc: asts live as long as the context
        Z3_del_config(cfg);
    }
    void reset() {
        ht.clear(); store.clear(); tabs.clear(); nextid = 1; evstamp = 1;
        if (z3) { Z3_del_context(z3); z3 = nullptr; }
        init_z3();
    }
    static uint64_t h(const Expr &x) {
        uint64_t r = x.k * 0x9E3779B97F4A7C15ull + x.w * 1315423911ull;
        auto mix = [&](uint64_t v) { r ^= v + 0x9E3779B97F4A7C15ull + (r << 6) + (r >> 2); };
        mix(x.v); mix(x.a ? x.a->id : 0); mix(x.b ? x.b->id : 0); mix(x.c ? x.c->id : 0);
        if (x.k == K_SET) { for (int i = 0; i < 4; ++i) mix(x.set.w[i]); }
        if (x.k == K_TAB) for (int i = 0; i < 256; ++i) mix(x.tab[i]);
        return r;
    }
    E intern(Expr &x) {
        uint64_t hv = h(x);
        auto &v = ht[hv];
        for (E e : v) if (e->k == x.k && e->w == x.w && e->v == x.v && e->a == x.a && e->b == x.b && e->c == x.c &&
                          (x.k != K_SET || e->set == x.set) && (x.k != K_TAB || !memcmp(e->tab, x.tab, 2048))) return e;
        x.id = nextid++; x.stamp = 0; x.z = nullptr;
        x.sup = Mask{{0, 0, 0}};
        if (x.k == K_SYM || x.k == K_SET || x.k == K_TAB) x.sup.set((int)x.v);
        if (x.a) x.sup.add(x.a->sup);
        if (x.b) x.sup.add(x.b->sup);
        if (x.c) x.sup.add(x.c->sup);
        x.var = x.sup.count() == 1 ? x.sup.first() : -1;
        if (x.k == K_TAB) { tabs.emplace_back(x.tab, x.tab + 256); x.tab = tabs.back().data(); }
        else x.tab = nullptr;
        store.push_back(x);
        E e = &store.back();
        v.push_back(e);
        return e;
    }
    Expr blank(EK k, unsigned w) { Expr x; memset((void *)&x, 0, sizeof x); x.k = k; x.w = w; return x; }
    E cst(uint64_t v, unsigned w) { Expr x = blank(K_CONST, w); x.v = v & msk(w); return intern(x); }
    E sym(int i) { Expr x = blank(K_SYM, 8); x.v = i; return intern(x); }
    E set(int var, const Set256 &s) {
        if (s.empty()) return cst(0, 1);
        if (s.full()) return cst(1, 1);
        Expr x = blank(K_SET, 1); x.v = var; x.set = s; return intern(x);
    }
    E table(int var, unsigned w, const uint64_t *t) {
        bool same = true;
        for (int i = 1; i < 256 && same; ++i) same = t[i] == t[0];
        if (same) return cst(t[0], w);
        if (w == 1) { Set256 s{{0, 0, 0, 0}}; for (int i = 0; i < 256; ++i) if (t[i]) s.set(i); return set(var, s); }
        Expr x = blank(K_TAB, w); x.v = var; x.tab = const_cast<uint64_t *>(t); return intern(x);
    }
    uint64_t node(E e, uint64_t a, uint64_t b, uint64_t c) {
        switch (e->k) {
        case K_NOT: return a ^ 1;
        case K_ITE: return a ? b : c;
        case K_CONCAT: return (a << e->b->w) | b;
        case K_EXTRACT: return (a >> e->v) & msk(e->w);
        case K_ZEXT: return a;
        case K_SEXT: return (uint64_t)sx(a, e->a->w) & msk(e->w);
        default: return foldop(e->k, e->w, a, b, e->a->w);
        }
    }
    const uint64_t *tab(E e) {   // precondition: var >= 0
        if (e->tab) return e->tab;
        tabs.emplace_back(256);
        uint64_t *t = tabs.back().data();
        if (e->k == K_SYM) for (int i = 0; i < 256; ++i) t[i] = i;
        else if (e->k == K_SET) for (int i = 0; i < 256; ++i) t[i] = e->set.test(i);
        else {
            const uint64_t *ta = nullptr, *tb = nullptr, *tc = nullptr;
            uint64_t ka = 0, kb = 0, kc = 0;
            if (e->a) { if (e->a->k == K_CONST) ka = e->a->v; else ta = tab(e->a); }
            if (e->b) { if (e->b->k == K_CONST) kb = e->b->v; else tb = tab(e->b); }
            if (e->c) { if (e->c->k == K_CONST) kc = e->c->v; else tc = tab(e->c); }
            for (int i = 0; i < 256; ++i) t[i] = node(e, ta ? ta[i] : ka, tb ? tb[i] : kb, tc ? tc[i] : kc);
        }
        e->tab = t;
        return t;
    }
    // canonicalise a freshly built node
    E fin(Expr &x) {
        E e = intern(x);
        if (e->var >= 0 && e->k != K_SYM && e->k != K_SET && e->k != K_TAB && !e->c && e->z == nullptr) {
            const uint64_t *t = tab(e);
            if (e->w == 1) { Set256 s{{0, 0, 0, 0}}; for (int i = 0; i < 256; ++i) if (t[i]) s.set(i); return set(e->var, s); }
            bool same = true; for (int i = 1; i < 256 && same; ++i) same = t[i] == t[0];
            if (same) return cst(t[0], e->w);
        } else if (e->var >= 0 && e->w == 1 && e->k != K_SET) {
            const uint64_t *t = tab(e);
            Set256 s{{0, 0, 0, 0}}; for (int i = 0; i < 256; ++i) if (t[i]) s.set(i); return set(e->var, s);
        } else if (e->var >= 0 && e->k == K_ITE) {
            const uint64_t *t = tab(e);
            bool same = true; for (int i = 1; i < 256 && same; ++i) same = t[i] == t[0];
            if (same) return cst(t[0], e->w);
        }
        return e;
    }
    // unsigned range of e over all values of the symbolic bytes (sound over-approximation, exact for one-byte expressions)
    void range(E e) {
        if (e->hasb) return;
        e->hasb = true;
        uint64_t M = msk(e->w);
        e->lo = 0; e->hi = M;
        if (e->k == K_CONST) { e->lo = e->hi = e->v; return; }
        if (e->var >= 0) { const uint64_t *t = tab(e); e->lo = ~0ull; e->hi = 0; for (int i = 0; i < 256; ++i) { if (t[i] < e->lo) e->lo = t[i]; if (t[i] > e->hi) e->hi = t[i]; } return; }
        if (e->a) range(e->a);
        if (e->b) range(e->b);
        if (e->c) range(e->c);
        switch (e->k) {
        case K_ADD: { unsigned __int128 h = (unsigned __int128)e->a->hi + e->b->hi; if (h <= M) { e->lo = e->a->lo + e->b->lo; e->hi = (uint64_t)h; }
            else if (e->b->k == K_CONST && e->b->lo > (M >> 1)) { uint64_t d = (0 - e->b->lo) & M; if (e->a->lo >= d) { e->lo = e->a->lo - d; e->hi = e->a->hi - d; } } break; }
        case K_SUB: if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; } break;
        case K_MUL: { unsigned __int128 h = (unsigned __int128)e->a->hi * e->b->hi; if (h <= M) { e->lo = e->a->lo * e->b->lo; e->hi = (uint64_t)h; } break; }
        case K_UDIV: if (e->b->lo) { e->lo = e->a->lo / e->b->hi; e->hi = e->a->hi / e->b->lo; } break;
        case K_UREM: if (e->b->lo) e->hi = std::min(e->a->hi, e->b->hi - 1); break;
        case K_AND: e->hi = std::min(e->a->hi, e->b->hi); break;
        case K_OR: { uint64_t m = e->a->hi | e->b->hi; int n = m ? 64 - __builtin_clzll(m) : 0; e->hi = std::min(M, n ? msk(n) : 0); e->lo = std::max(e->a->lo, e->b->lo); break; }
        case K_XOR: { uint64_t m = e->a->hi | e->b->hi; int n = m ? 64 - __builtin_clzll(m) : 0; e->hi = std::min(M, n ? msk(n) : 0); break; }
        case K_SHL: if (e->b->k == K_CONST && e->b->v < e->w && e->a->hi <= (M >> e->b->v)) { e->lo = e->a->lo << e->b->v; e->hi = e->a->hi << e->b->v; } break;
        case K_LSHR: if (e->b->k == K_CONST && e->b->v < e->w) { e->lo = e->a->lo >> e->b->v; e->hi = e->a->hi >> e->b->v; } break;
        case K_ITE: e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); break;
        case K_CONCAT: e->lo = (e->a->lo << e->b->w) | e->b->lo; e->hi = (e->a->hi << e->b->w) | e->b->hi; break;
        case K_EXTRACT: if (e->v == 0 && e->a->hi <= M) { e->lo = e->a->lo; e->hi = e->a->hi; } break;
        case K_ZEXT: e->lo = e->a->lo; e->hi = e->a->hi; break;
        case K_SEXT: if (e->a->hi <= (msk(e->a->w) >> 1)) { e->lo = e->a->lo; e->hi = e->a->hi; } break;
        default: break;
        }
    }
    bool isk(E e, uint64_t v) { return e->k == K_CONST && e->v == v; }

    E bin(EK k, E a, E b) {
        unsigned w = (k >= K_EQ && k <= K_SLE) ? 1 : a->w;
        if (a->k == K_CONST && b->k == K_CONST) return cst(foldop(k, w, a->v, b->v, a->w), w);
        bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
        if (comm && (a->k == K_CONST || (b->k != K_CONST && a->id > b->id))) std::swap(a, b);
        uint64_t M = msk(a->w);
        if (b->k == K_CONST) {
            uint64_t v = b->v;
            switch (k) {
            case K_ADD: case K_SUB: case K_OR: case K_SHL: case K_LSHR: case K_ASHR:
                if (v == 0) return a;
                if (k == K_OR && v == M) return b;
                if (k == K_ADD && a->k == K_ADD && a->b->k == K_CONST) return bin(K_ADD, a->a, cst(a->b->v + v, a->w));
                if (k == K_SUB) return bin(K_ADD, a, cst(0 - v, a->w));
                if ((k == K_SHL || k == K_LSHR) && v >= a->w) return cst(0, a->w);
                break;
            case K_XOR: if (v == 0) return a; if (a->w == 1) return nt(a); break;
            case K_MUL: if (v == 0) return b; if (v == 1) return a; break;
            case K_AND: if (v == 0) return b; if (v == M) return a; 
                if (a->k == K_ZEXT && (v & msk(a->a->w)) == msk(a->a->w)) return a;
                break;
            case K_UDIV: if (v == 1) return a; break;
            case K_EQ:
                if (a->w == 1) return v ? a : nt(a);
                if (a->k == K_ZEXT) { if (v > msk(a->a->w)) return cst(0, 1); return bin(K_EQ, a->a, cst(v, a->a->w)); }
                if (a->k == K_SEXT) { if (((uint64_t)sx(v & msk(a->a->w), a->a->w) & M) != v) return cst(0, 1); return bin(K_EQ, a->a, cst(v, a->a->w)); }
                if (a->k == K_ADD && a->b->k == K_CONST) return bin(K_EQ, a->a, cst(v - a->b->v, a->w));
                if (a->k == K_ITE && a->b->k == K_CONST && a->c->k == K_CONST) {
                    bool t = a->b->v == v, f = a->c->v == v;
                    if (t && f) return cst(1, 1);
                    if (t) return a->a;
                    if (f) return nt(a->a);
                    return cst(0, 1);
                }
                if (a->k == K_ITE && (a->b->k == K_CONST || a->c->k == K_CONST)) return ite(a->a, bin(K_EQ, a->b, b), bin(K_EQ, a->c, b));
                if (a->k == K_CONCAT) return bin(K_AND, bin(K_EQ, a->a, cst(v >> a->b->w, a->a->w)), bin(K_EQ, a->b, cst(v, a->b->w)));
                break;
            case K_ULT: if (v == 0) return cst(0, 1); if (a->k == K_ZEXT) { if (v > msk(a->a->w)) return cst(1, 1); return bin(K_ULT, a->a, cst(v, a->a->w)); } break;
            case K_ULE: if (v == M) return cst(1, 1); if (a->k == K_ZEXT) { if (v >= msk(a->a->w)) return cst(1, 1); return bin(K_ULE, a->a, cst(v, a->a->w)); } break;
            default: break;
            }
        } else if (a->k == K_CONST) {
            uint64_t v = a->v;
            if (k == K_ULT && b->k == K_ZEXT) { if (v >= msk(b->a->w)) return cst(0, 1); return bin(K_ULT, cst(v, b->a->w), b->a); }
            if (k == K_ULE && b->k == K_ZEXT) { if (v > msk(b->a->w)) return cst(0, 1); return bin(K_ULE, cst(v, b->a->w), b->a); }
            if ((k == K_SHL || k == K_LSHR || k == K_UDIV || k == K_UREM) && v == 0) return a;
        }
        if (a == b) {
            switch (k) {
            case K_SUB: case K_XOR: return cst(0, a->w);
            case K_AND: case K_OR: return a;
            case K_EQ: case K_ULE: case K_SLE: return cst(1, 1);
            case K_ULT: case K_SLT: return cst(0, 1);
            default: break;
            }
        }
        if (k == K_EQ && a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(K_EQ, a->a, b->a);
        if (k == K_EQ && a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(K_EQ, a->a, b->a);
        if (k == K_SUB && a->k == K_ADD && a->b->k == K_CONST && a->a == b) return a->b;
        if (a->w == 1 && a->k == K_SET && b->k == K_SET && a->v == b->v) {
            if (k == K_AND) return set(a->v, a->set & b->set);
            if (k == K_OR) return set(a->v, a->set | b->set);
        }
        if (k >= K_EQ && k <= K_SLE) {
            range(a); range(b);
            uint64_t S = M >> 1; EK u = k;
            if (a->hi <= S && b->hi <= S) u = k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k;
            if (u == K_ULT) { if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1); }
            if (u == K_ULE) { if (a->hi <= b->lo) return cst(1, 1); if (a->lo > b->hi) return cst(0, 1); }
            if (u == K_EQ && (a->hi < b->lo || b->hi < a->lo)) return cst(0, 1);
        } else if (b->k == K_CONST && (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM) && b->v && b->v <= (M >> 1)) {
            range(a);
            if (a->hi <= (M >> 1)) {
                if (a->hi < b->v) return k == K_UDIV || k == K_SDIV ? cst(0, a->w) : a;
                if (k == K_SDIV) k = K_UDIV; if (k == K_SREM) k = K_UREM;
            }
        } else if (b->k == K_CONST && k == K_AND && !(b->v & (b->v + 1))) { range(a); if (a->hi <= b->v) return a; }
        Expr x = blank(k, w); x.a = a; x.b = b;
        return fin(x);
    }
    E nt(E a) {
        if (a->k == K_CONST) return cst(!a->v, 1);
        if (a->k == K_NOT) return a->a;
        if (a->k == K_SET) return set(a->v, ~a->set);
        Expr x = blank(K_NOT, 1); x.a = a; return fin(x);
    }
    E ite(E c, E t, E f) {
        if (c->k == K_CONST) return c->v ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (isk(t, 1) && isk(f, 0)) return c;
            if (isk(t, 0) && isk(f, 1)) return nt(c);
            if (isk(t, 1)) return bin(K_OR, c, f);
            if (isk(f, 0)) return bin(K_AND, c, t);
            if (isk(t, 0)) return bin(K_AND, nt(c), f);
            if (isk(f, 1)) return bin(K_OR, nt(c), t);
        }
        Expr x = blank(K_ITE, t->w); x.a = c; x.b = t; x.c = f; return fin(x);
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->k == K_CONST) return cst(a->v, w);
        if (a->k == K_ZEXT) return zext(a->a, w);
        Expr x = blank(K_ZEXT, w); x.a = a; return fin(x);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->k == K_CONST) return cst((uint64_t)sx(a->v, a->w), w);
        if (a->k == K_ZEXT && a->a->w < a->w) return zext(a->a, w);
        Expr x = blank(K_SEXT, w); x.a = a; return fin(x);
    }
    E extract(E a, unsigned off, unsigned w) {
        if (off == 0 && a->w == w) return a;
        if (a->k == K_CONST) return cst(a->v >> off, w);
        if (a->k == K_ZEXT) {
            if (off >= a->a->w) return cst(0, w);
            if (off + w <= a->a->w) return extract(a->a, off, w);
            if (off == 0) return zext(a->a, w);
        }
        if (a->k == K_SEXT && off + w <= a->a->w) return extract(a->a, off, w);
        if (a->k == K_CONCAT) {
            if (off + w <= a->b->w) return extract(a->b, off, w);
            if (off >= a->b->w) return extract(a->a, off - a->b->w, w);
        }
        if (a->k == K_EXTRACT) return extract(a->a, off + a->v, w);
        if (a->k == K_ITE && a->b->k == K_CONST && a->c->k == K_CONST) return ite(a->a, cst(a->b->v >> off, w), cst(a->c->v >> off, w));
        Expr x = blank(K_EXTRACT, w); x.a = a; x.v = off; return fin(x);
    }
    E concat(E hi, E lo) {
        if (hi->k == K_CONST && lo->k == K_CONST) return cst((hi->v << lo->w) | lo->v, hi->w + lo->w);
        if (isk(hi, 0)) return zext(lo, hi->w + lo->w);
        if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w) return extract(hi->a, lo->v, hi->w + lo->w);
        if (hi->k == K_EXTRACT && lo == hi->a && 0) return lo;
        // x's low part followed by its extracted high part: extract(x,0,8) is simplified for zext etc, so also match a trivially whole value
        Expr x = blank(K_CONCAT, hi->w + lo->w); x.a = hi; x.b = lo; return fin(x);
    }
    uint64_t eval(E e, const uint8_t *model) {
        if (e->k == K_CONST) return e->v;
        if (e->var >= 0) return tab(e)[model[e->var]];
        if (e->stamp == evstamp) return e->ev;
        uint64_t r = node(e, e->a ? eval(e->a, model) : 0, e->b ? eval(e->b, model) : 0, e->c ? eval(e->c, model) : 0);
        e->ev = r; e->stamp = evstamp;
        return r;
    }

    Z3_ast zb(Z3_ast boolean) { return Z3_mk_ite(z3, boolean, Z3_mk_unsigned_int64(z3, 1, Z3_mk_bv_sort(z3, 1)), Z3_mk_unsigned_int64(z3, 0, Z3_mk_bv_sort(z3, 1))); }
    Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(z3, v, Z3_mk_bv_sort(z3, w)); }
    Z3_ast zvar(int i) {
        char n[16]; snprintf(n, sizeof n, "b%d", i);
        return Z3_mk_const(z3, Z3_mk_string_symbol(z3, n), Z3_mk_bv_sort(z3, 8));
    }
    Z3_ast zbool_set(int var, const Set256 &s) {
        std::vector<Z3_ast> ors;
        Z3_ast v = zvar(var);
        for (int i = 0; i < 256;) {
            if (!s.test(i)) { ++i; continue; }
            int j = i; while (j < 255 && s.test(j + 1)) ++j;
            if (i == j) ors.push_back(Z3_mk_eq(z3, v, bvc(i, 8)));
            else { Z3_ast c[2] = {Z3_mk_bvuge(z3, v, bvc(i, 8)), Z3_mk_bvule(z3, v, bvc(j, 8))}; ors.push_back(Z3_mk_and(z3, 2, c)); }
            i = j + 1;
        }
        return ors.size() == 1 ? ors[0] : Z3_mk_or(z3, ors.size(), ors.data());
    }
    Z3_ast z(E e) {
        if (e->z) return e->z;
        Z3_ast r = nullptr;
        switch (e->k) {
        case K_CONST: r = bvc(e->v, e->w); break;
        case K_SYM: r = zvar(e->v); break;
        case K_SET: r = zb(zbool_set(e->v, e->set)); break;
        case K_TAB: {
            r = bvc(e->tab[255], e->w);
            Z3_ast v = zvar(e->v);
            int i = 255;
            while (i > 0 && e->tab[i - 1] == e->tab[255]) --i;
            for (--i; i >= 0;) {
                int j = i; while (j > 0 && e->tab[j - 1] == e->tab[i]) --j;
                r = Z3_mk_ite(z3, Z3_mk_bvule(z3, v, bvc(i, 8)), bvc(e->tab[i], e->w), r);
                i = j - 1;
            }
            break;
        }
        case K_ADD: r = Z3_mk_bvadd(z3, z(e->a), z(e->b)); break;
        case K_SUB: r = Z3_mk_bvsub(z3, z(e->a), z(e->b)); break;
        case K_MUL: r = Z3_mk_bvmul(z3, z(e->a), z(e->b)); break;
        case K_UDIV: r = Z3_mk_bvudiv(z3, z(e->a), z(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(z3, z(e->a), z(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(z3, z(e->a), z(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(z3, z(e->a), z(e->b)); break;
        case K_SHL: r = Z3_mk_bvshl(z3, z(e->a), z(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(z3, z(e->a), z(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(z3, z(e->a), z(e->b)); break;
        case K_AND: r = Z3_mk_bvand(z3, z(e->a), z(e->b)); break;
        case K_OR: r = Z3_mk_bvor(z3, z(e->a), z(e->b)); break;
        case K_XOR: r = Z3_mk_bvxor(z3, z(e->a), z(e->b)); break;
        case K_EQ: r = zb(Z3_mk_eq(z3, z(e->a), z(e->b))); break;
        case K_ULT: r = zb(Z3_mk_bvult(z3, z(e->a), z(e->b))); break;
        case K_ULE: r = zb(Z3_mk_bvule(z3, z(e->a), z(e->b))); break;
        case K_SLT: r = zb(Z3_mk_bvslt(z3, z(e->a), z(e->b))); break;
        case K_SLE: r = zb(Z3_mk_bvsle(z3, z(e->a), z(e->b))); break;
        case K_NOT: r = Z3_mk_bvnot(z3, z(e->a)); break;
        case K_ITE: r = Z3_mk_ite(z3, Z3_mk_eq(z3, z(e->a), bvc(1, 1)), z(e->b), z(e->c)); break;
        case K_CONCAT: r = Z3_mk_concat(z3, z(e->a), z(e->b)); break;
        case K_EXTRACT: r = Z3_mk_extract(z3, e->v + e->w - 1, e->v, z(e->a)); break;
        case K_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->a->w, z(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, z(e->a)); break;
        }
        e->z = r;
        return r;
    }
    Z3_ast ztrue(E e) { return Z3_mk_eq(z3, z(e), bvc(1, 1)); }
};
