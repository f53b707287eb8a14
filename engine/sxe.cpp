// Symbolic execution of the flat IR in sxe.h. One path per run: a path is identified by its trail of decisions,
// alternatives are queued as (trail prefix, model) and re-executed from the start by any worker thread.
#include "expr.h"
#include <unistd.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <atomic>
#include <algorithm>
#include <set>
#include <unordered_set>

using std::string; using std::vector;
typedef std::chrono::steady_clock Clock;
static double secs(Clock::time_point a) { return std::chrono::duration<double>(Clock::now() - a).count(); }

struct Val { uint64_t c = 0; E e = nullptr; uint8_t undef = 0; vector<Val> *agg = nullptr; };

struct Options {
    string bc, entry, out;
    int threads = 8; double time = 60; uint64_t max_instr = 20000000; bool first = false; int maxviol = 12; bool check_uninit = true;
    uint64_t max_paths = ~0ull; int z3ms = 4000; uint64_t seed = 1; bool bfs = false; bool z3all = false; bool trace = false; string replay; double grace = 3; int maxdepth = 2000;
    string mode;
} opt;

static Module mod;

struct Item { vector<uint8_t> trail; vector<uint8_t> model; };

struct Violation { string kind, msg, func, known, harness; int line; vector<std::pair<string, vector<uint8_t>>> inputs; vector<string> stack; uint64_t count; };

static std::mutex qmx; static std::condition_variable qcv;
static std::deque<Item> queue_; static int active = 0; static bool stop_all = false; static bool timed_out = false;
static std::mutex vmx; static std::map<string, Violation> viols; static std::map<string, uint64_t> reached; static std::map<string, uint64_t> problems;
static vector<vector<std::pair<string, vector<uint8_t>>>> samples;
static std::atomic<uint64_t> n_paths{0}, n_ended{0}, n_queries{0}, n_sat{0}, n_unsat{0}, n_unknown{0}, n_cache{0}, n_dom{0}, n_forks{0}, n_asserts{0}, n_asserts_sym{0}, n_instr{0}, n_assumed{0}, n_pathz3{0}, n_maxsym{0};
static std::atomic<uint64_t> solver_us{0};
static vector<std::atomic<uint8_t>> *covered; 
static Clock::time_point t0; static Clock::time_point t_firstviol; static bool have_firstviol = false;

struct PathEnd { };            // thrown to end a path

enum { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_ABORT, B_EXIT, B_ASSERTFAIL, B_SETJMP, B_LONGJMP,
       B_SXBYTES, B_SXASSUME, B_SXASSERT, B_SXKNOWN, B_SXREACH, B_SXCHOICE, B_SXCONC, B_NOPRET0, B_VASTART, B_VACOPY, B_VAEND, B_IGNORE,
       B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSHL, B_FSHR, B_UADDSAT, B_USUBSAT, B_UADDO, B_USUBO, B_UMULO,
       B_SADDO, B_SSUBO, B_SMULO, B_EXPECT, B_OBJSIZE, B_ISCONST, B_STRLEN, B_STRCMP, B_MEMCMP, B_STACKSAVE, B_FWRITE, B_SXISSYM, B_TRAP, B_FABS, B_SXOBJ, B_SXVALID,
       B_SXMEMO, B_SXLIVE, B_SXBUDGET, B_SXEQ };

struct Page { uint8_t b[4096]; uint64_t init[64]; E *sym; bool priv; };
struct Obj { uint64_t base, size; uint8_t state; uint8_t kind; };   // state 1 live 2 freed
struct Frame { Function *f; size_t rbase; int pc; int dst; vector<Val> va; size_t stackobjs; uint64_t stacktop; uint64_t uid; int line; };
struct Jmp { size_t depth; uint64_t uid; int pc; int dst; };

struct Machine {
    Pool P;
    vector<Page *> pages; vector<uint32_t> dirty; vector<Page *> freelist; vector<E *> symfree;
    vector<Obj> globals, stack, heap;
    uint64_t heaptop, stacktop; uint64_t uidc;
    vector<Val> regs; vector<Frame> fr;
    std::map<uint64_t, Jmp> jmps;
    vector<uint8_t> trail; size_t tpos; size_t tgiven;
    uint8_t model[MAXSYM]; int nsym; vector<std::pair<string, int>> symnames; vector<int> symoff;
    Set256 dom[MAXSYM]; Mask multi;
    vector<E> pc; vector<E> multicons; 
    string known; uint64_t icount; std::deque<vector<Val>> aggs;
    Item cur; std::set<string> lreached;
    std::unordered_map<string, std::pair<bool, vector<uint8_t>>> qcache;
    std::unordered_map<string, int> lastq;
    uint64_t heapobjs_live; uint64_t ibudget;
    vector<std::pair<uint64_t,uint64_t>> fastlast;
    Z3_solver solver = nullptr;
    uint64_t pathno = 0;

    Machine() { pages.assign(ARENA_END >> 12, nullptr); memset(&multi, 0, sizeof multi); P.reset(); mksolver(); }
    void mksolver() {
        solver = Z3_mk_solver_for_logic(P.z3, Z3_mk_string_symbol(P.z3, "QF_BV"));
        Z3_solver_inc_ref(P.z3, solver);
        Z3_params p = Z3_mk_params(P.z3); Z3_params_inc_ref(P.z3, p);
        Z3_params_set_uint(P.z3, p, Z3_mk_string_symbol(P.z3, "timeout"), opt.z3ms);
        Z3_solver_set_params(P.z3, solver, p); Z3_params_dec_ref(P.z3, p);
    }

    // ---------- memory -------------------------------------------------------------------------------------
    Page *newpage() {
        Page *p;
        if (!freelist.empty()) { p = freelist.back(); freelist.pop_back(); } else { p = (Page *)malloc(sizeof(Page)); p->sym = nullptr; }
        p->priv = true; return p;
    }
    Page *wpage(uint64_t a) {
        uint32_t n = a >> 12; Page *p = pages[n];
        if (p && p->priv) return p;
        Page *q = newpage();
        if (p) { memcpy(q->b, p->b, 4096); memcpy(q->init, p->init, sizeof q->init); }
        else { memset(q->b, 0, 4096); memset(q->init, 0, sizeof q->init); }
        pages[n] = q; dirty.push_back(n);
        return q;
    }
    vector<Page *> shared;
    void load_image() {
        for (size_t o = 0; o < mod.image.size(); o += 4096) {
            Page *p = (Page *)malloc(sizeof(Page)); p->sym = nullptr; p->priv = false;
            size_t n = std::min<size_t>(4096, mod.image.size() - o);
            memset(p->b, 0, 4096); memcpy(p->b, &mod.image[o], n); memset(p->init, 0xff, sizeof p->init);
            pages[(GLOBAL_BASE + o) >> 12] = p; shared.push_back(p);
        }
        for (auto &g : mod.globals) globals.push_back({g.addr, g.size, 1, (uint8_t)(g.constant ? 1 : 0)});
    }
    void reset_mem() {
        for (uint32_t n : dirty) {
            Page *p = pages[n];
            if (p->sym) { memset(p->sym, 0, 4096 * sizeof(E)); symfree.push_back(p->sym); p->sym = nullptr; }
            freelist.push_back(p);
            uint64_t a = (uint64_t)n << 12;
            pages[n] = (a >= GLOBAL_BASE && a < GLOBAL_BASE + mod.image.size()) ? shared[(a - GLOBAL_BASE) >> 12] : nullptr;
        }
        dirty.clear(); stack.clear(); heap.clear(); heaptop = HEAP_BASE + 64; stacktop = STACK_BASE + 64; heapobjs_live = 0;
    }
    Obj *find(uint64_t a) {
        vector<Obj> *v;
        if (a >= HEAP_BASE && a < ARENA_END) v = &heap; else if (a >= STACK_BASE && a < HEAP_BASE) v = &stack; else if (a >= GLOBAL_BASE && a < STACK_BASE) v = &globals; else return nullptr;
        size_t lo = 0, hi = v->size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m].base <= a) lo = m + 1; else hi = m; }
        if (!lo) return nullptr;
        return &(*v)[lo - 1];
    }
    // null when ok, else description
    const char *chk(uint64_t a, uint64_t n, bool wr) {
        if (n == 0) return nullptr;
        if (a < 4096) return "null-deref";
        Obj *o = find(a);
        if (!o) return "wild-access";
        if (a >= o->base + o->size || a + n > o->base + o->size) return wr ? "out-of-bounds-write" : "out-of-bounds-read";
        if (o->state == 2) return "use-after-free";
        if (wr && (o->kind & 1) && a < STACK_BASE) return "write-to-constant";
        return nullptr;
    }
    void need(uint64_t a, uint64_t n, bool wr) {
        const char *e = chk(a, n, wr);
        if (e) { char b[96]; snprintf(b, sizeof b, "%s of %llu byte(s)", e, (unsigned long long)n); violation(e, b); throw PathEnd(); }
    }
    void setsym(uint64_t a, E e) {
        Page *p = wpage(a);
        if (!p->sym) { if (!e) return; if (!symfree.empty()) { p->sym = symfree.back(); symfree.pop_back(); } else p->sym = (E *)calloc(4096, sizeof(E)); }
        p->sym[a & 4095] = e;
    }
    E getsym(uint64_t a) { Page *p = pages[a >> 12]; return p && p->sym ? p->sym[a & 4095] : nullptr; }
    uint8_t getb(uint64_t a) { Page *p = pages[a >> 12]; return p ? p->b[a & 4095] : 0; }
    bool getinit(uint64_t a) { Page *p = pages[a >> 12]; return p && (p->init[(a & 4095) >> 6] >> (a & 63) & 1); }
    void setb(uint64_t a, uint8_t v, E e, bool init) {
        Page *p = wpage(a); unsigned o = a & 4095;
        p->b[o] = v;
        if (init) p->init[o >> 6] |= 1ull << (o & 63); else p->init[o >> 6] &= ~(1ull << (o & 63));
        if (p->sym) p->sym[o] = e; else if (e) setsym(a, e);
    }
    void fill(uint64_t a, uint64_t n, uint8_t v, bool init) {
        while (n) {
            Page *p = wpage(a); unsigned o = a & 4095; uint64_t k = std::min<uint64_t>(n, 4096 - o);
            memset(p->b + o, v, k);
            for (uint64_t i = 0; i < k; ++i) { unsigned x = o + i; if (init) p->init[x >> 6] |= 1ull << (x & 63); else p->init[x >> 6] &= ~(1ull << (x & 63)); }
            if (p->sym) memset(p->sym + o, 0, k * sizeof(E));
            a += k; n -= k;
        }
    }
    uint64_t alloc_heap(uint64_t n, bool zero) {
        if (n > (1ull << 26)) { problem("huge-allocation"); throw PathEnd(); }
        uint64_t rz = 64 + std::min<uint64_t>(4096, n / 4);
        uint64_t a = heaptop;
        heaptop = (a + n + rz + 15) & ~15ull;
        if (heaptop >= ARENA_END - 8192) { problem("heap-exhausted"); throw PathEnd(); }
        heap.push_back({a, n, 1, 0}); heapobjs_live++;
        if (zero) fill(a, n, 0, true);   // fresh pages are uninitialised and never reused within a path
        return a;
    }
    uint64_t alloc_stack(uint64_t n) {
        uint64_t a = stacktop;
        stacktop = (a + n + 64 + 15) & ~15ull;
        if (stacktop >= HEAP_BASE - 8192) { problem("stack-exhausted"); throw PathEnd(); }
        stack.push_back({a, n, 1, 0}); fill(a, n, 0xAA, false);
        return a;
    }
    Val load(uint64_t a, unsigned w) {
        unsigned n = (w + 7) / 8; need(a, n, false);
        Val r; bool anysym = false;
        if ((a & 4095) + n <= 4096) {
            Page *p = pages[a >> 12];
            if (!p) { r.undef = 1; return r; }
            unsigned o = a & 4095;
            for (unsigned i = 0; i < n; ++i) {
                if (!(p->init[(o + i) >> 6] >> ((o + i) & 63) & 1)) r.undef = 1;
                if (p->sym && p->sym[o + i]) anysym = true;
                r.c |= (uint64_t)p->b[o + i] << (8 * i);
            }
        } else for (unsigned i = 0; i < n; ++i) {
            if (!getinit(a + i)) r.undef = 1;
            if (getsym(a + i)) anysym = true;
            r.c |= (uint64_t)getb(a + i) << (8 * i);
        }
        if (anysym) {
            E acc = nullptr;
            for (unsigned i = 0; i < n; ++i) { E s = getsym(a + i); if (!s) s = P.cst(getb(a + i), 8); acc = acc ? P.concat(s, acc) : s; }
            if (acc->w > w) acc = P.extract(acc, 0, w);
            r = mkv(acc); 
        } else r.c &= msk(w);
        return r;
    }
    void store(uint64_t a, unsigned w, const Val &v) {
        unsigned n = (w + 7) / 8; need(a, n, true);
        if (!v.e) { for (unsigned i = 0; i < n; ++i) setb(a + i, v.c >> (8 * i), nullptr, !v.undef); return; }
        E e = v.e; if (e->w < n * 8) e = P.zext(e, n * 8);
        for (unsigned i = 0; i < n; ++i) {
            E x = P.extract(e, 8 * i, 8);
            if (x->k == K_CONST) setb(a + i, x->v, nullptr, true); else setb(a + i, 0, x, true);
        }
    }
    void copy(uint64_t d, uint64_t s, uint64_t n) {
        if (!n) return;
        need(s, n, false); need(d, n, true);
        if (d == s) return;
        if (d < s || d >= s + n) for (uint64_t i = 0; i < n; ++i) setb(d + i, getb(s + i), getsym(s + i), getinit(s + i));
        else for (uint64_t i = n; i-- > 0;) setb(d + i, getb(s + i), getsym(s + i), getinit(s + i));
    }

    // ---------- values -------------------------------------------------------------------------------------
    Val mkv(E e) { Val r; if (e->k == K_CONST) r.c = e->v; else r.e = e; return r; }
    Val cv(uint64_t c) { Val r; r.c = c; return r; }
    E ex(const Val &v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
    Val constval(const ConstVal &k) {
        Val r; r.c = k.c; r.undef = 0;
        if (k.agg) { aggs.emplace_back(); r.agg = &aggs.back(); vector<Val> *g = r.agg; for (auto &x : *k.agg) { Val y = constval(x); g->push_back(y); } }
        return r;
    }
    Val get(Opnd o) {
        Frame &f = fr.back();
        if (o >= 0) return regs[f.rbase + o];
        const ConstVal &k = f.f->consts[~o];
        if (k.agg) return constval(k);
        Val r; r.c = k.c; return r;
    }
    void setr(int dst, const Val &v) { regs[fr.back().rbase + dst] = v; }

    // ---------- solver layers ------------------------------------------------------------------------------
    bool single_ok(E e) { return e->var >= 0 && !multi.test(e->var); }
    Set256 truth(E e) {
        if (e->k == K_SET) return e->set;
        const uint64_t *t = P.tab(e); Set256 s{{0, 0, 0, 0}};
        for (int i = 0; i < 256; ++i) if (t[i]) s.set(i);
        return s;
    }
    void add(E e) {
        if (e->k == K_CONST) return;
        if (e->k == K_AND && e->w == 1) { add(e->a); add(e->b); return; }
        if (e->var >= 0) { dom[e->var] = dom[e->var] & truth(e); pc.push_back(e); return; }
        for (E x : multicons) if (x == e) return;
        pc.push_back(e); multicons.push_back(e); multi.add(e->sup);
    }
    static int pick(const Set256 &s) {
        static const char pref[] = "aA0 \n'\"";
        for (const char *p = pref; *p; ++p) if (s.test((uint8_t)*p)) return (uint8_t)*p;
        for (int i = 33; i < 127; ++i) if (s.test(i)) return i;
        for (int i = 0; i < 256; ++i) if (s.test(i)) return i;
        return -1;
    }
    // is PC && cond satisfiable? On sat, out receives a full model.  1 sat, 0 unsat, -1 unknown
    int sat(E cond, uint8_t *out, bool force_z3) {
        force_z3 |= opt.z3all;
        if (cond->k == K_CONST) { if (cond->v) memcpy(out, model, MAXSYM); return cond->v; }
        if (cond->k == K_AND && cond->w == 1 && 0) {}
        Set256 alt{{0, 0, 0, 0}};
        if (cond->var >= 0) {
            alt = dom[cond->var] & truth(cond);
            if (!force_z3 || alt.empty()) {
                if (alt.empty() && !force_z3) { n_dom++; return 0; }
            }
            if (!force_z3 && !multi.test(cond->var)) { n_dom++; memcpy(out, model, MAXSYM); out[cond->var] = pick(alt); return 1; }
        }
        // slice
        Mask sl = cond->sup; vector<E> slice; vector<char> used(multicons.size(), 0);
        for (bool ch = true; ch;) {
            ch = false;
            for (size_t i = 0; i < multicons.size(); ++i) if (!used[i] && multicons[i]->sup.inter(sl)) { used[i] = 1; slice.push_back(multicons[i]); sl.add(multicons[i]->sup); ch = true; }
        }
        if (!force_z3 && cond->var >= 0) {
            uint8_t tmp[MAXSYM]; memcpy(tmp, model, MAXSYM);
            int tried = 0;
            for (int i = 0; i < 256 && tried < 6; ++i) {
                int v = (i + 32) & 255; if (!alt.test(v)) continue;
                ++tried; tmp[cond->var] = v; P.evstamp++;
                bool ok = true;
                for (E x : slice) if (!P.eval(x, tmp)) { ok = false; break; }
                if (ok) { memcpy(out, tmp, MAXSYM); P.evstamp++; n_dom++; return 1; }
            }
            P.evstamp++;
        }
        // cache
        string key;
        { vector<uint32_t> ids; for (E x : slice) ids.push_back(x->id); std::sort(ids.begin(), ids.end());
          key.assign((const char *)ids.data(), ids.size() * 4); uint32_t c = cond->id; key.append((const char *)&c, 4);
          for (int v = 0; v < nsym; ++v) if (sl.test(v) && !dom[v].full()) { uint8_t b = v; key.append((const char *)&b, 1); key.append((const char *)dom[v].w, 32); } }
        auto it = qcache.find(key);
        if (it != qcache.end()) {
            n_cache++;
            if (!it->second.first) return 0;
            memcpy(out, model, MAXSYM); size_t k = 0;
            for (int v = 0; v < nsym; ++v) if (sl.test(v)) out[v] = it->second.second[k++];
            return 1;
        }
        auto tq = Clock::now();
        Z3_solver_reset(P.z3, solver);
        for (E x : slice) Z3_solver_assert(P.z3, solver, P.ztrue(x));
        for (int v = 0; v < nsym; ++v) if (sl.test(v) && !dom[v].full()) Z3_solver_assert(P.z3, solver, P.zbool_set(v, dom[v]));
        Z3_solver_assert(P.z3, solver, P.ztrue(cond));
        Z3_lbool r = Z3_solver_check(P.z3, solver);
        n_queries++;
        int res;
        if (r == Z3_L_TRUE) {
            n_sat++;
            Z3_model m = Z3_solver_get_model(P.z3, solver); Z3_model_inc_ref(P.z3, m);
            memcpy(out, model, MAXSYM);
            vector<uint8_t> mv;
            for (int v = 0; v < nsym; ++v) if (sl.test(v)) {
                Z3_ast val; unsigned u = 0;
                if (Z3_model_eval(P.z3, m, P.zvar(v), true, &val)) Z3_get_numeral_uint(P.z3, val, &u);
                out[v] = u; mv.push_back(u);
            }
            Z3_model_dec_ref(P.z3, m);
            qcache[key] = {true, mv}; res = 1;
        } else if (r == Z3_L_FALSE) { n_unsat++; qcache[key] = {false, {}}; res = 0; }
        else { n_unknown++; problem("solver-unknown"); res = -1; }
        solver_us += (uint64_t)(secs(tq) * 1e6);
        return res;
    }
    bool decide(E c) {
        if (c->k == K_CONST) return c->v;
        if (tpos < tgiven) {
            uint8_t d = trail[tpos++];
            E x = (d & 1) ? c : P.nt(c);
            if (!(d & 2)) add(x);
            return d & 1;
        }
        bool mv = P.eval(c, model);
        E nc = P.nt(c);
        uint8_t out[MAXSYM];
        int r = sat(mv ? nc : c, out, false);
        if (r <= 0) { trail.push_back((mv ? 1 : 0) | 2); tpos++; return mv; }
        n_forks++;
        Item it; it.trail.assign(trail.begin(), trail.begin() + tpos); it.trail.push_back(mv ? 0 : 1); it.model.assign(out, out + MAXSYM);
        { std::lock_guard<std::mutex> g(qmx); queue_.push_back(std::move(it)); }
        qcv.notify_one();
        trail.push_back(mv ? 1 : 0); tpos++;
        add(mv ? c : nc);
        return mv;
    }
    uint64_t candidate(E e) {
        if (tpos < tgiven) { uint64_t v; memcpy(&v, &trail[tpos], 8); tpos += 8; return v; }
        uint64_t v = P.eval(e, model);
        uint8_t b[8]; memcpy(b, &v, 8); trail.insert(trail.end(), b, b + 8); tpos += 8;
        return v;
    }
    uint64_t concretize(const Val &v, unsigned w) {
        if (!v.e) return v.c;
        for (int i = 0; i < 100000; ++i) {
            uint64_t k = candidate(v.e);
            if (decide(P.bin(K_EQ, v.e, P.cst(k, w)))) return k;
        }
        problem("concretize-limit"); throw PathEnd();
    }
    uint64_t concr(Opnd o, unsigned w) {
        Val v = get(o);
        if (!v.e) return v.c;
        uint64_t k = concretize(v, w);
        if (o >= 0) regs[fr.back().rbase + o] = cv(k);
        return k;
    }
    void assume(E c) {
        if (c->k == K_CONST) { if (!c->v) { n_assumed++; throw PathEnd(); } return; }
        if (tpos < tgiven) { uint8_t d = trail[tpos++]; if (!(d & 2)) add(c); return; }
        if (P.eval(c, model)) { trail.push_back(1); tpos++; add(c); return; }
        uint8_t out[MAXSYM];
        int r = sat(c, out, false);
        if (r <= 0) { n_assumed++; throw PathEnd(); }
        memcpy(model, out, MAXSYM); P.evstamp++;
        trail.push_back(1); tpos++; add(c);
    }

    // ---------- reporting ----------------------------------------------------------------------------------
    void problem(const char *p) { string s = p; if (!fr.empty()) { s += " in "; s += fr.back().f->name; } std::lock_guard<std::mutex> g(vmx); problems[s]++; }
    void violation(const string &kind, const string &msg, const uint8_t *m = nullptr) {
        const uint8_t *mm = m ? m : model;
        Violation v; v.kind = kind; v.msg = msg; v.known = known; v.line = 0; v.count = 1;
        for (size_t i = fr.size(); i-- > 0 && v.stack.size() < 14;) {
            char b[256]; snprintf(b, sizeof b, "%s:%d", fr[i].f->name.c_str(), fr[i].line); v.stack.push_back(b);
            if (v.func.empty() && fr[i].f->name.compare(0, 5, "sxlc_")) { v.func = fr[i].f->name; v.line = fr[i].line; }
        }
        for (size_t i = 0; i < symnames.size(); ++i) {
            vector<uint8_t> d; for (int k = 0; k < symnames[i].second; ++k) d.push_back(mm[symoff[i] + k]);
            v.inputs.push_back({symnames[i].first, d});
        }
        string key = kind + "|" + (kind == "assert" ? "" : v.func + std::to_string(v.line)) + "|" + msg + "|" + known;
        std::lock_guard<std::mutex> g(vmx);
        auto it = viols.find(key);
        if (it == viols.end()) { viols[key] = v; if (known.empty() && !have_firstviol) { have_firstviol = true; t_firstviol = Clock::now(); } }
        else it->second.count++;
    }

    // ---------- execution ----------------------------------------------------------------------------------
    void push_frame(Function *f, const vector<Val> &args, int dst) {
        if ((int)fr.size() > opt.maxdepth) { violation("deep-recursion", "call depth limit exceeded"); throw PathEnd(); }
        Frame n; n.f = f; n.rbase = fr.empty() ? 0 : fr.back().rbase + fr.back().f->nregs; n.pc = 0; n.dst = dst; n.stackobjs = stack.size(); n.stacktop = stacktop; n.uid = ++uidc; n.line = 0;
        if (regs.size() < n.rbase + f->nregs) regs.resize((n.rbase + f->nregs) * 2 + 64);
        for (int i = 0; i < f->nregs; ++i) regs[n.rbase + i] = Val();
        for (int i = 0; i < f->nparams && i < (int)args.size(); ++i) regs[n.rbase + i] = args[i];
        for (size_t i = f->nparams; i < args.size(); ++i) n.va.push_back(args[i]);
        fr.push_back(std::move(n));
        (*covered)[f - mod.funcs.data()] = 1;
    }
    void pop_frame() { stack.resize(fr.back().stackobjs); stacktop = fr.back().stacktop; fr.pop_back(); }

    bool run_path(Item &it, int entry) {
        reset_mem(); fr.clear(); jmps.clear(); pc.clear(); multicons.clear(); memset(&multi, 0, sizeof multi); symnames.clear(); symoff.clear(); nsym = 0; known.clear(); icount = 0; uidc = 0; aggs.clear(); lreached.clear(); ibudget = opt.max_instr;
        trail = it.trail; tgiven = trail.size(); tpos = 0;
        if (it.model.empty()) memset(model, 'a', MAXSYM); else memcpy(model, it.model.data(), MAXSYM);
        P.evstamp++;
        bool complete = false;
        try {
            push_frame(&mod.funcs[entry], {}, -1);
            while (!fr.empty()) step();
            complete = true;
        } catch (PathEnd &) {}
        n_instr += icount; n_paths++;
        if (complete) {
            uint64_t ne = ++n_ended;
            if (!(ne & (ne - 1)) && known.empty()) {      // witness input of this path, for validation against the native build
                std::lock_guard<std::mutex> g(vmx); vector<std::pair<string, vector<uint8_t>>> s;
                for (size_t i = 0; i < symnames.size(); ++i) s.push_back({symnames[i].first, vector<uint8_t>(model + symoff[i], model + symoff[i] + symnames[i].second)});
                samples.push_back(s);
            }
            // vacuity guard: the path condition of a sample of completed paths is handed to Z3 as a whole
            if ((pathno & 63) == 0 && !pc.empty()) {
                auto tq = Clock::now();
                Z3_solver_reset(P.z3, solver);
                for (E x : pc) Z3_solver_assert(P.z3, solver, P.ztrue(x));
                Z3_lbool r = Z3_solver_check(P.z3, solver); n_pathz3++;
                solver_us += (uint64_t)(secs(tq) * 1e6);
                if (r == Z3_L_FALSE) problem("path-condition-unsat");
            }
            for (E x : pc) if (!P.eval(x, model)) { problem("model-mismatch"); break; }
        }
        pathno++;
        { std::lock_guard<std::mutex> g(vmx); for (auto &s : lreached) reached[s]++; }
        if (P.nextid > 400000) { P.reset(); mksolver(); qcache.clear(); }
        if (qcache.size() > 200000) qcache.clear();
        return complete;
    }

    void take(const Edge &e) {
        Frame &f = fr.back();
        size_t n = e.copies.size();
        if (n == 1) { Val v = get(e.copies[0].second); regs[f.rbase + e.copies[0].first] = v; }
        else if (n) {
            Val tmp[64]; vector<Val> big; Val *t = tmp;
            if (n > 64) { big.resize(n); t = big.data(); }
            for (size_t i = 0; i < n; ++i) t[i] = get(e.copies[i].second);
            for (size_t i = 0; i < n; ++i) regs[f.rbase + e.copies[i].first] = t[i];
        }
        f.pc = e.target;
    }
    void uninit(const char *what) { if (opt.check_uninit) { violation("uninitialised", string(what) + " depends on uninitialised memory"); throw PathEnd(); } }

    Val binop(Op op, unsigned w, const Val &a, const Val &b) {
        static const EK map[] = {K_ADD, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR, K_AND, K_OR, K_XOR};
        Val r; 
        if (!a.e && !b.e) {
            r.undef = a.undef | b.undef;
            if (op >= O_UDIV && op <= O_SREM && b.c == 0) { violation("div-by-zero", "division by zero"); throw PathEnd(); }
            r.c = foldop(map[op], w, a.c, b.c, w);
            if (r.undef && op == O_AND && ((!a.undef && a.c == 0) || (!b.undef && b.c == 0))) r.undef = 0;
            return r;
        }
        if (op >= O_UDIV && op <= O_SREM && b.e) {
            if (decide(P.bin(K_EQ, b.e, P.cst(0, w)))) { violation("div-by-zero", "division by zero"); throw PathEnd(); }
        }
        r = mkv(P.bin(map[op], ex(a, w), ex(b, w)));
        return r;
    }
    Val icmp(uint8_t p, unsigned w, const Val &a, const Val &b) {
        Val r;
        if (!a.e && !b.e) {
            uint64_t x = a.c, y = b.c; int64_t sxx = sx(x, w), syy = sx(y, w); r.undef = a.undef | b.undef;
            switch (p) {
            case P_EQ: r.c = x == y; break; case P_NE: r.c = x != y; break; case P_UGT: r.c = x > y; break; case P_UGE: r.c = x >= y; break;
            case P_ULT: r.c = x < y; break; case P_ULE: r.c = x <= y; break; case P_SGT: r.c = sxx > syy; break; case P_SGE: r.c = sxx >= syy; break;
            case P_SLT: r.c = sxx < syy; break; default: r.c = sxx <= syy; break;
            }
            return r;
        }
        E x = ex(a, w), y = ex(b, w), e;
        switch (p) {
        case P_EQ: e = P.bin(K_EQ, x, y); break; case P_NE: e = P.nt(P.bin(K_EQ, x, y)); break;
        case P_UGT: e = P.bin(K_ULT, y, x); break; case P_UGE: e = P.bin(K_ULE, y, x); break; case P_ULT: e = P.bin(K_ULT, x, y); break; case P_ULE: e = P.bin(K_ULE, x, y); break;
        case P_SGT: e = P.bin(K_SLT, y, x); break; case P_SGE: e = P.bin(K_SLE, y, x); break; case P_SLT: e = P.bin(K_SLT, x, y); break; default: e = P.bin(K_SLE, x, y); break;
        }
        return mkv(e);
    }
    // address operand: concrete, or a table over one input byte, else fork
    bool addr_table(const Val &a, unsigned w, Val &out) {
        E e = a.e;
        if (e->var < 0 || multi.test(e->var)) return false;
        int v = e->var; const uint64_t *t = P.tab(e); unsigned n = (w + 7) / 8;
        if (dom[v].count() <= 2) return false;
        uint64_t res[256]; Obj *o = nullptr; uint64_t last = 0; bool have = false;
        for (int i = 0; i < 256; ++i) {
            if (!dom[v].test(i)) { res[i] = have ? last : 0; continue; }
            uint64_t ad = t[i]; Obj *q = find(ad);
            if (!q || (o && q != o) || chk(ad, n, false)) return false;
            o = q; uint64_t r = 0;
            for (unsigned k = 0; k < n; ++k) { if (getsym(ad + k) || !getinit(ad + k)) return false; r |= (uint64_t)getb(ad + k) << (8 * k); }
            res[i] = r & msk(w);
            if (!have) for (int j = 0; j < i; ++j) res[j] = res[i];
            have = true; last = res[i];
        }
        if (!have) return false;
        out = mkv(P.table(v, w, res));
        return true;
    }

    void step() {
        Frame &f = fr.back();
        const Instr &x = f.f->code[f.pc++];
        if (x.line) f.line = x.line;
        if (++icount > ibudget) { violation("hang", "instruction limit exceeded on one path"); throw PathEnd(); }
        if ((icount & 0xffff) == 0 && stop_all) throw PathEnd();
        switch (x.op) {
        case O_NOP: break;
        case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR: {
            Val r = binop(x.op, x.w, get(x.a), get(x.b)); setr(x.dst, r); break;
        }
        case O_ICMP: setr(x.dst, icmp(x.pred, x.w2, get(x.a), get(x.b))); break;
        case O_ZEXT: { Val v = get(x.a); if (v.e) v = mkv(P.zext(v.e, x.w)); setr(x.dst, v); break; }
        case O_SEXT: { Val v = get(x.a); if (v.e) v = mkv(P.sext(v.e, x.w)); else v.c = (uint64_t)sx(v.c, x.w2) & msk(x.w); setr(x.dst, v); break; }
        case O_TRUNC: { Val v = get(x.a); if (v.e) v = mkv(P.extract(v.e, 0, x.w)); else v.c &= msk(x.w); setr(x.dst, v); break; }
        case O_MOVE: case O_FREEZE: { Val v = get(x.a); if (x.op == O_FREEZE) {} setr(x.dst, v); break; }
        case O_SELECT: {
            Val c = get(x.a);
            if (!c.e) { if (c.undef) uninit("select"); setr(x.dst, get(c.c ? x.b : x.c)); break; }
            Val t = get(x.b), e = get(x.c);
            if (x.w == 0 || x.w >= 64 || t.undef || e.undef) { bool d = decide(c.e); setr(x.dst, get(d ? x.b : x.c)); break; }
            setr(x.dst, mkv(P.ite(c.e, ex(t, x.w), ex(e, x.w)))); break;
        }
        case O_LOAD: {
            Val a = get(x.a);
            if (a.e) { Val out; if (addr_table(a, x.w, out)) { setr(x.dst, out); break; } a.c = concr(x.a, 64); }
            else if (a.undef) uninit("address");
            setr(x.dst, load(a.c, x.w)); break;
        }
        case O_STORE: {
            Val a = get(x.b);
            if (a.e) a.c = concr(x.b, 64); else if (a.undef) uninit("address");
            store(a.c, x.w, get(x.a)); break;
        }
        case O_ALLOCA: {
            Val n = get(x.a); uint64_t k = n.e ? concretize(n, x.w2) : n.c;
            setr(x.dst, cv(alloc_stack(k * (uint32_t)x.ext))); break;
        }
        case O_GEP: {
            const GepInfo &g = f.f->geps[x.ext]; Val b = get(x.a);
            uint64_t acc = b.c + g.off; E e = b.e; uint8_t un = b.undef; 
            if (e) { acc = g.off; }
            for (auto &t : g.terms) {
                Val i = get(t.o);
                if (!i.e) { acc += (uint64_t)sx(i.c, t.w) * t.scale; un |= i.undef; }
                else {
                    E k = t.w < 64 ? P.sext(i.e, 64) : i.e;
                    if (t.scale != 1) k = P.bin(K_MUL, k, P.cst(t.scale, 64));
                    e = e ? P.bin(K_ADD, e, k) : k;
                }
            }
            if (e) { setr(x.dst, mkv(P.bin(K_ADD, e, P.cst(acc, 64)))); }
            else { Val r = cv(acc); r.undef = un; setr(x.dst, r); }
            break;
        }
        case O_BR: take(f.f->brs[x.ext].t); break;
        case O_CONDBR: {
            Val c = get(x.a); bool d;
            if (c.e) { d = decide(c.e); if (x.a >= 0) regs[f.rbase + x.a] = cv(d); } else { if (c.undef) uninit("branch"); d = c.c; }
            const BrInfo &b = f.f->brs[x.ext]; take(d ? b.t : b.f); break;
        }
        case O_SWITCH: {
            const SwitchInfo &s = f.f->switches[x.ext]; Val v = get(x.a);
            if (!v.e) {
                if (v.undef) uninit("switch");
                int k = -1; for (auto &c : s.cases) if (c.first == v.c) { k = c.second; break; }
                take(k < 0 ? s.def : s.edges[k]); break;
            }
            size_t ne = s.edges.size(); int ch = -1;
            for (size_t k = 0; k < ne; ++k) {
                E o = P.cst(0, 1);
                for (auto &c : s.cases) if (c.second == (int)k) o = P.bin(K_OR, o, P.bin(K_EQ, v.e, P.cst(c.first, x.w2)));
                if (decide(o)) { ch = k; break; }
            }
            take(ch < 0 ? s.def : s.edges[ch]); break;
        }
        case O_RET: {
            Val r; if (x.w) r = get(x.a);
            int dst = f.dst; pop_frame();
            if (!fr.empty() && dst >= 0) setr(dst, r);
            break;
        }
        case O_UNREACHABLE: violation("unreachable", "reached code marked unreachable"); throw PathEnd();
        case O_CALL: call(f, x); break;
        case O_EXTRACTVALUE: {
            Val v = get(x.a);
            for (unsigned k : f.f->aggs[x.ext].idx) { if (!v.agg) { v = Val(); break; } Val t = (*v.agg)[k]; v = t; }
            setr(x.dst, v); break;
        }
        case O_INSERTVALUE: {
            Val v = get(x.a), b = get(x.b); auto &idx = f.f->aggs[x.ext].idx;
            aggs.emplace_back(); vector<Val> *n = &aggs.back(); if (v.agg) *n = *v.agg;
            if (n->size() <= idx[0]) n->resize(idx[0] + 1);
            if (idx.size() != 1) { problem("nested insertvalue"); throw PathEnd(); }
            (*n)[idx[0]] = b; Val r; r.agg = n; setr(x.dst, r); break;
        }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FNEG: case O_FPEXT: case O_FPTRUNC: case O_FPTOUI: case O_FPTOSI: case O_UITOFP: case O_SITOFP: case O_FCMP: fp(x); break;
        default: problem("unsupported-instruction"); throw PathEnd();
        }
    }
    static double tod(uint64_t c, unsigned w) { if (w == 32) { float q; uint32_t u = c; memcpy(&q, &u, 4); return q; } double d; memcpy(&d, &c, 8); return d; }
    static uint64_t frd(double d, unsigned w) { if (w == 32) { float q = d; uint32_t u; memcpy(&u, &q, 4); return u; } uint64_t c; memcpy(&c, &d, 8); return c; }
    void fp(const Instr &x) {
        Val a = get(x.a), b; if (x.op == O_FADD || x.op == O_FSUB || x.op == O_FMUL || x.op == O_FDIV || x.op == O_FCMP) b = get(x.b);
        unsigned sw = x.op == O_FCMP || x.op == O_FPEXT || x.op == O_FPTRUNC || x.op == O_FPTOUI || x.op == O_FPTOSI || x.op == O_UITOFP || x.op == O_SITOFP || x.op == O_FNEG ? x.w2 : x.w;
        if (a.e) a = cv(concretize(a, sw));
        if (b.e) b = cv(concretize(b, sw));
        double p = tod(a.c, sw), q = tod(b.c, sw); Val r;
        switch (x.op) {
        case O_FADD: r.c = frd(p + q, x.w); break; case O_FSUB: r.c = frd(p - q, x.w); break; case O_FMUL: r.c = frd(p * q, x.w); break; case O_FDIV: r.c = frd(p / q, x.w); break;
        case O_FNEG: r.c = frd(-p, x.w); break; case O_FPEXT: case O_FPTRUNC: r.c = frd(p, x.w); break;
        case O_FPTOUI: r.c = (uint64_t)p & msk(x.w); break; case O_FPTOSI: r.c = (uint64_t)(int64_t)p & msk(x.w); break;
        case O_UITOFP: r.c = frd((double)a.c, x.w); break; case O_SITOFP: r.c = frd((double)sx(a.c, x.w2), x.w); break;
        default: {
            bool un = p != p || q != q; bool o = false;
            switch (x.pred & 7) { case 1: o = p == q; break; case 2: o = p > q; break; case 3: o = p >= q; break; case 4: o = p < q; break; case 5: o = p <= q; break; case 6: o = p != q; break; case 7: o = true; break; }
            r.c = un ? (x.pred >= 8) : o; if (x.pred == 7) r.c = !un; if (x.pred == 8) r.c = un; if (x.pred == 15) r.c = 1; if (x.pred == 0) r.c = 0;
        } }
        setr(x.dst, r);
    }
    string cstr(uint64_t a) { string s; while (s.size() < 200) { if (chk(a, 1, false)) break; uint8_t c = getb(a++); if (!c) break; s += (char)c; } return s; }

    void call(Frame &f, const Instr &x) {
        const CallInfo &ci = f.f->calls[x.ext];
        int id = ci.callee;
        if (id < 0) {
            uint64_t a = concr(ci.fptr, 64);
            auto it = mod.faddr.find(a);
            if (it == mod.faddr.end()) { violation("bad-call", "call through an invalid function pointer"); throw PathEnd(); }
            id = it->second;
        }
        Function &cf = mod.funcs[id];
        size_t n = ci.args.size();
        if (cf.builtin >= 0) {
            Val args[8]; vector<Val> big; Val *A = args; if (n > 8) { big.resize(n); A = big.data(); }
            for (size_t i = 0; i < n; ++i) A[i] = get(ci.args[i]);
            if (builtin(cf, ci, x, A, n)) return;
            if (!cf.defined) { problem("builtin-fallback"); throw PathEnd(); }
        }
        if (!cf.defined) { problem((string("undefined function ") + cf.name).c_str()); throw PathEnd(); }
        vector<Val> args(n);
        for (size_t i = 0; i < n; ++i) {
            args[i] = get(ci.args[i]);
            if (ci.byval[i]) { uint64_t a = alloc_stack(ci.byval[i]); copy(a, args[i].c, ci.byval[i]); args[i] = cv(a); }
        }
        push_frame(&cf, args, x.dst);
    }
    uint64_t C(Val &v, unsigned w) { if (v.e) { v = cv(concretize(v, w)); } return v.c; }

    bool builtin(Function &cf, const CallInfo &ci, const Instr &x, Val *A, size_t n) {
        Val r; unsigned w = x.w;
        switch (cf.builtin) {
        case B_MALLOC: r.c = alloc_heap(C(A[0], 64), false); break;
        case B_CALLOC: r.c = alloc_heap(C(A[0], 64) * C(A[1], 64), true); break;
        case B_REALLOC: {
            uint64_t p = C(A[0], 64), sz = C(A[1], 64);
            if (!p) { r.c = alloc_heap(sz, false); break; }
            Obj *o = find(p);
            if (!o || o->base != p || p < HEAP_BASE) { violation("bad-free", "realloc of an invalid pointer"); throw PathEnd(); }
            if (o->state == 2) { violation("double-free", "realloc of freed memory"); throw PathEnd(); }
            uint64_t osz = o->size; uint64_t q = alloc_heap(sz, false);
            for (uint64_t i = 0; i < std::min(osz, sz); ++i) setb(q + i, getb(p + i), getsym(p + i), getinit(p + i));
            find(p)->state = 2; heapobjs_live--; r.c = q; break;
        }
        case B_FREE: {
            uint64_t p = C(A[0], 64); if (!p) return true;
            Obj *o = find(p);
            if (!o || o->base != p || p < HEAP_BASE) { violation("bad-free", "free of an invalid pointer"); throw PathEnd(); }
            if (o->state == 2) { violation("double-free", "double free"); throw PathEnd(); }
            o->state = 2; heapobjs_live--; return true;
        }
        case B_MEMCPY: { uint64_t d = C(A[0], 64), s = C(A[1], 64), k = C(A[2], 64); copy(d, s, k); r.c = d; break; }
        case B_MEMSET: {
            uint64_t d = C(A[0], 64), k = C(A[2], 64); need(d, k, true);
            if (A[1].e) { E v = P.extract(ex(A[1], ci.widths[1]), 0, 8); for (uint64_t i = 0; i < k; ++i) setb(d + i, 0, v, true); } else fill(d, k, A[1].c, !A[1].undef);
            r.c = d; break;
        }
        case B_ABORT: violation("abort", "abort() called"); throw PathEnd();
        case B_TRAP: violation("trap", "undefined behaviour trap"); throw PathEnd();
        case B_EXIT: violation("exit", "exit() called"); throw PathEnd();
        case B_ASSERTFAIL: violation("assertion", "assertion failed: " + cstr(A[0].c)); throw PathEnd();
        case B_SETJMP: { Frame &f = fr.back(); jmps[C(A[0], 64)] = Jmp{fr.size(), f.uid, f.pc, x.dst}; r.c = 0; break; }
        case B_LONGJMP: {
            uint64_t a = C(A[0], 64); uint64_t v = C(A[1], 32); auto it = jmps.find(a);
            if (it == jmps.end() || it->second.depth > fr.size() || fr[it->second.depth - 1].uid != it->second.uid) { violation("bad-longjmp", "longjmp to a dead or unset environment"); throw PathEnd(); }
            while (fr.size() > it->second.depth) pop_frame();
            fr.back().pc = it->second.pc; if (it->second.dst >= 0) setr(it->second.dst, cv(v ? v : 1)); return true;
        }
        case B_SXBYTES: {
            uint64_t p = C(A[0], 64), k = C(A[1], 64); need(p, k, true);
            if (nsym + (int)k > MAXSYM) { problem("too many symbolic bytes"); throw PathEnd(); }
            symnames.push_back({cstr(A[2].c), (int)k}); symoff.push_back(nsym);
            for (uint64_t i = 0; i < k; ++i) { memset(&dom[nsym], 0xff, sizeof dom[nsym]); setb(p + i, 0, P.sym(nsym), true); nsym++; }
            if (n_maxsym < (uint64_t)nsym) n_maxsym = nsym;
            return true;
        }
        case B_SXCHOICE: {
            uint64_t k = C(A[0], 32);
            if (nsym >= MAXSYM || k == 0 || k > 256) { problem("sx_choice"); throw PathEnd(); }
            symnames.push_back({cstr(A[1].c), 1}); symoff.push_back(nsym); memset(&dom[nsym], 0xff, sizeof dom[nsym]);
            E s = P.sym(nsym++);
            if (tpos >= tgiven) { if (model[nsym - 1] >= k) model[nsym - 1] = 0; P.evstamp++; }
            Set256 d{{0, 0, 0, 0}}; for (uint64_t i = 0; i < k; ++i) d.set(i);
            assume(P.set(nsym - 1, d));
            uint64_t lo = 0, hi = k;     // binary splitting keeps the number of decisions low
            while (hi - lo > 1) { uint64_t m = (lo + hi) / 2; if (decide(P.bin(K_ULT, s, P.cst(m, 8)))) hi = m; else lo = m; }
            r.c = lo; break;
        }
        case B_SXASSUME: { if (A[0].e) assume(P.nt(P.bin(K_EQ, A[0].e, P.cst(0, ci.widths[0])))); else if (!A[0].c) { n_assumed++; throw PathEnd(); } return true; }
        case B_SXASSERT: {
            n_asserts++;
            string msg = cstr(A[1].c);
            lreached.insert("assert:" + msg);
            if (!A[0].e) { if (A[0].undef) uninit("assertion"); if (!A[0].c) { violation("assert", msg); throw PathEnd(); } return true; }
            n_asserts_sym++;
            E c = P.nt(P.bin(K_EQ, A[0].e, P.cst(0, ci.widths[0])));
            if (c->k == K_CONST) { if (!c->v) { violation("assert", msg); throw PathEnd(); } return true; }
            if (tpos < tgiven) { uint8_t d = trail[tpos++]; if (!(d & 2)) add(c); return true; }
            uint8_t out[MAXSYM];
            int q = sat(P.nt(c), out, true);
            if (q == 1) {
                violation("assert", msg, out);
                if (!P.eval(c, model)) { uint8_t o2[MAXSYM]; if (sat(c, o2, true) != 1) throw PathEnd(); memcpy(model, o2, MAXSYM); P.evstamp++; }
                trail.push_back(1); tpos++; add(c); return true;
            }
            trail.push_back(3); tpos++;   // proved (or unknown, which is recorded as a problem)
            return true;
        }
        case B_SXKNOWN: known = A[0].c ? cstr(A[0].c) : ""; return true;
        case B_SXREACH: lreached.insert(cstr(A[0].c)); return true;
        case B_SXCONC: r.c = C(A[0], w); break;
        case B_SXISSYM: r.c = A[0].e != nullptr; break;
        case B_SXLIVE: r.c = heapobjs_live; break;
        case B_SXBUDGET: ibudget = icount + C(A[0], 64); return true;
        case B_SXVALID: r.c = chk(C(A[0], 64), C(A[1], 64), false) == nullptr; break;
        case B_SXEQ: {   // memory equality as one formula (no forking): returns 0/1, possibly symbolic
            uint64_t p = C(A[0], 64), q = C(A[1], 64), k = C(A[2], 64); need(p, k, false); need(q, k, false);
            E acc = P.cst(1, 1);
            for (uint64_t i = 0; i < k; ++i) {
                E a = getsym(p + i), b = getsym(q + i);
                if (!a) a = P.cst(getb(p + i), 8);
                if (!b) b = P.cst(getb(q + i), 8);
                acc = P.bin(K_AND, acc, P.bin(K_EQ, a, b));
            }
            r = mkv(P.zext(acc, w)); break;
        }
        case B_NOPRET0: break;
        case B_FWRITE: r = binop(O_MUL, 64, A[1], A[2]); if (n > 2) r = A[2]; break;
        case B_IGNORE: return true;
        case B_VASTART: {
            uint64_t p = C(A[0], 64); auto &va = fr.back().va; size_t k = va.size();
            uint64_t area = alloc_stack(8 * k); for (size_t i = 0; i < k; ++i) store(area + 8 * i, 64, widen(va[i]));
            store(p, 32, cv(48)); store(p + 4, 32, cv(304)); store(p + 8, 64, cv(area)); store(p + 16, 64, cv(0)); return true;
        }
        case B_VACOPY: copy(C(A[0], 64), C(A[1], 64), 24); return true;
        case B_VAEND: return true;
        case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
            uint8_t p = cf.builtin == B_UMIN ? P_ULT : cf.builtin == B_UMAX ? P_UGT : cf.builtin == B_SMIN ? P_SLT : P_SGT;
            Val c = icmp(p, w, A[0], A[1]);
            if (!c.e) r = c.c ? A[0] : A[1]; else if (w >= 64) r = decide(c.e) ? A[0] : A[1]; else r = mkv(P.ite(c.e, ex(A[0], w), ex(A[1], w)));
            break;
        }
        case B_ABS: { Val z = cv(0); Val c = icmp(P_SLT, w, A[0], z); Val ng = binop(O_SUB, w, z, A[0]); if (!c.e) r = c.c ? ng : A[0]; else r = mkv(P.ite(c.e, ex(ng, w), ex(A[0], w))); break; }
        case B_CTPOP: r.c = __builtin_popcountll(C(A[0], w)); break;
        case B_CTLZ: { uint64_t v = C(A[0], w); r.c = v ? __builtin_clzll(v) - (64 - w) : w; break; }
        case B_CTTZ: { uint64_t v = C(A[0], w); r.c = v ? __builtin_ctzll(v) : w; break; }
        case B_BSWAP: { uint64_t v = C(A[0], w); r.c = __builtin_bswap64(v) >> (64 - w); break; }
        case B_FSHL: case B_FSHR: {
            uint64_t s = C(A[2], w) % w; if (cf.builtin == B_FSHR) s = (w - s) % w;
            if (!s) { r = cf.builtin == B_FSHL ? A[0] : A[1]; break; }
            r = binop(O_OR, w, binop(O_SHL, w, A[0], cv(s)), binop(O_LSHR, w, A[1], cv(w - s))); break;
        }
        case B_UADDSAT: { Val s = binop(O_ADD, w, A[0], A[1]); Val c = icmp(P_ULT, w, s, A[0]); if (!c.e) r = c.c ? cv(msk(w)) : s; else r = decide(c.e) ? cv(msk(w)) : s; break; }
        case B_USUBSAT: { Val c = icmp(P_ULT, w, A[0], A[1]); bool u = c.e ? decide(c.e) : c.c; r = u ? cv(0) : binop(O_SUB, w, A[0], A[1]); break; }
        case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
            unsigned ww = ci.widths[0];
            uint64_t a = C(A[0], ww), b = C(A[1], ww); uint64_t res = 0; bool ov = false;
            __int128 sa = cf.builtin >= B_SADDO ? (__int128)sx(a, ww) : (__int128)a, sb = cf.builtin >= B_SADDO ? (__int128)sx(b, ww) : (__int128)b, q;
            if (cf.builtin == B_UADDO || cf.builtin == B_SADDO) q = sa + sb; else if (cf.builtin == B_USUBO || cf.builtin == B_SSUBO) q = sa - sb; else q = sa * sb;
            res = (uint64_t)q & msk(ww);
            if (cf.builtin >= B_SADDO) ov = (__int128)sx(res, ww) != q; else ov = q < 0 || q > (__int128)msk(ww);
            aggs.emplace_back(); aggs.back().push_back(cv(res)); aggs.back().push_back(cv(ov)); r.agg = &aggs.back(); break;
        }
        case B_EXPECT: r = A[0]; break;
        case B_OBJSIZE: r.c = ~0ull; break;
        case B_ISCONST: r.c = 0; break;
        case B_STACKSAVE: r.c = 0; break;
        case B_FABS: r = A[0]; r.c &= ~(1ull << (w - 1)); break;
        case B_STRLEN: {
            if (A[0].e) return false;
            uint64_t a = A[0].c, k = 0;
            for (;; ++k) { if (chk(a + k, 1, false)) return false; if (getsym(a + k) || !getinit(a + k)) return false; if (!getb(a + k)) break; }
            r.c = k; break;
        }
        case B_STRCMP: {
            if (A[0].e || A[1].e) return false;
            uint64_t a = A[0].c, b = A[1].c;
            for (uint64_t k = 0;; ++k) {
                if (chk(a + k, 1, false) || chk(b + k, 1, false)) return false;
                if (getsym(a + k) || getsym(b + k) || !getinit(a + k) || !getinit(b + k)) return false;
                int d = (int)getb(a + k) - (int)getb(b + k);
                if (d || !getb(a + k)) { r.c = (uint64_t)(int64_t)(d < 0 ? -1 : d > 0) & msk(32); break; }
            }
            break;
        }
        default: return false;
        }
        if (x.dst >= 0) setr(x.dst, r);
        return true;
    }
    Val widen(const Val &v) { if (v.e && v.e->w < 64) return mkv(P.zext(v.e, 64)); return v; }
};

static void map_builtins() {
    static const std::map<string, int> names = {
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
        {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL}, {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP},
        {"longjmp", B_LONGJMP}, {"_longjmp", B_LONGJMP}, {"siglongjmp", B_LONGJMP},
        {"sx_bytes", B_SXBYTES}, {"sx_assume", B_SXASSUME}, {"sx_assert_", B_SXASSERT}, {"sx_known", B_SXKNOWN}, {"sx_reach", B_SXREACH}, {"sx_choice", B_SXCHOICE}, {"sx_concrete", B_SXCONC},
        {"sx_is_symbolic", B_SXISSYM}, {"sx_live_objects", B_SXLIVE}, {"sx_budget", B_SXBUDGET}, {"sx_valid", B_SXVALID}, {"sx_memeq", B_SXEQ},
        {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}};
    for (auto &f : mod.funcs) {
        auto it = names.find(f.name);
        if (it != names.end()) { if (!f.defined || it->second == B_STRLEN || it->second == B_STRCMP || f.name.compare(0, 3, "sx_") == 0) f.builtin = it->second; continue; }
        const string &n = f.name;
        auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
        if (pre("llvm.")) {
            if (pre("llvm.memcpy") || pre("llvm.memmove")) f.builtin = B_MEMCPY;
            else if (pre("llvm.memset")) f.builtin = B_MEMSET;
            else if (pre("llvm.va_start")) f.builtin = B_VASTART; else if (pre("llvm.va_copy")) f.builtin = B_VACOPY; else if (pre("llvm.va_end")) f.builtin = B_VAEND;
            else if (pre("llvm.umin")) f.builtin = B_UMIN; else if (pre("llvm.umax")) f.builtin = B_UMAX; else if (pre("llvm.smin")) f.builtin = B_SMIN; else if (pre("llvm.smax")) f.builtin = B_SMAX;
            else if (pre("llvm.abs")) f.builtin = B_ABS; else if (pre("llvm.ctpop")) f.builtin = B_CTPOP; else if (pre("llvm.ctlz")) f.builtin = B_CTLZ; else if (pre("llvm.cttz")) f.builtin = B_CTTZ;
            else if (pre("llvm.bswap")) f.builtin = B_BSWAP; else if (pre("llvm.fshl")) f.builtin = B_FSHL; else if (pre("llvm.fshr")) f.builtin = B_FSHR;
            else if (pre("llvm.uadd.sat")) f.builtin = B_UADDSAT; else if (pre("llvm.usub.sat")) f.builtin = B_USUBSAT;
            else if (pre("llvm.uadd.with")) f.builtin = B_UADDO; else if (pre("llvm.usub.with")) f.builtin = B_USUBO; else if (pre("llvm.umul.with")) f.builtin = B_UMULO;
            else if (pre("llvm.sadd.with")) f.builtin = B_SADDO; else if (pre("llvm.ssub.with")) f.builtin = B_SSUBO; else if (pre("llvm.smul.with")) f.builtin = B_SMULO;
            else if (pre("llvm.expect")) f.builtin = B_EXPECT; else if (pre("llvm.objectsize")) f.builtin = B_OBJSIZE; else if (pre("llvm.is.constant")) f.builtin = B_ISCONST;
            else if (pre("llvm.stacksave")) f.builtin = B_STACKSAVE; else if (pre("llvm.fabs")) f.builtin = B_FABS;
            else if (pre("llvm.trap") || pre("llvm.ubsantrap")) f.builtin = B_TRAP;
            else if (pre("llvm.lifetime") || pre("llvm.assume") || pre("llvm.dbg") || pre("llvm.stackrestore") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || pre("llvm.donothing")) f.builtin = B_IGNORE;
            continue;
        }
        if (!f.defined) {
            static const char *noop[] = {"printf", "fprintf", "vfprintf", "vprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "perror", "syslog", "setlocale"};
            for (auto p : noop) if (n == p) f.builtin = B_NOPRET0;
            if (n == "fwrite") f.builtin = B_FWRITE;
        }
    }
}

static void worker(int entry) {
    static std::mutex initmx;
    Machine *M;
    { std::lock_guard<std::mutex> g(initmx); M = new Machine(); M->load_image(); }
    for (;;) {
        Item it;
        {
            std::unique_lock<std::mutex> l(qmx);
            for (;;) {
                if (stop_all) return;
                if (!queue_.empty()) break;
                if (active == 0) { stop_all = true; qcv.notify_all(); return; }
                qcv.wait_for(l, std::chrono::milliseconds(20));
            }
            if (opt.bfs) { it = std::move(queue_.front()); queue_.pop_front(); } else { it = std::move(queue_.back()); queue_.pop_back(); }
            active++;
        }
        M->run_path(it, entry);
        {
            std::lock_guard<std::mutex> l(qmx);
            active--;
            if (secs(t0) > opt.time || n_paths >= opt.max_paths) { if (!queue_.empty() || active) timed_out = true; stop_all = true; }
            if (opt.first && have_firstviol && secs(t_firstviol) > opt.grace) { if (!queue_.empty() || active) timed_out = true; stop_all = true; }
        }
        qcv.notify_all();
    }
}

static void jstr(FILE *o, const string &s) { fputc('"', o); for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(o, "\\%c", c); else if (c < 32 || c >= 127) fprintf(o, "\\u%04x", c); else fputc(c, o); } fputc('"', o); }

int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--threads") opt.threads = atoi(nx().c_str()); else if (a == "--time") opt.time = atof(nx().c_str());
        else if (a == "--max-instr") opt.max_instr = strtoull(nx().c_str(), 0, 10); else if (a == "--out") opt.out = nx();
        else if (a == "--first") opt.first = true; else if (a == "--max-paths") opt.max_paths = strtoull(nx().c_str(), 0, 10);
        else if (a == "--no-uninit") opt.check_uninit = false; else if (a == "--z3all") opt.z3all = true; else if (a == "--bfs") opt.bfs = true; else if (a == "--z3ms") opt.z3ms = atoi(nx().c_str());
        else if (a == "--grace") opt.grace = atof(nx().c_str()); else if (a == "--max-depth") opt.maxdepth = atoi(nx().c_str());
        else if (opt.bc.empty()) opt.bc = a; else opt.entry = a;
    }
    string err;
    if (!load_module(opt.bc.c_str(), mod, err)) { fprintf(stderr, "sxe: cannot load %s: %s\n", opt.bc.c_str(), err.c_str()); return 2; }
    map_builtins();
    auto it = mod.fidx.find(opt.entry);
    if (it == mod.fidx.end() || !mod.funcs[it->second].defined) { fprintf(stderr, "sxe: no entry function %s\n", opt.entry.c_str()); return 2; }
    covered = new vector<std::atomic<uint8_t>>(mod.funcs.size());
    t0 = Clock::now();
    queue_.push_back(Item());
    vector<std::thread> th;
    for (int i = 0; i < opt.threads; ++i) th.emplace_back(worker, it->second);
    // watchdog: stops the workers when a single path outlives the time limit
    std::thread wd([&] { while (!stop_all) { std::this_thread::sleep_for(std::chrono::milliseconds(50));
        if (secs(t0) > opt.time + 0.5 || (opt.first && have_firstviol && secs(t_firstviol) > opt.grace + 0.5)) { if (!stop_all) { timed_out = true; stop_all = true; qcv.notify_all(); } } } });
    for (auto &t : th) t.join();
    wd.join();
    FILE *o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    fprintf(o, "{\"entry\":"); jstr(o, opt.entry);
    fprintf(o, ",\"complete\":%s,\"pending\":%zu,\"wall\":%.3f,\"paths\":%llu,\"paths_to_end\":%llu,\"paths_cut_by_assume\":%llu,\"forks\":%llu,\"instructions\":%llu,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"query_cache_hits\":%llu,\"byte_domain_decisions\":%llu,\"assertions_checked\":%llu,\"assertions_symbolic\":%llu,\"path_conditions_rechecked_by_z3\":%llu,\"solver_seconds\":%.3f,\"symbolic_bytes_max\":%llu",
        (!timed_out && problems.empty()) ? "true" : "false", queue_.size(), secs(t0), (unsigned long long)n_paths, (unsigned long long)n_ended, (unsigned long long)n_assumed, (unsigned long long)n_forks, (unsigned long long)n_instr,
        (unsigned long long)n_queries, (unsigned long long)n_sat, (unsigned long long)n_unsat, (unsigned long long)n_unknown, (unsigned long long)n_cache, (unsigned long long)n_dom, (unsigned long long)n_asserts, (unsigned long long)n_asserts_sym, (unsigned long long)n_pathz3, solver_us / 1e6, (unsigned long long)n_maxsym);
    fprintf(o, ",\"timed_out\":%s,\"problems\":{", timed_out ? "true" : "false");
    bool c = false; for (auto &p : problems) { if (c) fputc(',', o); c = true; jstr(o, p.first); fprintf(o, ":%llu", (unsigned long long)p.second); }
    fprintf(o, "},\"reached\":{"); c = false; for (auto &p : reached) { if (c) fputc(',', o); c = true; jstr(o, p.first); fprintf(o, ":%llu", (unsigned long long)p.second); }
    fprintf(o, "},\"violations\":["); c = false;
    for (auto &p : viols) {
        auto &v = p.second; if (c) fputc(',', o); c = true;
        fprintf(o, "{\"kind\":"); jstr(o, v.kind); fprintf(o, ",\"msg\":"); jstr(o, v.msg); fprintf(o, ",\"func\":"); jstr(o, v.func); fprintf(o, ",\"line\":%d,\"count\":%llu,\"known\":", v.line, (unsigned long long)v.count); jstr(o, v.known);
        fprintf(o, ",\"stack\":["); bool d = false; for (auto &s : v.stack) { if (d) fputc(',', o); d = true; jstr(o, s); }
        fprintf(o, "],\"inputs\":["); d = false;
        for (auto &s : v.inputs) { if (d) fputc(',', o); d = true; fprintf(o, "["); jstr(o, s.first); fprintf(o, ",\""); for (uint8_t b : s.second) fprintf(o, "%02x", b); fprintf(o, "\"]"); }
        fprintf(o, "]}");
    }
    fprintf(o, "],\"samples\":["); c = false;
    for (auto &sm : samples) { if (c) fputc(',', o); c = true; bool d = false; fputc('[', o); for (auto &s : sm) { if (d) fputc(',', o); d = true; fprintf(o, "["); jstr(o, s.first); fprintf(o, ",\""); for (uint8_t b : s.second) fprintf(o, "%02x", b); fprintf(o, "\"]"); } fputc(']', o); }
    fprintf(o, "],\"functions\":["); c = false;
    for (size_t i = 0; i < mod.funcs.size(); ++i) if ((*covered)[i]) { if (c) fputc(',', o); c = true; jstr(o, mod.funcs[i].name); }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    fflush(stdout);
    _exit(0);
}
