// Scheduler, simulated clock, processes, and the memory-access callbacks that
// clang's -fsanitize=thread instrumentation emits (no TSan runtime is linked).
#include "core.h"
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "raw.h"

namespace sim {

Sim* S = nullptr;
__thread Thr* self = nullptr;
char* REGION = (char*)0x100000000000ULL;
const uint64_t REGION_SIZE = 1ULL << 40;

static void fwait(int* w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(int* w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
[[noreturn]] static void park_forever()
{
    int w = 0;
    for (;;)
        raw_syscall(SYS_futex, (long)&w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}

void ev(const char* fmt, ...)
{
    if (!S)
        return;
    char b[700];
    int n = snprintf(b, sizeof b, "[%llu t=%.6fms T%d] ", (unsigned long long)S->seq,
        (double)(S->now - S->t0) / 1e6, self ? self->id : -1);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b + n, sizeof b - n, fmt, ap);
    va_end(ap);
    uint64_t h = 0;
    for (char* p = b + n; *p; p++)
        h = h * 1099511628211ULL + (unsigned char)*p;
    S->hash = hcomb(S->hash, h);
    if (S->log.size() < 20000)
        S->log.push_back(b);
    if (S->verbose)
        fprintf(stderr, "%s\n", b);
}

void probe(const char* name, uint64_t n)
{
    if (S)
        S->st.probes[name] += n;
}

uint64_t hrand(uint64_t tag)
{
    uint64_t h = hcomb(S->seed, tag);
    if (self)
        h = hcomb(h, hcomb(self->id, self->skey()));
    return h;
}

// steps until the next switch; gap 0: every order of magnitude is as likely
static uint64_t next_gap(Thr* t)
{
    if (S->strat.kind != S_RANDOM)
        return UINT64_MAX;
    if (S->strat.slow && t) // one group of threads advances a few steps at a time
        return 1 + S->srng.below((mix64((uint64_t)t->id ^ S->strat.slow) & 1) ? 12 : 3000);
    if (S->strat.gap == 0)
        return 1 + S->srng.below(1ULL << S->srng.below(11));
    return 1 + S->srng.below(2 * (uint64_t)S->strat.gap);
}
void sim_init()
{
    if (S->strat.kind == S_PCT) {
        for (int i = 0; i < S->strat.pct_depth; i++)
            S->pct_points.insert(1 + S->srng.below(S->strat.pct_len));
    }
    S->gap_left = next_gap(nullptr);
}

Proc* new_proc(const std::string& label)
{
    Proc* p = new Proc;
    p->id = (int)S->procs.size() + 1;
    p->pid = 4000 + p->id;
    p->start_time = 100000 + 17 * p->id;
    p->label = label;
    S->procs.push_back(p);
    return p;
}

static int64_t new_prio()
{
    return 1000 + (int64_t)S->srng.below(1000000);
}

bool all_clients_done()
{
    for (Thr* t : S->thr)
        if (!t->daemon && t->st != T_DONE && t->st != T_DEAD)
            return false;
    return true;
}

static void ready_list(std::vector<Thr*>& out)
{
    for (Thr* t : S->thr) {
        switch (t->st) {
        case T_READY:
            out.push_back(t);
            break;
        case T_SLEEP:
            if (t->wake <= S->now)
                out.push_back(t);
            break;
        case T_BLOCKED:
            if (t->pred && t->pred())
                out.push_back(t);
            else if (t->timed && t->wake <= S->now)
                out.push_back(t);
            break;
        default:
            break;
        }
    }
}

static void to_main()
{
    S->cur = nullptr;
    fwake(&S->main_fx);
}

static void resume(Thr* t)
{
    if (t->st == T_BLOCKED) {
        t->timed_out = !(t->pred && t->pred());
        t->pred = nullptr;
    }
    t->st = T_READY;
    t->timed = false;
    S->cur = t;
    fwake(&t->fx);
}

static void rec_push(int thr, uint64_t key, int to)
{
    if (S->rec && *S->nrec < S->rec_cap)
        S->rec[(*S->nrec)++] = { thr, to, key };
}

// choose a thread out of a non-empty list
static Thr* choose(std::vector<Thr*>& v, Thr* me, bool forced)
{
    if (S->replay_sched) {
        {
            auto it = S->rec_in.find(me ? std::make_pair(me->id, me->skey()) : std::make_pair(-1, S->main_n));
            if (it != S->rec_in.end() && it->second >= 0)
                for (Thr* t : v)
                    if (t->id == it->second)
                        return t;
        }
        if (!forced)
            return me;
        return v[0];
    }
    if (v.size() == 1)
        return v[0];
    if (S->strat.kind == S_PCT) {
        Thr* b = v[0];
        for (Thr* t : v)
            if (t->prio > b->prio)
                b = t;
        return b;
    }
    if (S->strat.kind == S_SEQ)
        return forced ? v[0] : me;
    return v[S->srng.below(v.size())];
}

// current thread cannot continue (blocked/sleep/done/dead): hand the baton on.
// me stays valid for recording.
static void hand_over(Thr* me)
{
    if (S->stop) {
        to_main();
        return;
    }
    std::vector<Thr*> v;
    for (;;) {
        if (all_clients_done() || (S->until && S->until())) {
            to_main();
            return;
        }
        v.clear();
        ready_list(v);
        if (!v.empty())
            break;
        uint64_t mw = UINT64_MAX;
        for (Thr* t : S->thr)
            if ((t->st == T_SLEEP || (t->st == T_BLOCKED && t->timed)) && t->wake < mw)
                mw = t->wake;
        if (mw == UINT64_MAX) {
            std::string m = "no thread can run:";
            for (Thr* t : S->thr)
                if (!t->daemon && t->st == T_BLOCKED)
                    m += " T" + std::to_string(t->id) + "(" + (t->proc ? t->proc->label : "") + ":" + t->where + ")";
            if (S->viol.empty()) {
                S->viol = "deadlock";
                S->viol_msg = m;
            }
            S->stop = true;
            to_main();
            return;
        }
        if (mw > S->now) {
            S->now = mw;
            S->st.timejumps++;
        }
        if (S->now - S->t0 > 40ULL * 86400 * 1000000000ULL) {
            S->budget = true;
            S->stop = true;
            to_main();
            return;
        }
        S->steps++;
        if (S->steps > S->max_steps) {
            S->budget = true;
            S->stop = true;
            to_main();
            return;
        }
    }
    Thr* t = choose(v, me, true);
    if (me)
        rec_push(me->id, me->skey(), t->id);
    else
        rec_push(-1, S->main_n++, t->id);
    S->st.switches++;
    S->hash = hcomb(S->hash, 0x5000 + t->id);
    S->ihash = hcomb(S->ihash, t->id);
    resume(t);
}

// put the current thread to rest and return when rescheduled
static void rest(Thr* me)
{
    hand_over(me);
    if (S->cur == me && me->st == T_READY) {
        // picked itself
        __atomic_store_n(&me->fx, 0, __ATOMIC_RELEASE);
        return;
    }
    fwait(&me->fx);
}

bool block_on(std::function<bool()> pred, uint64_t timeout_ns, const char* why)
{
    Thr* me = self;
    if (!me)
        return pred();
    if (pred())
        return true;
    if (me->nopre) {
        probe("inconclusive_block_in_allocator");
        S->budget = true;
        S->stop = true;
        to_main();
        park_forever();
    }
    me->lsteps++;
    me->opsteps++;
    me->pred = std::move(pred);
    me->timed = timeout_ns != 0;
    me->wake = S->now + timeout_ns;
    me->timed_out = false;
    me->where = why;
    me->st = T_BLOCKED;
    S->hash = hcomb(S->hash, 0x6000 + me->id);
    rest(me);
    return !me->timed_out;
}

void sleep_ns(uint64_t ns)
{
    if (ns < 50000)
        ns += 50000; // timer slack: a thread that sleeps is away for a while
    Thr* me = self;
    if (!me)
        return;
    if (me->nopre) {
        S->now += ns;
        return;
    }
    me->lsteps++;
    me->opsteps++;
    me->wake = S->now + ns;
    me->where = "sleep";
    me->st = T_SLEEP;
    S->hash = hcomb(S->hash, 0x7000 + me->id);
    rest(me);
}

static void* thr_main(void* a)
{
    Thr* t = (Thr*)a;
    fwait(&t->fx);
    self = t;
    t->stk = (uint64_t)__builtin_frame_address(0) + 256;
    t->body();
    t->inlib = false;
    t->st = T_DONE;
    t->lsteps++;
    t->opsteps++;
    hand_over(t);
    return nullptr;
}

Thr* spawn(Proc* p, std::function<void()> body, bool daemon, const std::string& name)
{
    Thr* t = new Thr;
    t->id = (int)S->thr.size();
    t->proc = p;
    t->body = std::move(body);
    t->daemon = daemon;
    t->prio = new_prio();
    t->where = name;
    S->thr.push_back(t);
    pthread_attr_t at;
    pthread_attr_init(&at);
    // At fixed places: the thread descriptors lie on the stacks, and jemalloc seeds
    // the placement of large blocks with their addresses.
    char* st = (char*)0x300000000000ULL + (uint64_t)t->id * (2 << 20);
    if (raw_syscall(SYS_mmap, (long)st, 1 << 20, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (long)st) {
        fprintf(stderr, "sim: no stack\n");
        _exit(70);
    }
    pthread_attr_setstack(&at, st, 1 << 20);
    int rc = real_pthread_create(&t->pt, &at, thr_main, t);
    pthread_attr_destroy(&at);
    if (rc != 0) {
        fprintf(stderr, "sim: pthread_create failed %d\n", rc);
        _exit(70);
    }
    return t;
}

void run_all()
{
    if (S->stop)
        return;
    if (all_clients_done())
        return;
    hand_over(nullptr);
    fwait(&S->main_fx);
}

void violation(const std::string& cls, const std::string& msg)
{
    if (S->viol.empty()) {
        S->viol = cls;
        S->viol_msg = msg;
        OutLib o;
        ev("VIOLATION %s: %s", cls.c_str(), msg.c_str());
    }
    S->stop = true;
    if (self) {
        to_main();
        park_forever();
    }
}

void kill_proc(Proc* p, const char* why)
{
    if (!p->alive)
        return;
    p->alive = false;
    S->hash = hcomb(S->hash, 0x9000 + p->id);
    ev("KILL process %s (pid %d): %s", p->label.c_str(), p->pid, why);
    for (Thr* t : S->thr)
        if (t->proc == p && t->st != T_DONE)
            t->st = T_DEAD;
    for (pthread_mutex_t* m : p->held) {
        if (m->__data.__kind & 16)
            m->__data.__lock = 0x40000000; // owner died
    }
    p->held.clear();
    vfs_release_proc(p);
    if (p->on_death) {
        auto f = p->on_death;
        p->on_death = nullptr;
        f();
    }
    if (self && self->proc == p) {
        self->inlib = false;
        self->lsteps++;
        self->opsteps++;
        hand_over(self);
        park_forever();
    }
}

void exit_proc(Proc* p)
{
    if (!p->alive)
        return;
    p->alive = false;
    for (Thr* t : S->thr)
        if (t->proc == p && t != self && t->st != T_DONE)
            t->st = T_DEAD;
    for (pthread_mutex_t* m : p->held) {
        if (m->__data.__kind & 16)
            m->__data.__lock = 0x40000000;
    }
    p->held.clear();
    vfs_release_proc(p);
}

static void out_of_budget()
{
    S->budget = true;
    // a single sequential caller that never returns is a hang, not a long run
    if (S->strat.kind == S_SEQ && self && self->op >= 0 && self->opsteps > S->max_steps / 2 && S->viol.empty()) {
        S->viol = "operation-hangs";
        S->viol_msg = "an operation did not return within " + std::to_string(S->max_steps / 2) + " steps of a sequential run";
    }
    S->stop = true;
    to_main();
    park_forever();
}

void yield_point(YKind k, uint64_t obj, uint64_t off, bool mutating, void* pc)
{
    Thr* me = self;
    if (!me || !me->inlib || S->cur != me)
        return;
    S->steps++;
    me->opsteps++;
    S->now += 20;
    S->hash = hcomb(S->hash, ((uint64_t)me->id << 56) ^ ((uint64_t)k << 48) ^ (obj << 40) ^ off);
    if (S->steps > S->max_steps)
        out_of_budget();
    if (S->trace)
        fprintf(stderr, "TR %d k%d f%d 0x%llx %c 0x%llx\n", me->id, (int)k, (int)obj, (unsigned long long)off, mutating ? 'w' : 'r', (unsigned long long)pc_site(pc));
    if (me->nopre)
        return;
    me->lsteps++;
    if (mutating) {
        me->opwrites++;
        if (S->crash.armed && me->proc && S->crash_counting && me->proc->alive
            && me->proc->label == S->crash.proc) {
            if (S->crash_count++ == S->crash.nth) {
                S->crash.armed = false;
                S->crash_fired = true;
                S->st.crashes++;
                uint64_t site = pc_site(pc);
                S->crash_sites.insert(hcomb(site, off & 7));
                char b[128];
                snprintf(b, sizeof b, "before %s file=%d off=0x%llx site=0x%llx",
                    k == Y_WRITE ? "store" : k == Y_ATOMIC ? "atomic" : k == Y_SYS ? "syscall" : "sync",
                    (int)obj, (unsigned long long)off, (unsigned long long)site);
                S->crash_site = b;
                if (!S->crash_more.empty()) {
                    S->crash = S->crash_more.front();
                    S->crash_more.erase(S->crash_more.begin());
                    S->crash_count = 0;
                    S->crash_counting = S->crash.thr_op < 0;
                }
                kill_proc(me->proc, b);
            }
        }
    }
    // stall fault
    if (S->replay_sched) {
        auto it = S->rec_stall.find({ me->id, me->skey() });
        if (it != S->rec_stall.end()) {
            S->st.stalls++;
            rec_push(me->id, me->skey(), it->second);
            uint64_t ns = 1000ULL << (uint64_t)(-1 - it->second);
            me->wake = S->now + ns;
            me->where = "stall";
            me->st = T_SLEEP;
            rest(me);
            return;
        }
        if (!S->rec_in.count({ me->id, me->skey() }))
            return;
    } else {
        if (S->strat.stall_ppm && S->srng.below(1000000) < S->strat.stall_ppm) {
            int e = (int)S->srng.below(23);
            while ((1000ULL << e) > S->strat.stall_max_ns && e > 0)
                e--;
            S->st.stalls++;
            rec_push(me->id, me->skey(), -1 - e);
            me->wake = S->now + (1000ULL << e);
            me->where = "stall";
            me->st = T_SLEEP;
            rest(me);
            return;
        }
        me->freerun++;
        if (me->freerun > 60000) {
            me->freerun = 0;
            me->prio = --S->pct_low;
        } else if (S->strat.kind == S_PCT) {
            if (!S->pct_points.empty() && S->steps >= *S->pct_points.begin()) {
                S->pct_points.erase(S->pct_points.begin());
                me->prio = --S->pct_low;
            } else if ((S->steps & 63) != 0)
                return; // priorities only change at change points / wake-ups
        } else if (S->strat.kind == S_RANDOM) {
            bool focus = S->strat.focus_mod && mix64(pc_site(pc)) % S->strat.focus_mod == S->strat.focus_val && S->srng.below(2) == 0;
            if (--S->gap_left > 0 && !focus)
                return;
            S->gap_left = 0;
        } else
            return;
    }
    std::vector<Thr*> v;
    ready_list(v);
    Thr* t = choose(v, me, false);
    if (S->gap_left == 0)
        S->gap_left = next_gap(t ? t : me);
    if (!t || t == me)
        return;
    rec_push(me->id, me->skey(), t->id);
    S->st.switches++;
    uint64_t site = pc_site(pc);
    S->switch_sites.insert(hcomb(site, (uint64_t)t->id));
    S->hash = hcomb(S->hash, 0x5000 + t->id);
    S->ihash = hcomb(S->ihash, hcomb(site, t->id));
    me->freerun = 0;
    resume(t);
    fwait(&me->fx);
}

// ------------------------------------------------------------ region slots
static const uint64_t SLOT = 4ULL << 20;
struct Slot { int file; uint64_t off; };
static Slot* slots = nullptr;

void region_set(char* addr, uint64_t len, int file, uint64_t off)
{
    if (!slots)
        slots = (Slot*)calloc(REGION_SIZE / SLOT, sizeof(Slot));
    uint64_t s = (uint64_t)(addr - REGION) / SLOT;
    for (uint64_t i = 0; i * SLOT < len; i++)
        slots[s + i] = { file, off + i * SLOT };
}
bool region_lookup(const void* p, int& file, uint64_t& off)
{
    uint64_t d = (uint64_t)((const char*)p - REGION);
    if (!slots || d >= REGION_SIZE)
        return false;
    Slot& s = slots[d / SLOT];
    file = s.file;
    off = s.off + d % SLOT;
    return true;
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------ tsan callbacks
extern "C" {

static inline void tick()
{
    if (S && self) {
        if (++S->ticks > S->max_ticks && S->cur == self && self->inlib && !self->nopre)
            out_of_budget();
    }
}

static inline void mem_access(const void* a, bool w, void* pc)
{
    if (!self || !self->inlib)
        return;
    tick();
    if (in_region(a)) {
        int f = 0;
        uint64_t off = 0;
        region_lookup(a, f, off);
        if (w && S->holes && !hole_write(f, (int64_t)off))
            violation("sigbus", "a store to a mapped page for which the disk has no space left");
        yield_point(w ? Y_WRITE : Y_READ, f, off, w, pc);
    } else if (S->strat.heap_yield) {
        // stack accesses never matter
        if (self->stk - (uint64_t)a > (1 << 20))
            yield_point(Y_HEAP, 0, 0, false, pc);
    }
}
#define PC __builtin_return_address(0)
#define RW(n)                                                                 \
    void __tsan_read##n(void* a) { mem_access(a, false, PC); }                    \
    void __tsan_write##n(void* a) { mem_access(a, true, PC); }                    \
    void __tsan_read_write##n(void* a) { mem_access(a, true, PC); }               \
    void __tsan_unaligned_read##n(void* a) { mem_access(a, false, PC); }          \
    void __tsan_unaligned_write##n(void* a) { mem_access(a, true, PC); }          \
    void __tsan_unaligned_read_write##n(void* a) { mem_access(a, true, PC); }     \
    void __tsan_volatile_read##n(void* a) { mem_access(a, false, PC); }           \
    void __tsan_volatile_write##n(void* a) { mem_access(a, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { mem_access(a, false, PC); }
void __tsan_write_range(void* a, unsigned long) { mem_access(a, true, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) { tick(); }
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

// piecewise copy: pieces split on 8-byte boundaries of the destination
static void copy_pieces(char* d, const char* s, unsigned long n, bool wr, bool back, void* pc)
{
    const void* a = wr ? (const void*)d : (const void*)s;
    if (!S->tear || n <= 8 || back) {
        mem_access(a, wr, pc);
        if (back)
            __builtin_memmove(d, s, n);
        else
            __builtin_memcpy(d, s, n);
        return;
    }
    unsigned long pos = 0;
    int pieces = 1 + (int)(hrand(0x7ea2) % 3);
    if (n <= 16)
        pieces = 2;
    for (int i = 0; i < pieces && pos < n; i++) {
        unsigned long len;
        if (i == pieces - 1)
            len = n - pos;
        else {
            unsigned long left = n - pos;
            len = (hrand(0x7ea3 + i) % (left / 8 + 1)) * 8;
            if (len == 0)
                len = 8;
            if (len > left)
                len = left;
        }
        mem_access((const char*)a + pos, wr, pc);
        __builtin_memcpy(d + pos, s + pos, len);
        pos += len;
        if (i)
            S->st.torn++;
    }
}
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{
    if (self && self->inlib && n) {
        bool rd = in_region(s), wr = in_region(d);
        if (rd && wr) {
            mem_access(s, false, PC);
            copy_pieces((char*)d, (const char*)s, n, true, false, PC);
            return d;
        }
        if (wr || rd) {
            copy_pieces((char*)d, (const char*)s, n, wr, false, PC);
            return d;
        }
        tick();
    }
    return __builtin_memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n)
{
    if (self && self->inlib && n) {
        bool rd = in_region(s), wr = in_region(d);
        if (rd || wr) {
            bool overlap = (char*)d < (char*)s + n && (char*)s < (char*)d + n;
            if (rd && wr)
                mem_access(s, false, PC);
            copy_pieces((char*)d, (const char*)s, n, wr, overlap, PC);
            return d;
        }
    }
    return __builtin_memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n)
{
    if (self && self->inlib && n && in_region(d)) {
        unsigned long pos = 0;
        if (S->tear && n > 16) {
            unsigned long len = (hrand(0x7ea9) % (n / 8)) * 8;
            mem_access(d, true, PC);
            __builtin_memset(d, c, len);
            pos = len;
        }
        mem_access((char*)d + pos, true, PC);
        __builtin_memset((char*)d + pos, c, n - pos);
        return d;
    }
    return __builtin_memset(d, c, n);
}

static inline void atomic_pt(const volatile void* a, bool w, void* pc)
{
    if (!self || !self->inlib)
        return;
    tick();
    int f = 0;
    uint64_t off = 0;
    if (in_region((const void*)a)) {
        region_lookup((const void*)a, f, off);
        yield_point(Y_ATOMIC, f, off, w, pc);
    } else
        yield_point(Y_ATOMIC, 255, 0, false, pc);
}
#define ATOM(n, T)                                                                                                   \
    T __tsan_atomic##n##_load(const volatile T* a, int) { atomic_pt(a, false, PC); return *a; }                       \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { atomic_pt(a, true, PC); *a = v; }                        \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = v; return o; }    \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { atomic_pt(a, true, PC); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int)                                \
    { atomic_pt(a, true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }                                \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int)                                  \
    { atomic_pt(a, true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }                                \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int)                                      \
    { atomic_pt(a, true, PC); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
