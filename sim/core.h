// Deterministic simulator core: threads parked/released one at a time, a
// seeded scheduler, simulated clock, simulated processes, virtual file system.
#pragma once
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- random
inline uint64_t mix64(uint64_t x)
{
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL;
    x ^= x >> 33;
    return x;
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix64(a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL); }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed + 0x9e3779b97f4a7c15ULL)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- vfs types
enum VType { V_REG, V_DIR, V_FIFO, V_ANON };
struct VFile {
    int id = 0;
    uint64_t ino = 0;
    VType type = V_REG;
    int memfd = -1;
    int64_t size = 0;
    int nlink = 1;
    int nopen = 0;
    std::string name;
    // fifo
    std::string buf;
    int readers = 0, writers = 0;
    // posix locks: whole file only; owner proc id (0 = none)
    int lock_owner = 0;
    // space accounting: bytes allocated (fallocate / pwrite high water mark)
    int64_t alloc = 0;
    int64_t hole_from = INT64_MAX; // extended by ftruncate on a limited disk: pages without space
    std::set<int64_t> hole_filled; // pages of the hole written since
};
struct VDesc { // open file description
    VFile* f = nullptr;
    int flags = 0;
    int64_t off = 0;
    int refs = 0;
    int flock_mode = 0; // 0 none 1 shared 2 exclusive
};

// ---------------------------------------------------------------- processes
struct Inst;
struct Thr;
struct Proc {
    int id = 0;
    int pid = 0;
    uint64_t start_time = 0;
    bool alive = true;
    std::string label;
    Inst* inst = nullptr;
    std::map<int, VDesc*> fds;
    std::set<pthread_mutex_t*> held;
    std::function<void()> on_death;
};

enum TState { T_READY, T_BLOCKED, T_SLEEP, T_DONE, T_DEAD };
struct Thr {
    int id = 0;
    Proc* proc = nullptr;
    int fx = 0;
    TState st = T_READY;
    uint64_t lsteps = 0; // local yield counter
    uint64_t wake = 0;   // sim time to wake (T_SLEEP or timed T_BLOCKED)
    bool timed = false;
    bool timed_out = false;
    std::function<bool()> pred;
    std::function<void()> body;
    bool daemon = false;
    pthread_t pt {};
    int64_t prio = 0;
    int op = -1;          // current op index (client threads), -1 none
    uint64_t opsteps = 0; // yields within op
    uint64_t skey() const { return op >= 0 ? ((uint64_t)(op + 1) << 32) | opsteps : lsteps; }
    uint64_t opwrites = 0; // mutating points in op
    uint64_t freerun = 0;
    std::string where;
    int jm = 0;           // inside jemalloc
    int nopre = 0;        // no preemption
    uint64_t stk = 0;     // top of the stack
    bool inlib = false;
    bool killed_here = false;
};

// ---------------------------------------------------------------- plan bits
struct SchedRec { int thr; int to; uint64_t key; };
enum StratKind { S_RANDOM, S_PCT, S_SEQ };
struct Strategy {
    StratKind kind = S_RANDOM;
    uint32_t gap = 16;        // mean gap between preemptions (random)
    int pct_depth = 3;
    uint64_t pct_len = 20000; // estimated length
    uint32_t heap_yield = 0;  // 1/n chance that private-memory accesses are preemption points (0 off)
    uint32_t stall_ppm = 0;   // chance per yield (1e-6) of a stall fault
    uint64_t stall_max_ns = 5000000000ULL;
    uint32_t slow = 0; // nonzero: threads split into slow and fast ones by this seed
    uint32_t focus_mod = 0, focus_val = 0; // switch often at one class of code locations
};

struct FaultSpec { // one injected system-call failure
    std::string call;  // e.g. "pwrite"
    int nth = 0;       // nth call of that kind, in this process label, counted while armed
    int count = 1;
    int err = 0;
    std::string mode;  // "err" "short" ...
    std::string path;  // only files whose name contains it ("" any)
    std::string proc;  // process label ("" any)
};

struct CrashSpec {
    bool armed = false;
    std::string proc; // label prefix of process to kill
    int thr_op = -1;  // op index at which counting starts (any thread of the proc), -1 from process start
    uint64_t nth = 0; // nth mutating point after that
};

struct Stats {
    uint64_t steps = 0, switches = 0, crashes = 0, stalls = 0, timejumps = 0, torn = 0;
    std::map<std::string, uint64_t> faults;  // fired faults by kind
    std::map<std::string, uint64_t> probes;  // reach probes
};

struct Sim {
    // configuration of this run
    uint64_t seed = 0;
    Strategy strat;
    bool replay_sched = false;
    std::map<std::pair<int, uint64_t>, int> rec_in, rec_stall; // replay schedule: switches, stalls
    SchedRec* rec = nullptr; // shared with the parent process
    uint64_t* nrec = nullptr;
    uint64_t rec_cap = 0;
    uint64_t max_steps = 4000000;
    uint64_t max_ticks = 3000000000ULL;
    bool tear = true;
    // state
    uint64_t now = 1700000000000000000ULL; // ns
    uint64_t t0 = 1700000000000000000ULL;
    uint64_t steps = 0, ticks = 0;
    uint64_t seq = 0; // global event sequence
    uint64_t hash = 0x1234;   // full event hash
    uint64_t ihash = 0x77;    // interleaving hash (only switches)
    Thr* cur = nullptr;
    std::vector<Thr*> thr;
    std::vector<Proc*> procs;
    std::set<uint64_t> pct_points;
    int64_t pct_low = -1;
    uint64_t gap_left = 0;
    Rng srng { 1 };
    bool stop = false; // violation raised: stop everything
    bool budget = false; // ran out of steps
    int main_fx = 0;
    uint64_t main_n = 0;
    std::function<bool()> until;
    CrashSpec crash;
    std::vector<CrashSpec> crash_more;
    uint64_t crash_count = 0;
    bool crash_counting = false;
    bool crash_fired = false;
    std::string crash_site;
    std::vector<FaultSpec> faults;
    std::map<std::string, int> fault_seen;
    bool faults_on = false;
    Stats st;
    // vfs
    std::map<std::string, VFile*> paths;
    std::vector<VFile*> files;
    uint64_t next_ino = 1000;
    std::vector<uint64_t> free_ino; // inode numbers given out again first
    uint64_t region_next = 0;
    int holes = 0; // files with holes on a limited disk
    int64_t disk_free = INT64_MAX; // space limit
    // result
    std::string viol; // violation class
    std::string viol_msg;
    std::set<uint64_t> switch_sites;
    std::set<uint64_t> crash_sites;
    std::vector<std::string> log;
    bool verbose = false;
    bool trace = getenv("SIMX_TRACE") != nullptr; // development: every access on stderr
};

extern Sim* S;
extern __thread Thr* self;

// lifecycle
void sim_init();
Proc* new_proc(const std::string& label);
Thr* spawn(Proc* p, std::function<void()> body, bool daemon = false, const std::string& name = "");
// run until every non-daemon thread is done/dead (or violation / budget)
void run_all();
bool all_clients_done();
void kill_proc(Proc* p, const char* why); // called from a sim thread or main
void exit_proc(Proc* p);

// scheduling
enum YKind { Y_READ = 1, Y_WRITE, Y_ATOMIC, Y_SYNC, Y_SYS, Y_OP, Y_SLEEP, Y_HEAP };
void yield_point(YKind k, uint64_t obj, uint64_t off, bool mutating, void* pc);
bool block_on(std::function<bool()> pred, uint64_t timeout_ns = 0, const char* why = "");
void sleep_ns(uint64_t ns);
uint64_t hrand(uint64_t tag); // deterministic per (seed, thread, local step)

// violation: never returns when called on a sim thread
void violation(const std::string& cls, const std::string& msg);
void probe(const char* name, uint64_t n = 1);
void ev(const char* fmt, ...); // event log (cheap, no randomness)

// vfs
extern char* REGION;
extern const uint64_t REGION_SIZE;
inline bool in_region(const void* p) { return (uint64_t)((const char*)p - REGION) < REGION_SIZE; }
bool region_lookup(const void* p, int& file, uint64_t& off);
bool hole_write(int file, int64_t off); // false: no space for the page
VFile* vfs_lookup(const std::string& path);
VFile* vfs_mkdir(const std::string& path);
VFile* vfs_create(const std::string& path, VType t);
std::string vfs_read_all(VFile* f);
void vfs_release_proc(Proc* p);
std::string norm_path(const std::string& p);
uint64_t pc_site(void* pc);

// library entry guard
struct InLib {
    bool prev;
    InLib() { prev = self ? self->inlib : false; if (self) self->inlib = true; }
    ~InLib() { if (self) self->inlib = prev; }
};
struct OutLib {
    bool prev;
    OutLib() { prev = self ? self->inlib : false; if (self) self->inlib = false; }
    ~OutLib() { if (self) self->inlib = prev; }
};

} // namespace sim
