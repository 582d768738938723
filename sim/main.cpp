// Driver: seeded search over runs, gating, minimisation, replay, evidence.
#include <sys/resource.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <ucontext.h>
#include "dbh.h"
#include "raw.h"
#include <algorithm>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" void sim_load_jemalloc();
using namespace sim;

// development: SIMX_PROF=1 samples the run (development only, off by default)
static void* g_prof[65536];
static volatile int g_prof_n;
static void prof_sig(int, siginfo_t*, void* uc)
{
    int n = g_prof_n;
    if (n < 65536) {
        g_prof[n] = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
        g_prof_n = n + 1;
    }
}
static void prof_dump()
{
    FILE* f = fopen("/tmp/prof.txt", "a");
    for (int i = 0; i < g_prof_n; i++) {
        Dl_info di;
        if (dladdr(g_prof[i], &di) && di.dli_sname)
            fprintf(f, "%s %s\n", strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname, di.dli_sname);
        else
            fprintf(f, "? %s+%lx\n", di.dli_fname ? di.dli_fname : "?", (long)((char*)g_prof[i] - (char*)di.dli_fbase));
    }
    fclose(f);
}
static void prof_start()
{
    struct sigaction sa = {};
    sa.sa_sigaction = prof_sig;
    sa.sa_flags = SA_SIGINFO | SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval iv = { { 0, 500 }, { 0, 500 } };
    raw_syscall(SYS_setitimer, ITIMER_PROF, (long)&iv, 0);
}

struct Shared {
    volatile int stop;
    volatile uint64_t started;
};
struct Result {
    char cls[96];
    char msg[2048];
    uint64_t hash, ihash, steps, switches, simtime, crashes, stalls, torn, jumps;
    int budget, done, sig;
    int preempt; // preemptions inside library code
    uint64_t nrec;
    uint32_t text_len;
    char text[1 << 20];  // stats: lines "f name n" / "p name n" / "w site" / "c site"
    uint32_t log_len;
    char log[1 << 20];
};
static const uint64_t REC_CAP = 1 << 20;
static Result* R;
static SchedRec* REC;
static bool g_verbose, g_wantlog;
static int g_wall = 300;

static double nowr()
{
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void sig_handler(int sg, siginfo_t* si, void*)
{
    if (R->sig)
        _exit(71);
    R->sig = sg;
    if (g_verbose && self && self->proc && self->proc->inst) {
        void* bt[40];
        int n = backtrace(bt, 40);
        for (int i = 0; i < n; i++)
            fprintf(stderr, "BT 0x%lx\n", (unsigned long)bt[i] - self->proc->inst->base);
        fprintf(stderr, "fault address %p\n", si->si_addr);
    }
    if (S && S->viol.empty()) {
        int f = 0;
        uint64_t off = 0;
        bool reg = region_lookup(si->si_addr, f, off);
        snprintf(R->cls, sizeof R->cls, "%s", sg == SIGABRT ? "process-abort" : "memory-fault");
        snprintf(R->msg, sizeof R->msg, "signal %d (%s) while a %s operation was running%s", sg, strsignal(sg),
            self && self->proc ? self->proc->label.c_str() : "harness", reg ? " (mapped file)" : "");
        if (!(self && self->inlib))
            snprintf(R->cls, sizeof R->cls, "memory-corruption");
        R->hash = S->hash;
        R->ihash = S->ihash;
        R->steps = S->steps;
        R->nrec = *S->nrec;
        R->simtime = S->now - S->t0;
        if (g_wantlog) {
            std::string l;
            for (auto& x : S->log)
                l += x + "\n";
            size_t n = std::min(l.size(), sizeof R->log);
            memcpy(R->log, l.data() + (l.size() - n), n);
            R->log_len = (uint32_t)n;
        }
    } else if (S) {
        snprintf(R->cls, sizeof R->cls, "harness-fault");
    }
    R->done = 1;
    if (g_prof_n)
        prof_dump();
    _exit(0);
}

static const Scenario* find_scenario(const std::string& n)
{
    for (auto& s : SCENARIOS)
        if (n == s.name)
            return &s;
    return nullptr;
}

static void child_run(const Plan& p)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = sig_handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL })
        sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    struct { int pid; } dummy;
    (void)dummy;
    if (getenv("SIMX_PROF"))
        prof_start();
    alarm(g_wall);
    if (!g_verbose) {
        int nfd = open("/dev/null", O_RDWR);
        dup2(nfd, 1);
        dup2(nfd, 2);
    } else {
        int nfd = open("/dev/null", O_RDWR);
        dup2(nfd, 1);
    }
    Sim sm;
    S = &sm;
    S->seed = p.seed;
    S->strat = p.strat;
    S->tear = p.tear;
    S->srng = Rng(hcomb(p.seed, 0x5c4ed));
    S->crash = p.crash;
    S->crash_more = p.crash_more;
    S->crash_counting = p.crash.armed && p.crash.thr_op < 0;
    S->faults = p.faults;
    S->rec = REC;
    uint64_t nr = 0;
    S->nrec = &nr;
    S->rec_cap = REC_CAP;
    S->verbose = g_verbose;
    if (p.has_sched) {
        S->replay_sched = true;
        for (auto& x : p.sched)
            (x.to < 0 ? S->rec_stall : S->rec_in)[{ x.thr, x.key }] = x.to;
    }
    sim_init();
    boot_fs();
    find_scenario(p.scenario)->run(p);
    // serialise
    snprintf(R->cls, sizeof R->cls, "%s", S->viol.c_str());
    snprintf(R->msg, sizeof R->msg, "%s", S->viol_msg.c_str());
    R->hash = S->hash;
    R->ihash = S->ihash;
    R->steps = S->steps;
    R->switches = S->st.switches;
    R->simtime = S->now - S->t0;
    R->crashes = S->st.crashes;
    R->stalls = S->st.stalls;
    R->torn = S->st.torn;
    R->jumps = S->st.timejumps;
    R->budget = S->budget;
    R->nrec = nr;
    R->preempt = (int)S->switch_sites.size();
    std::ostringstream o;
    for (auto& kv : S->st.faults)
        o << "f " << kv.first << " " << kv.second << "\n";
    for (auto& kv : S->st.probes)
        o << "p " << kv.first << " " << kv.second << "\n";
    for (auto s : S->switch_sites)
        o << "w " << s << " 1\n";
    for (auto s : S->crash_sites)
        o << "c " << s << " 1\n";
    std::string t = o.str();
    size_t n = std::min(t.size(), sizeof R->text);
    memcpy(R->text, t.data(), n);
    R->text_len = (uint32_t)n;
    if (g_wantlog) {
        std::string l;
        for (auto& x : S->log)
            l += x + "\n";
        n = std::min(l.size(), sizeof R->log);
        memcpy(R->log, l.data() + (l.size() - n), n);
        R->log_len = (uint32_t)n;
    }
    R->done = 1;
    if (g_prof_n)
        prof_dump();
    _exit(0);
}

// run a plan in a forked child; returns false on harness failure
static bool run_plan(const Plan& p)
{
    R->cls[0] = R->msg[0] = 0;
    R->hash = R->ihash = R->steps = R->switches = R->simtime = R->crashes = R->stalls = R->torn = R->jumps = 0;
    R->budget = R->done = R->sig = R->preempt = 0;
    R->nrec = 0;
    R->text_len = R->log_len = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
        child_run(p);
    if (pid < 0)
        return false;
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (!R->done) {
        snprintf(R->cls, sizeof R->cls, "harness-lost-child");
        snprintf(R->msg, sizeof R->msg, "child status 0x%x", st);
        return false;
    }
    if (!strncmp(R->cls, "harness-", 8))
        return false;
    return true;
}

static Plan make_plan(const PropDef& d, uint64_t seed, uint64_t idx, int tier)
{
    Plan p;
    p.prop = d.id;
    p.seed = hcomb(hcomb(seed, mix64(d.id[1] * 1000 + atoi(d.id + 1))), idx);
    Rng r(p.seed);
    int tot = 0;
    for (auto& m : d.mix)
        tot += m.second;
    int x = (int)r.below(tot);
    for (auto& m : d.mix) {
        if (x < m.second) {
            p.scenario = m.first;
            break;
        }
        x -= m.second;
    }
    find_scenario(p.scenario)->gen(p, r, d.id, tier);
    p.number();
    return p;
}

struct Agg {
    uint64_t runs = 0, steps = 0, switches = 0, crashes = 0, stalls = 0, torn = 0, jumps = 0, budget = 0, harness = 0;
    double simtime = 0;
    std::map<std::string, uint64_t> faults, probes, scen;
    std::set<uint64_t> ihashes, hashes, wsites, csites;
    uint64_t nontrivial = 0;
    std::set<uint64_t> nt;
    std::vector<std::string> viol; // "idx\tclass\tmsg"
    std::vector<std::string> samples;
    std::string harness_msg;
};
static void agg_take(Agg& a, const Plan& p, uint64_t idx)
{
    a.runs++;
    a.steps += R->steps;
    a.switches += R->switches;
    a.crashes += R->crashes;
    a.stalls += R->stalls;
    a.torn += R->torn;
    a.jumps += R->jumps;
    a.budget += R->budget;
    a.simtime += R->simtime / 1e9;
    a.scen[p.scenario]++;
    a.hashes.insert(R->hash);
    if (R->switches)
        a.ihashes.insert(R->ihash);
    bool fault = R->crashes || R->stalls;
    std::istringstream in(std::string(R->text, R->text_len));
    std::string k, v;
    uint64_t n;
    while (in >> k >> v >> n) {
        if (k == "f") { a.faults[v] += n; fault = true; }
        else if (k == "p") a.probes[v] += n;
        else if (k == "w") a.wsites.insert(strtoull(v.c_str(), 0, 10));
        else if (k == "c") a.csites.insert(strtoull(v.c_str(), 0, 10));
    }
    if (R->preempt || fault || (p.cfg.count("restarts") && p.cfg.at("restarts"))) {
        a.nontrivial++;
        a.nt.insert(R->hash);
    }
    if (a.samples.size() < 2 && (idx % 37) < 8) {
        std::ostringstream o;
        o << "run " << idx << " scenario=" << p.scenario << " seed=" << p.seed << " ops=" << p.nops() << " clients=" << p.clients.size()
          << " strategy=" << (p.strat.kind == S_RANDOM ? "random" : p.strat.kind == S_PCT ? "pct" : "sequential") << "/" << (p.strat.kind == S_PCT ? p.strat.pct_depth : (int)p.strat.gap)
          << " crash=" << (p.crash.armed ? p.crash.proc + "@" + std::to_string(p.crash.nth) : "none") << " faults=" << p.faults.size()
          << " steps=" << R->steps << " switches=" << R->switches << " hash=" << std::hex << R->hash;
        a.samples.push_back(o.str());
    }
}
static void put(std::ostringstream& o, const char* k, const std::map<std::string, uint64_t>& m)
{
    for (auto& kv : m)
        o << k << "\t" << kv.first << "\t" << kv.second << "\n";
}
static std::string agg_text(const Agg& a)
{
    std::ostringstream o;
    o << "n\t" << a.runs << "\t" << a.steps << "\t" << a.switches << "\t" << a.crashes << "\t" << a.stalls << "\t" << a.torn << "\t" << a.jumps << "\t" << a.budget << "\t" << a.harness << "\t" << a.simtime << "\t" << a.nontrivial << "\n";
    put(o, "f", a.faults);
    put(o, "p", a.probes);
    put(o, "s", a.scen);
    auto set_ = [&](const char* k, const std::set<uint64_t>& s) { for (auto x : s) o << k << "\t" << x << "\n"; };
    set_("i", a.ihashes); set_("h", a.hashes); set_("w", a.wsites); set_("c", a.csites); set_("t", a.nt);
    for (auto& v : a.viol) o << "v\t" << v << "\n";
    for (auto& v : a.samples) o << "x\t" << v << "\n";
    if (!a.harness_msg.empty()) o << "e\t" << a.harness_msg << "\n";
    return o.str();
}
static void agg_merge(Agg& a, const std::string& t)
{
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        std::vector<std::string> f;
        std::istringstream l(line);
        std::string w;
        while (std::getline(l, w, '\t')) f.push_back(w);
        if (f.empty()) continue;
        auto u = [&](int i) { return strtoull(f[i].c_str(), 0, 10); };
        if (f[0] == "n" && f.size() >= 12) {
            a.runs += u(1); a.steps += u(2); a.switches += u(3); a.crashes += u(4); a.stalls += u(5); a.torn += u(6); a.jumps += u(7); a.budget += u(8); a.harness += u(9);
            a.simtime += atof(f[10].c_str()); a.nontrivial += u(11);
        } else if (f[0] == "f") a.faults[f[1]] += u(2);
        else if (f[0] == "p") a.probes[f[1]] += u(2);
        else if (f[0] == "s") a.scen[f[1]] += u(2);
        else if (f[0] == "i") a.ihashes.insert(u(1));
        else if (f[0] == "h") a.hashes.insert(u(1));
        else if (f[0] == "w") a.wsites.insert(u(1));
        else if (f[0] == "c") a.csites.insert(u(1));
        else if (f[0] == "t") a.nt.insert(u(1));
        else if (f[0] == "v") a.viol.push_back(line.substr(2));
        else if (f[0] == "x") a.samples.push_back(line.substr(2));
        else if (f[0] == "e") a.harness_msg = line.substr(2);
    }
}

static void alloc_shared()
{
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    REC = (SchedRec*)mmap(nullptr, REC_CAP * sizeof(SchedRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void pin(int w)
{
    static cpu_set_t avail;
    static bool got; // the mask the program was started with
    cpu_set_t one;
    if (!got) {
        CPU_ZERO(&avail);
        if (sched_getaffinity(0, sizeof avail, &avail) != 0)
            return;
        got = true;
    }
    int n = CPU_COUNT(&avail);
    if (n <= 0)
        return;
    int k = w % n;
    for (int c = 0; c < CPU_SETSIZE; c++)
        if (CPU_ISSET(c, &avail) && k-- == 0) {
            CPU_ZERO(&one);
            CPU_SET(c, &one);
            sched_setaffinity(0, sizeof one, &one);
            return;
        }
}

// ------------------------------------------------------------ minimisation
static double g_deadline;
static bool same(const Plan& p, const std::string& cls)
{
    if (nowr() > g_deadline)
        return false;
    return run_plan(p) && cls == R->cls;
}
static void take_sched(Plan& p)
{
    p.has_sched = true;
    p.sched.assign(REC, REC + R->nrec);
}
template <class T, class F> static void ddmin(std::vector<T>& v, F test)
{
    size_t n = 2;
    while (v.size() >= 1 && nowr() < g_deadline) {
        size_t chunk = std::max<size_t>(1, (v.size() + n - 1) / n);
        bool red = false;
        for (size_t i = 0; i < v.size(); i += chunk) {
            std::vector<T> w(v.begin(), v.begin() + i);
            w.insert(w.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
            if (test(w)) {
                v = w;
                n = std::max<size_t>(n - 1, 2);
                red = true;
                break;
            }
            if (nowr() > g_deadline)
                return;
        }
        if (!red) {
            if (chunk == 1)
                break;
            n = std::min(v.size(), n * 2);
        }
    }
}
static Plan minimise(Plan p, const std::string& cls, double secs)
{
    g_deadline = nowr() + secs;
    Plan cur = p; // has_sched with the failing schedule
    // drop ops (all clients together), keeping the schedule where it still fits
    for (int round = 0; round < 2; round++) {
        struct Ref { int c, i; };
        std::vector<std::pair<int, int>> refs;
        for (size_t c = 0; c < cur.clients.size(); c++)
            for (size_t i = 0; i < cur.clients[c].ops.size(); i++)
                refs.push_back({ (int)c, (int)i });
        Plan base = cur;
        auto build = [&](const std::vector<std::pair<int, int>>& w) {
            Plan q = base;
            for (auto& c : q.clients)
                c.ops.clear();
            for (auto& x : w)
                q.clients[x.first].ops.push_back(base.clients[x.first].ops[x.second]);
            return q;
        };
        ddmin(refs, [&](const std::vector<std::pair<int, int>>& w) {
            Plan q = build(w);
            return same(q, cls);
        });
        cur = build(refs);
        ddmin(cur.faults, [&](const std::vector<FaultSpec>& w) { Plan q = cur; q.faults = w; return same(q, cls); });
        if (cur.crash.armed) {
            Plan q = cur;
            q.crash.armed = false;
            if (same(q, cls))
                cur = q;
        }
        while (!cur.crash_more.empty()) {
            Plan q = cur;
            q.crash_more.pop_back();
            if (!same(q, cls))
                break;
            cur = q;
        }
        ddmin(cur.sched, [&](const std::vector<SchedRec>& w) { Plan q = cur; q.sched = w; return same(q, cls); });
    }
    // re-take the effective result
    g_deadline = nowr() + 60;
    if (!same(cur, cls))
        return p;
    cur.expect_class = cls;
    cur.expect_msg = R->msg;
    cur.expect_hash = R->hash;
    return cur;
}

static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string slurp(const std::string& f)
{
    std::ifstream in(f);
    std::stringstream b;
    b << in.rdbuf();
    return b.str();
}

int main(int argc, char** argv)
{
    // jemalloc derives its number of arenas from the CPUs of the process; fix it
    const char* mc = getenv("MALLOC_CONF");
    if (!mc || strcmp(mc, "narenas:8")) {
        setenv("MALLOC_CONF", "narenas:8", 1);
        execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0 && i + 1 < argc && strncmp(argv[i + 1], "--", 2))
            o[a.substr(2)] = argv[++i];
        else
            o[a.substr(2)] = "1";
    }
    std::string tier = o.count("tier") ? o["tier"] : "quick";
    uint64_t seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : 1;
    int jobs = o.count("jobs") ? atoi(o["jobs"].c_str()) : 8;
    int ninst = o.count("ninst") ? atoi(o["ninst"].c_str()) : 14;
    double tlimit = o.count("time") ? atof(o["time"].c_str()) : (tier == "quick" ? 75 : 3600);
    g_verbose = o.count("v");
    setenv("LC_ALL", "C", 1);
    setenv("TZ", "UTC", 1);
    unsetenv("MB_PFXCACHE_4_RATIO");
    mallopt(M_PERTURB, 0xa5);
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_TOP_PAD, 8 << 20);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    void* rg = (void*)raw_syscall(SYS_mmap, (long)REGION, REGION_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (rg != (void*)REGION) {
        fprintf(stderr, "sim: cannot reserve region\n");
        return 70;
    }
    sim_load_jemalloc();
    inst_load(o["inst"], ninst);
    {
        InLib l;
        (void)l;
    }
    alloc_shared();
    double t_start = nowr();

    if (o.count("replay")) {
        Plan p;
        if (!plan_parse(slurp(o["replay"]), p)) {
            fprintf(stderr, "bad replay file\n");
            return 2;
        }
        pin(0);
        g_wantlog = true;
        bool ok = run_plan(p);
        std::string log(R->log, R->log_len);
        if (o.count("log"))
            fputs(log.c_str(), stdout);
        printf("replay: class=%s hash=%llu expected class=%s hash=%llu ok=%d\n  %s\n", R->cls, (unsigned long long)R->hash, p.expect_class.c_str(),
            (unsigned long long)p.expect_hash, ok, R->msg);
        if (!R->cls[0])
            return 0;
        if (p.expect_class.empty())
            return 1;
        return (p.expect_class == R->cls && p.expect_hash == R->hash) ? 1 : 3;
    }

    const PropDef* pd = nullptr;
    for (auto& d : PROPS)
        if (o["prop"] == d.id)
            pd = &d;
    if (!pd) {
        fprintf(stderr, "unknown property %s\n", o["prop"].c_str());
        return 2;
    }
    int tiern = tier == "thorough";
    uint64_t nruns = o.count("runs") ? strtoull(o["runs"].c_str(), 0, 10) : (tiern ? pd->thorough_runs : pd->quick_runs);

    if (o.count("one")) {
        pin(0);
        g_wantlog = true;
        Plan p = make_plan(*pd, seed, strtoull(o["one"].c_str(), 0, 10), tiern);
        bool ok = run_plan(p);
        if (o.count("mini") && R->cls[0]) {
            std::string cls = R->cls;
            Plan q = p;
            take_sched(q);
            g_deadline = nowr() + 1e9;
            bool okk = same(q, cls);
            g_wantlog = false;
            int v = g_verbose;
            g_verbose = 0;
            p = okk ? minimise(q, cls, atof(o["mini"].c_str())) : q;
            if (!okk)
                printf("schedule replay did not reproduce\n");
            g_wantlog = true;
            g_verbose = v;
            ok = run_plan(p);
        }
        if (o.count("resched")) { // again, by the recorded schedule
            fprintf(stderr, "RESCHED\n");
            take_sched(p);
            ok = run_plan(p);
        }
        if (o.count("plan"))
            fputs(plan_text(p).c_str(), stdout);
        if (o.count("log"))
            fwrite(R->log, 1, R->log_len, stdout);
        printf("ok=%d class=%s msg=%s steps=%llu switches=%llu hash=%llx budget=%d\n%s", ok, R->cls, R->msg, (unsigned long long)R->steps,
            (unsigned long long)R->switches, (unsigned long long)R->hash, R->budget, std::string(R->text, std::min<uint32_t>(R->text_len, 3000)).c_str());
        return 0;
    }

    // listed findings: replay each and say whether it still fails
    std::vector<std::string> known;
    if (o.count("findings")) {
        pin(0);
        std::ifstream in(o["findings"]);
        std::string dir = o["findings"].substr(0, o["findings"].rfind('/'));
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string w, prop, rep, cls;
            l >> w >> prop >> rep >> cls;
            if (w != "known:" || prop != "property=" + o["prop"])
                continue;
            std::string rest;
            std::getline(l, rest);
            Plan p;
            if (!plan_parse(slurp(dir + "/" + rep.substr(7)), p)) {
                fprintf(stderr, "cannot read finding %s\n", rep.c_str());
                return 4;
            }
            run_plan(p);
            if (cls == std::string("class=") + R->cls) {
                printf("KNOWN-FINDING: property=%s%s\n", o["prop"].c_str(), rest.c_str());
                known.push_back(rest);
            } else
                printf("finding no longer reproduces (now: %s):%s\n", R->cls[0] ? R->cls : "holds", rest.c_str());
        }
        fflush(stdout);
    }

    bool determinism = o.count("determinism");
    bool keepgoing = o.count("keepgoing"); // development: collect every violation
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<int> pipes;
    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; w++) {
        int pfd[2];
        if (pipe(pfd))
            return 70;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            pin(w);
            alloc_shared();
            Agg a;
            for (uint64_t idx = w; idx < nruns; idx += jobs) {
                if (sh->stop || nowr() - t_start > tlimit)
                    break;
                Plan p = make_plan(*pd, seed, idx, tiern);
                bool ok = run_plan(p);
                if (!ok) {
                    a.harness++;
                    a.harness_msg = std::to_string(idx) + " " + R->cls + " " + R->msg;
                    if (a.harness > 3)
                        break;
                    continue;
                }
                agg_take(a, p, idx);
                if (o.count("hashes")) {
                    // one line per run, to compare executions of different processes
                    int hf = (int)raw_syscall(SYS_open, (long)o["hashes"].c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
                    std::string l = std::to_string(idx) + " " + std::to_string(R->hash) + " " + R->cls + "\n";
                    raw_syscall(SYS_write, hf, (long)l.data(), l.size());
                    raw_syscall(SYS_close, hf);
                }
                if (determinism) {
                    uint64_t h = R->hash;
                    std::string c = R->cls;
                    if (o["determinism"] == "schedule")
                        take_sched(p); // by the recorded schedule instead of the seed
                    run_plan(p);
                    if (h != R->hash || c != R->cls)
                        a.viol.push_back(std::to_string(idx) + "\tNONDETERMINISTIC\t");
                    continue;
                }
                if (R->cls[0]) {
                    a.viol.push_back(std::to_string(idx) + "\t" + R->cls + "\t" + R->msg);
                    if (!keepgoing) {
                        sh->stop = 1;
                        break;
                    }
                }
            }
            std::string t = agg_text(a);
            size_t off = 0;
            while (off < t.size()) {
                ssize_t k = raw_syscall(SYS_write, pfd[1], (long)(t.data() + off), t.size() - off);
                if (k <= 0)
                    break;
                off += k;
            }
            _exit(0);
        }
        close(pfd[1]);
        pipes.push_back(pfd[0]);
        pids.push_back(pid);
    }
    Agg tot;
    for (int w = 0; w < jobs; w++) {
        std::string t;
        char b[65536];
        ssize_t k;
        while ((k = raw_syscall(SYS_read, pipes[w], (long)b, sizeof b)) > 0)
            t.append(b, k);
        close(pipes[w]);
        agg_merge(tot, t);
        int st;
        waitpid(pids[w], &st, 0);
    }
    double wall = nowr() - t_start;
    struct rusage ru;
    getrusage(RUSAGE_CHILDREN, &ru);
    printf("jobs=%d cpu_user=%.1fs cpu_sys=%.1fs minflt=%ld nvcsw=%ld nivcsw=%ld\n", jobs, ru.ru_utime.tv_sec + ru.ru_utime.tv_usec / 1e6, ru.ru_stime.tv_sec + ru.ru_stime.tv_usec / 1e6,
        ru.ru_minflt, ru.ru_nvcsw, ru.ru_nivcsw);

    printf("runs=%llu wall=%.1fs (%.0f runs/h) simtime=%.1fs steps=%llu switches=%llu crashes=%llu stalls=%llu torn=%llu budget=%llu harness=%llu distinct=%zu interleavings=%zu\n",
        (unsigned long long)tot.runs, wall, tot.runs / wall * 3600, tot.simtime, (unsigned long long)tot.steps, (unsigned long long)tot.switches,
        (unsigned long long)tot.crashes, (unsigned long long)tot.stalls, (unsigned long long)tot.torn, (unsigned long long)tot.budget, (unsigned long long)tot.harness, tot.hashes.size(), tot.ihashes.size());
    for (auto& kv : tot.faults) printf("  fault %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    for (auto& kv : tot.probes) printf("  probe %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);

    int exit_code = 0;
    std::string vline;
    if (tot.harness) {
        printf("HARNESS-ERROR %s\n", tot.harness_msg.c_str());
        exit_code = 4;
    }
    if (keepgoing || determinism) {
        std::map<std::string, std::vector<std::string>> by;
        for (auto& v : tot.viol) {
            size_t t1 = v.find('\t'), t2 = v.find('\t', t1 + 1);
            by[v.substr(t1 + 1, t2 - t1 - 1)].push_back(v.substr(0, t1) + ": " + v.substr(t2 + 1));
        }
        for (auto& kv : by) {
            printf("CLASS %s x%zu\n", kv.first.c_str(), kv.second.size());
            for (size_t i = 0; i < std::min<size_t>(4, kv.second.size()); i++)
                printf("    %s\n", kv.second[i].c_str());
        }
        return by.empty() ? exit_code : 1;
    }
    if (!tot.viol.empty()) {
        // lowest index first
        std::sort(tot.viol.begin(), tot.viol.end(), [](const std::string& a, const std::string& b) { return strtoull(a.c_str(), 0, 10) < strtoull(b.c_str(), 0, 10); });
        pin(0);
        bool reported = false;
        for (auto& v : tot.viol) {
            uint64_t idx = strtoull(v.c_str(), 0, 10);
            Plan p = make_plan(*pd, seed, idx, tiern);
            if (!run_plan(p) || !R->cls[0]) {
                printf("GATE: run %llu did not reproduce (first)\n", (unsigned long long)idx);
                continue;
            }
            std::string cls = R->cls;
            uint64_t h1 = R->hash;
            std::string msg = R->msg;
            Plan q = p;
            take_sched(q);
            if (!run_plan(p) || cls != R->cls || h1 != R->hash) {
                printf("GATE: run %llu not deterministic\n", (unsigned long long)idx);
                continue;
            }
            printf("violation in run %llu: %s: %s\n", (unsigned long long)idx, cls.c_str(), msg.c_str());
            fflush(stdout);
            g_deadline = nowr() + 1e9;
            bool replayable = same(q, cls);
            Plan m;
            if (replayable)
                m = minimise(q, cls, o.count("min") ? atof(o["min"].c_str()) : 100);
            if (!replayable || m.expect_class.empty()) {
                // fall back to the plan drawn from its seed
                m = p;
                g_deadline = nowr() + 1e9;
                run_plan(m);
                m.expect_class = R->cls;
                m.expect_msg = R->msg;
                m.expect_hash = R->hash;
            }
            std::string dir = o.count("replays") ? o["replays"] : ".";
            std::string path = dir + "/" + pd->id + "-" + cls + "-" + std::to_string(idx) + ".replay";
            {
                std::ofstream f(path);
                f << plan_text(m);
            }
            // fresh process
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                int nfd = open("/dev/null", O_WRONLY);
                dup2(nfd, 1);
                std::string ni = std::to_string(ninst);
                execl("/proc/self/exe", argv[0], "--replay", path.c_str(), "--inst", o["inst"].c_str(), "--ninst", ni.c_str(), (char*)0);
                _exit(99);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
                printf("GATE: fresh-process replay of run %llu returned 0x%x\n", (unsigned long long)idx, st);
                continue;
            }
            printf("  minimised: %zu ops, %zu schedule points, %zu faults, crash=%d\n  %s\n", m.nops(), m.sched.size(), m.faults.size(), m.crash.armed, m.expect_msg.c_str());
            vline = "VIOLATION property=" + std::string(pd->id) + " replay=" + path;
            reported = true;
            break;
        }
        exit_code = reported ? 1 : 4;
    }
    // evidence
    if (o.count("evidence")) {
        std::ofstream f(o["evidence"]);
        auto mp = [&](const std::map<std::string, uint64_t>& m) {
            std::string s = "{";
            bool first = true;
            for (auto& kv : m) {
                s += (first ? "" : ", ") + json_str(kv.first) + ": " + std::to_string(kv.second);
                first = false;
            }
            return s + "}";
        };
        f << "{\n  \"property\": \"" << pd->id << "\",\n  \"tier\": \"" << tier << "\",\n  \"seed\": " << seed << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n";
        f << "    \"evaluations\": " << tot.runs << ",\n    \"distinct_nontrivial\": " << tot.nt.size() << ",\n";
        f << "    \"rule\": \"Every run is a plan (configuration, client operations, faults, kill point, scheduling strategy) drawn from VERIF_SEED and the run index, executed once in the simulator. Non-trivial: at least one preemption inside library code, a fired fault, a kill or a restart. Distinct: different hash over the full event sequence.\",\n";
        f << "    \"samples\": [";
        for (size_t i = 0; i < std::min<size_t>(6, tot.samples.size()); i++)
            f << (i ? ", " : "") << json_str(tot.samples[i]);
        f << "],\n";
        f << "    \"runs_per_hour\": " << (uint64_t)(tot.runs / wall * 3600) << ",\n    \"seeds_per_hour\": " << (uint64_t)(tot.runs / wall * 3600)
          << ",\n    \"simulated_seconds\": " << tot.simtime << ",\n    \"scheduler_steps\": " << tot.steps << ",\n    \"thread_switches\": " << tot.switches
          << ",\n    \"distinct_interleavings\": " << tot.ihashes.size() << ",\n    \"distinct_preemption_sites\": " << tot.wsites.size()
          << ",\n    \"distinct_kill_sites\": " << tot.csites.size() << ",\n    \"inconclusive_step_budget\": " << tot.budget << ",\n";
        std::map<std::string, uint64_t> fl = tot.faults;
        fl["process_kill"] = tot.crashes;
        fl["thread_stall"] = tot.stalls;
        fl["torn_access"] = tot.torn;
        fl["clock_jump_to_next_event"] = tot.jumps;
        f << "    \"faults_injected\": " << mp(fl) << ",\n    \"known_findings_reproduced\": " << known.size() << ",\n    \"reach_probes\": " << mp(tot.probes) << ",\n    \"scenarios\": " << mp(tot.scen) << ",\n";
        f << "    \"real_code\": \"all of /repo/src (library copies, one per simulated process), jemalloc, libstdc++, libc string and stdio buffering\",\n";
        f << "    \"stubbed\": \"kernel file system, file locks, fifos, mmap backing (memfd), clock, sleeping, pids, pthread mutexes and thread scheduling\"\n  },\n";
        f << "  \"assumptions\": [\"memory accesses are sequentially consistent between instrumented accesses\", \"a killed process loses nothing it already stored in a shared mapping or wrote to a file\", \"search samples schedules and faults; it does not enumerate them\"],\n";
        f << "  \"wall_s\": " << wall << ",\n  \"violations\": " << (exit_code == 1 ? 1 : 0) << "\n}\n";
    }
    if (!vline.empty())
        printf("%s\n", vline.c_str());
    fflush(stdout);
    return exit_code;
}
