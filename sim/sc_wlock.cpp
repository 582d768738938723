// C10: at most one writer at a time, across threads, processes, kills and
// failed attempts; C17: mutual exclusion of DB::Lock.
#include "hist.h"
#include <algorithm>
namespace sim {
static void gen_wlock(Plan& p, Rng& r, const std::string& prop, int tier)
{
    bool c17 = prop == "C17";
    cfg_gen(p, r, false, true);
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    p.cfg["nk"] = (int)r.range(1, 10);
    p.cfg["vstyle"] = r.below(4);
    p.cfg["memonly"] = !c17 && r.chance(1, 10);
    p.cfg["async"] = r.chance(1, 5);
    p.cfg["jem"] = 0;
    bool mem = p.cfg["memonly"];
    if (mem)
        p.cfg["memcap_i"] = p.cfg["memcap_d"] = 512 << 20;
    int np = mem ? 1 : (int)r.range(1, 3), nc = (int)r.range(2, 5);
    for (int j = 0; j < nc; j++) {
        Client c;
        c.label = "p" + std::to_string(r.below(np));
        int n = (int)r.range(2, tier ? 20 : 12);
        for (int i = 0; i < n; i++) {
            Op o;
            o.a = r.below(p.cfg["nk"]);
            o.b = j * 1000 + i + 1;
            o.c = pick_len(r, (int)p.cfg["vstyle"], 8);
            int x = (int)r.below(100);
            if (c17)
                o.k = x < 55 ? "lock" : x < 65 ? "wopen" : x < 72 ? "wclose" : x < 80 ? "ropen" : x < 86 ? "rclose" : x < 93 ? "put" : "nap";
            else
                o.k = x < 32 ? "wopen" : x < 50 ? "wclose" : x < 58 ? "ropen" : x < 63 ? "rclose" : x < 75 ? "put" : x < 82 ? "rem" : x < 90 ? "find" : "nap";
            o.d = r.below(8);
            c.ops.push_back(o);
        }
        p.clients.push_back(c);
    }
    gen_strategy(p, r, 4000);
    p.strat.stall_max_ns = r.chance(1, 4) ? 2000000000ULL : 20000000ULL;
    if (!mem && r.chance(1, 2)) {
        int nk = (int)r.range(1, 2);
        std::vector<int> uids;
        int uid = 0;
        std::vector<std::pair<int, std::string>> all;
        for (auto& c : p.clients)
            for (size_t i = 0; i < c.ops.size(); i++)
                all.push_back({ uid++, c.label });
        for (int i = 0; i < nk; i++) {
            auto& t = all[r.below(all.size())];
            CrashSpec cs;
            cs.armed = true;
            cs.proc = t.second;
            cs.thr_op = t.first;
            cs.nth = 1 + r.below(1ULL << r.below(11));
            if (i == 0)
                p.crash = cs;
            else
                p.crash_more.push_back(cs);
        }
    }
}
struct WlockRun {
    const Plan& p;
    Keys ks;
    Cfg c;
    Hist H;
    bool created = false; // a writer has been open
    struct Iv { uint64_t a, b; int who; int proc; };
    std::vector<Iv> att;      // attempts and holds
    std::vector<Iv> closes;   // a handle of this thread was being closed
    int owner = -1, owner_proc = -1;
    size_t owner_iv = 0;
    std::map<int, size_t> attempting; // client -> open interval
    std::string pend;         // key of the update in progress
    uint64_t pend_inv = 0;
    int live = 0;
    int kills = 0;
    // shared lock
    int holder = -1;
    uint64_t holder_since = 0;
    explicit WlockRun(const Plan& q) : p(q) { }
    void client(Proc* cp, size_t ci, bool last);
    void died(Proc* cp)
    {
        kills++;
        probe("process_killed");
        if (owner >= 0 && owner_proc == cp->id) {
            att[owner_iv].b = stamp();
            owner = -1;
            probe("owner_killed");
        }
        for (auto& a : attempting)
            if (att[a.second].proc == cp->id && att[a.second].b == UINT64_MAX)
                att[a.second].b = stamp();
        if (holder >= 0 && holder_proc == cp->id) {
            holder = -1;
            probe("lock_owner_killed");
        }
    }
    int holder_proc = -1;
};
void WlockRun::client(Proc* cp, size_t ci, bool last)
{
    std::string who = "client " + std::to_string(ci) + " (process " + cp->label + ")";
    Db w, rd;
    bool own = false;
    auto resolve = [&] { // an update interrupted by a kill has happened or not
        if (pend.empty())
            return;
        Val v = w.find(pend);
        auto& l = H.at(pend);
        bool neu = l.back().present ? v.rc == K->SUCCESS && v.v == l.back().v : v.rc == K->NOT_EXIST;
        if (neu)
            H.end(pend, stamp());
        else
            H.cancel(pend);
        pend.clear();
    };
    auto wopen = [&](bool must) {
        size_t me = att.size();
        uint64_t inv = stamp();
        att.push_back({ inv, UINT64_MAX, (int)ci, cp->id });
        attempting[(int)ci] = me;
        Cfg x = c;
        int mode = K->WRITER;
        if (p.g("async") && (ci & 1) && !last)
            mode |= K->ASYNC;
        bool ok = w.open(cp, x, mode, 100 + (uint32_t)ci);
        uint64_t res = stamp();
        attempting.erase((int)ci);
        if (ok) {
            if (owner >= 0)
                violation("two-writers", who + " opened the database for writing while client " + std::to_string(owner) + " has it open for writing");
            owner = (int)ci;
            owner_proc = cp->id;
            owner_iv = me;
            own = true;
            created = true;
            probe("writer_opened");
            if (p.g("memonly")) // starts empty
                for (auto& k : ks.k)
                    if (H.at(k).back().present) {
                        H.begin(k, inv, false, "");
                        H.end(k, res);
                    }
            if (!(mode & K->ASYNC))
                resolve();
            return;
        }
        att[me].b = res;
        if (w.st != K->WRITER_EXIST)
            violation("open-error", who + ": open for writing failed with status " + rcs(w.st));
        bool excuse = false;
        for (size_t i = 0; i < att.size(); i++)
            if (i != me && att[i].a <= res && att[i].b >= inv)
                excuse = true;
        if (!excuse || must)
            violation("writer-refused", who + ": open for writing was refused although nobody had the database open for writing");
        probe("writer_refused");
        // the refused handle is closed later or at once
        w.close();
    };
    auto wclose = [&] {
        att[owner_iv].b = UINT64_MAX;
        size_t iv = owner_iv;
        owner = -1;
        own = false;
        w.close();
        att[iv].b = stamp();
    };
    auto upd = [&](const std::string& k, bool put, const std::string& v) {
        bool present = H.at(k).back().present;
        uint64_t inv = stamp();
        bool act = put || present;
        if (act) {
            H.begin(k, inv, put, v);
            pend = k;
        }
        int rc = put ? w.add(k, v, true) : w.rem(k);
        if (act)
            H.end(k, stamp());
        pend.clear();
        if (rc != (act ? K->SUCCESS : K->NOT_EXIST))
            violation("update-failed", who + ": " + (put ? "add" : "remove") + " of " + show(k) + " returned " + rcs(rc) + " although this client is the only writer");
    };
    if (last) {
        block_on([&] { return live == 0; }, 0, "last writer waits");
        S->crash.armed = false;
        S->crash_more.clear();
        wopen(true);
        for (auto& k : ks.k) {
            Val v = w.find(k);
            uint64_t now = stamp();
            if (!H.may(k, v.rc == K->SUCCESS, v.v, now, now) || (v.rc != K->SUCCESS && v.rc != K->NOT_EXIST))
                violation("update-lost", who + ": find of " + show(k) + " returned rc " + rcs(v.rc) + " " + show(v.v) + "; " + H.describe(k, now, now));
        }
        if (p.prop == "C17") {
            if (w.lock() != 0)
                violation("lock-failed", who + ": Lock failed");
            w.unlock();
        }
        wclose();
        return;
    }
    for (auto& o : p.clients[ci].ops) {
        OpScope os(o);
        const std::string& k = ks[o.a];
        bool async = own && (w.mode & K->ASYNC);
        if (o.k == "wopen") {
            if (!own)
                wopen(false);
        } else if (o.k == "wclose") {
            if (own)
                wclose();
        } else if (o.k == "put" || o.k == "rem") {
            if (own && !async)
                upd(k, o.k == "put", o.k == "put" ? make_val(o.a, o.b, (int)o.c) : "");
        } else if (o.k == "ropen") {
            if (rd.h)
                continue;
            bool must = created;
            uint64_t inv = stamp();
            bool ok = rd.open(cp, c, K->READER, 200 + (uint32_t)ci);
            uint64_t res = stamp();
            bool busy = p.g("memonly"); // the in-memory database exists as long as its writer's handle
            (void)inv;
            (void)res;
            if (!ok && must && !busy)
                violation("reader-open-failed", who + ": open for reading failed with status " + rcs(rd.st));
            if (!ok)
                rd.close();
        } else if (o.k == "rclose") {
            if (rd.h)
                rd.close();
        } else if (o.k == "find") {
            Db& d = rd.h ? rd : w;
            if (!d.h || (&d == &w && async) || p.g("memonly"))
                continue;
            uint64_t inv = stamp();
            Val v = d.find(k);
            H.lookup(k, v, inv, stamp(), who);
        } else if (o.k == "lock") {
            Db& d = rd.h ? rd : w;
            if (!d.h)
                continue;
            int rc = d.lock();
            if (rc != 0)
                violation("lock-failed", who + ": Lock returned " + std::to_string(rc));
            if (holder >= 0)
                violation("lock-not-exclusive", who + " obtained the database lock while client " + std::to_string(holder) + " holds it");
            holder = (int)ci;
            holder_proc = cp->id;
            probe("lock_taken");
            if (o.d < 3)
                sleep_ns(1000000 * (1 + o.d));
            if (o.d == 4 && own && !async)
                upd(k, true, make_val(o.a, o.b, (int)o.c));
            holder = -1;
            rc = d.unlock();
            if (rc != 0)
                violation("unlock-failed", who + ": UnLock returned " + std::to_string(rc));
        } else if (o.k == "nap")
            sleep_ns(200000ULL << o.d);
    }
    if (rd.h)
        rd.close();
    if (own)
        wclose();
    live--;
}
static void run_wlock(const Plan& p)
{
    WlockRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    if (p.g("memonly"))
        R.c.opts |= K->MEMORY_ONLY;
    std::map<std::string, Proc*> procs;
    std::map<std::string, int> nthr;
    for (auto& c : p.clients)
        nthr[c.label]++;
    R.live = (int)p.clients.size();
    // clients still running per process, for the kill
    static std::map<int, int> running;
    running.clear();
    for (size_t ci = 0; ci < p.clients.size(); ci++) {
        const Client& cl = p.clients[ci];
        if (!procs.count(cl.label)) {
            Proc* np = new_proc(cl.label);
            inst_take(np);
            procs[cl.label] = np;
            np->on_death = [&R, np] { R.live -= running[np->id]; R.died(np); };
        }
        Proc* np = procs[cl.label];
        running[np->id]++;
        spawn(np, [&R, np, ci] { R.client(np, ci, false); running[np->id]--; });
    }
    Proc* lp = p.g("memonly") ? procs.begin()->second : new_proc("last");
    if (!p.g("memonly"))
        inst_take(lp);
    if (!p.g("memonly"))
        spawn(lp, [&R, lp, &p] { R.client(lp, p.clients.size(), true); });
    run_all();
}
extern const Scenario SC_WLOCK;
const Scenario SC_WLOCK = { "wlock", gen_wlock, run_wlock };
}
