// C12: backups; C23: several databases in the same processes do not affect
// each other.  One driver works through the operations; the threads of
// asynchronous writers and, for C12, a client adding during the backup run
// under the scheduler.
#include "hist.h"
#include "raw.h"
#include <sys/syscall.h>
#include <algorithm>
namespace sim {
static const char* DIRS[] = { "/db", "/db2", "/bk", "/bk2" };
static void gen_multi(Plan& p, Rng& r, const std::string& prop, int tier)
{
    bool c12 = prop == "C12";
    cfg_gen(p, r, false, true);
    for (const char* x : { "bs_i", "bs_d" })
        if (r.chance(1, 2))
            p.cfg[x] = 4 << 20;
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = (int)r.range(1, 16);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(5);
    p.cfg["qsize"] = r.range(2, 10);
    p.cfg["qdir"] = r.chance(1, 5);
    bool async = r.chance(2, 5);
    p.cfg["async"] = async;
    bool conc = c12 && r.chance(1, 4);
    p.cfg["conc"] = conc;
    if (async)
        p.cfg["opts"] &= ~(int64_t)K->PREFIX_CACHE;
    int nops = (int)r.range(6, tier ? 70 : 40);
    Client c;
    c.label = "drv";
    auto add = [&](const char* k, int64_t a, int64_t b, int64_t cc = 0, int64_t d = 0) {
        Op o;
        o.k = k; o.a = a; o.b = b; o.c = cc; o.d = d;
        c.ops.push_back(o);
    };
    if (conc) {
        Client x;
        x.label = r.chance(1, 2) ? "A" : "B";
        int n = (int)r.range(5, 60);
        for (int i = 0; i < n; i++) {
            Op o;
            o.k = r.chance(3, 4) ? "put" : "rem";
            o.a = r.below(nk);
            o.b = i + 1;
            o.c = pick_len(r, 0, 8);
            x.ops.push_back(o);
        }
        p.cfg["async"] = 1;
        add("wopen", 0, 0, 1);
        add("go", 0, 0);
        add("nap", 0, r.below(4));
        add("backup", 0, 0, 2);
        add("check", 2, 1);
        p.clients.push_back(c);
        p.clients.push_back(x);
        gen_strategy(p, r, 6000);
        p.strat.stall_max_ns = 20000000ULL;
        return;
    }
    // b: process, c: async or target
    add("wopen", 0, 0, async && r.chance(1, 2));
    if (!c12)
        add("wopen", 1, r.below(2), async && r.chance(1, 2));
    int fills = (int)r.below(10);
    for (int i = 0; i < fills; i++)
        add("put", r.below(c12 ? 1 : 2), r.below(nk), pick_len(r, (int)p.cfg["vstyle"], 8), i + 1);
    for (int i = 0; i < nops; i++) {
        int d = c12 ? (r.chance(2, 3) ? 0 : (int)r.below(4)) : (int)r.below(3);
        int x = (int)r.below(100);
        if (x < 30) add("put", d, r.below(nk), pick_len(r, (int)p.cfg["vstyle"], 8), 100 + i);
        else if (x < 40) add("rem", d, r.below(nk), 0, r.below(2));
        else if (x < 43) add("all", d, 0);
        else if (x < 50) add("find", d, r.below(nk), r.below(2));
        else if (x < 58) add("check", d, r.below(2));
        else if (x < 62) add("rc", d, r.below(3));
        else if (x < 68) add("wclose", d, 0);
        else if (x < 76) add("wopen", d, r.below(2), async && r.chance(1, 2));
        else if (x < 80) add("ropen", d, r.below(2));
        else if (x < 83) add("rclose", d, r.below(2));
        else if (x < (c12 ? 97 : 88)) add("backup", r.chance(3, 4) ? 0 : r.below(4), 0, 2 + r.below(2), r.below(3));
        else if (x < 91) add("clear", d, r.below(2));
        else if (x < 94) add("break", d, r.below(3));
        else if (x < 98) add("rmdb", d, 0);
        else add("reboot", 0, 0);
    }
    p.clients.push_back(c);
    if (async)
        gen_strategy(p, r, 6000);
    else
        p.strat.kind = S_SEQ;
    p.strat.stall_max_ns = 20000000ULL;
    if (c12 && r.chance(1, 2)) { // faults while a backup is made
        int n = (int)r.range(1, 2);
        for (int i = 0; i < n; i++) {
            FaultSpec f;
            int x = (int)r.below(7);
            f.call = x == 0 ? "fopen" : x == 1 ? "fread" : x == 2 ? "fwrite" : x == 3 ? "fclose" : x == 4 ? "mmap" : x == 5 ? "open" : "rename";
            static const int errs[] = { ENOSPC, EIO, EMFILE, EACCES };
            f.err = x == 4 ? ENOMEM : x == 5 || x == 0 ? errs[2 + r.below(2)] : errs[r.below(2)];
            f.nth = (int)r.below(5);
            f.path = r.chance(1, 2) ? "/bk" : "";
            f.mode = x == 2 && r.chance(1, 2) ? "short" : "err";
            if (x == 3)
                f.path = "/bk";
            p.faults.push_back(f);
        }
    } else if (c12 && r.chance(1, 4))
        p.cfg["space"] = r.below(20);
    else if (c12 && !async && r.chance(1, 2)) {
        std::vector<int> bk;
        int uid = 0;
        for (auto& o : c.ops) {
            if (o.k == "backup")
                bk.push_back(uid);
            uid++;
        }
        if (!bk.empty()) {
            p.crash.armed = true;
            p.crash.proc = "A";
            p.crash.thr_op = bk[r.below(bk.size())];
            p.crash.nth = 1 + r.below(r.chance(1, 2) ? 20 : 300);
        }
    }
}
struct MultiRun {
    const Plan& p;
    Keys ks;
    Cfg c;
    struct DbState {
        bool exists = false, unsure = false; // unsure: an interrupted or failed backup may have left anything
        Map m;
        Db w, cl; // writer, client of an asynchronous writer
        bool open = false, async = false;
        int proc = 0;
        bool in_bk = false; // source of a running backup
        bool shm = false;   // a queue file exists
        bool ran_async = false;
        Db r[2];
    } D[4];
    Proc* P[2] = {};
    size_t next = 0;
    bool go = false, xdone = true;
    // states of database 0 as the concurrent client changes it
    std::vector<Map> states;
    size_t issued = 0, completed = 0;
    int gen = 0;
    explicit MultiRun(const Plan& q) : p(q) { }
    void drive();
    void adder();
    void procs()
    {
        for (int i = 0; i < 2; i++) {
            P[i] = new_proc(i ? "B" : "A");
            inst_take(P[i]);
        }
        hook();
    }
    void hook()
    {
        P[0]->on_death = [this] {
            probe("backup_killed");
            for (auto& d : D) {
                if (d.proc == 0) {
                    if (d.open) { d.w.drop(); d.cl.drop(); }
                    d.open = false;
                }
                d.r[0].drop();
            }
            P[0] = new_proc("A");
            inst_take(P[0]);
            P[0]->on_death = nullptr;
            for (int i = 0; i < 4; i++)
                if (D[i].unsure) {
                    D[i].unsure = false;
                    D[i].exists = D[i].shm = vfs_lookup(std::string(DIRS[i]) + "/_mabain_h") != nullptr;
                    probe(D[i].exists ? "killed_after_backup" : "backup_incomplete");
                    if (!D[i].exists)
                        D[i].m.clear();
                }
            Proc* driver = new_proc("drv");
            spawn(driver, [this] { drive(); });
        };
    }
    Cfg cfg(int d)
    {
        Cfg x = c;
        x.dir = DIRS[d];
        return x;
    }
    void drain(int d)
    {
        if (!D[d].open || !D[d].async)
            return;
        uint64_t t0 = S->now;
        while (D[d].cl.busy()) {
            if (S->now - t0 > 60000000000ULL)
                violation("queue-stuck", std::string("the asynchronous writer of ") + DIRS[d] + " does not process its queue");
            sleep_ns(20000000);
        }
    }
    void wopen(int d, int pr, bool async)
    {
        DbState& s = D[d];
        Cfg x = cfg(d);
        s.proc = pr;
        if (!s.w.open(P[pr], x, K->WRITER | (async ? K->ASYNC : 0), 1 + d))
            violation("open-failed", std::string("open of ") + DIRS[d] + " for writing failed with status " + rcs(s.w.st));
        s.open = true;
        s.async = async;
        s.ran_async |= async;
        s.exists = true;
        s.shm = true;
        if (async && !s.cl.open(P[1], x, K->READER, 50 + d))
            violation("open-failed", std::string("client open of ") + DIRS[d] + " failed with status " + rcs(s.cl.st));
    }
    void wclose(int d)
    {
        DbState& s = D[d];
        if (!s.open)
            return;
        drain(d);
        if (s.async)
            s.cl.close();
        s.w.close();
        s.open = false;
    }
    void check(int d, int pr, const char* when)
    {
        DbState& s = D[d];
        drain(d);
        std::string w = std::string(when) + " of " + DIRS[d];
        if (s.unsure)
            return;
        if (s.open && !s.async)
            check_all(s.w, s.m, ks, ("writer " + w).c_str());
        if (s.r[pr].h)
            check_all(s.r[pr], s.m, ks, ("reader " + w).c_str());
        else if (s.exists && s.shm) {
            Db t;
            if (!t.open(P[pr], cfg(d), K->READER, 70 + d))
                violation("reader-open-failed", w + ": reader open failed with status " + rcs(t.st));
            check_all(t, s.m, ks, ("new reader " + w).c_str());
            t.close();
        }
    }
    void wipe(int d, bool reuse)
    {
        std::string pre = std::string(DIRS[d]) + "/";
        std::vector<std::string> del;
        for (auto& kv : S->paths)
            if (kv.first.compare(0, pre.size(), pre) == 0 && kv.second->type == V_REG)
                del.push_back(kv.first);
        for (auto& x : del) {
            if (reuse && x == pre + "_mabain_h")
                S->free_ino.push_back(S->paths[x]->ino);
            S->paths[x]->nlink = 0;
            S->paths.erase(x);
        }
    }
    void close_all()
    {
        for (int d = 0; d < 4; d++) {
            wclose(d);
            for (auto& r : D[d].r)
                if (r.h)
                    r.close();
        }
    }
    void backup(const Op& o)
    {
        int d = (int)o.a, t = (int)o.c;
        DbState &s = D[d], &b = D[t];
        if (!s.open || s.unsure || d == t || b.open || b.r[0].h || b.r[1].h)
            return;
        drain(d);
        if (b.exists) { // must be refused
            int rc = s.async ? s.cl.backup(DIRS[t]) : s.w.backup(DIRS[t]);
            if (!s.async && rc == 0)
                violation("backup-overwrote", std::string("backup to ") + DIRS[t] + ", which has a database, returned success");
            drain(d);
            probe("backup_refused");
            return;
        }
        std::string what = std::string("backup of ") + DIRS[d] + " to " + DIRS[t];
        uint64_t f0 = 0, f1 = 0;
        for (auto& kv : S->st.faults) f0 += kv.second;
        b.exists = true;
        b.unsure = true; // until it is complete
        b.m = s.m;
        b.shm = b.ran_async = false;
        S->faults_on = true;
        if (p.g("space"))
            S->disk_free = (int64_t)p.g("space") << 20;
        size_t lo = completed;
        int rc = s.async ? s.cl.backup(DIRS[t]) : s.w.backup(DIRS[t]);
        drain(d);
        size_t hi = issued;
        S->faults_on = false;
        S->disk_free = INT64_MAX;
        for (auto& kv : S->st.faults) f1 += kv.second;
        bool clean = f0 == f1;
        probe(clean ? "backup_done" : "backup_with_faults");
        if (rc != 0 && clean && !(s.async && rc == K->TRY_AGAIN))
            violation("backup-failed", what + " returned " + rcs(rc));
        if (s.async && rc == K->TRY_AGAIN) {
            b.exists = b.unsure = false;
            return;
        }
        // Either there is no database, or it is a complete copy.
        if (!vfs_lookup(std::string(DIRS[t]) + "/_mabain_h")) {
            if ((!s.async && rc == 0) || clean)
                violation("backup-missing", what + " reported success but there is no database");
            b.exists = b.unsure = false;
            b.m.clear();
            probe("backup_failed");
        } else {
            Db v;
            if (!v.open(P[o.d & 1], cfg(t), K->READER, 60))
                violation("backup-unusable", what + (rc == 0 ? " reported success" : " failed, left a database") + " which cannot be opened for reading, status " + rcs(v.st));
            if (p.g("conc")) {
                bool match = false;
                for (size_t i = lo; i <= hi && i < states.size(); i++) {
                    bool same = true;
                    for (auto& k : ks.k) {
                        Val x = v.find(k);
                        auto it = states[i].find(k);
                        if (it == states[i].end() ? x.rc != K->NOT_EXIST : (x.rc != 0 || x.v != it->second))
                            same = false;
                    }
                    if (same) {
                        match = true;
                        b.m = states[i];
                        break;
                    }
                }
                if (!match) {
                    std::string t2;
                    for (auto& k : ks.k)
                        t2 += " " + show(k) + "=" + (v.find(k).rc == 0 ? show(v.find(k).v) : "absent");
                    violation("backup-inconsistent", what + ": content is no state of the source between request and end:" + t2);
                }
            }
            check_all(v, b.m, ks, what.c_str());
            b.unsure = false;
            b.shm = true;
            v.close();
        }
        if (!p.g("conc"))
            check(d, 0, "after the backup");
    }
    void clear(int d)
    {
        for (int i = 0; i < 2; i++) {
            InLib l;
            Proc* save = self->proc;
            self->proc = P[i];
            P[i]->inst->api->clear_resources((std::string(DIRS[d]) + "/").c_str());
            self->proc = save;
        }
    }
};
void MultiRun::adder()
{
    block_on([&] { return go; }, 0, "adder waits");
    Proc* pr = P[p.clients[1].label == "A" ? 0 : 1];
    Db x;
    if (!x.open(pr, cfg(0), K->READER, 40))
        violation("reader-open-failed", "adder: open failed with status " + rcs(x.st));
    for (auto& o : p.clients[1].ops) {
        OpScope os(o);
        Map m = states.back();
        std::string v = make_val(o.a, o.b, (int)o.c);
        if (o.k == "put")
            m[ks[o.a]] = v;
        else
            m.erase(ks[o.a]);
        states.push_back(m);
        issued++;
        int rc;
        for (;;) {
            rc = o.k == "put" ? x.add(ks[o.a], v, true) : x.rem(ks[o.a]);
            if (rc != K->TRY_AGAIN)
                break;
            sleep_ns(1000000);
        }
        if (rc != K->SUCCESS)
            violation("enqueue-error", "adder: " + o.k + " returned " + rcs(rc));
        completed++;
    }
    x.close();
    xdone = true;
}
void MultiRun::drive()
{
    auto& ops = p.clients[0].ops;
    while (next < ops.size()) {
        const Op& o = ops[next++];
        OpScope os(o);
        int d = (int)o.a & 3;
        DbState& s = D[d];
        if (o.k == "put" || o.k == "rem" || o.k == "all") {
            if (!s.open || s.unsure || p.g("conc"))
                continue;
            const std::string& k = ks[o.b];
            std::string v = make_val(o.b + 1000 * d, o.d, (int)o.c);
            int rc = 0;
            if (s.async) {
                // the queue may be full: the caller repeats
                Db& h = (o.d & 1) ? s.cl : s.cl;
                for (int i = 0;; i++) {
                    rc = o.k == "put" ? h.add(k, v, true) : o.k == "rem" ? h.rem(k) : h.remove_all();
                    if (rc != K->TRY_AGAIN)
                        break;
                    if (i > 3000)
                        violation("queue-stuck", std::string("the queue of ") + DIRS[d] + " stays full");
                    sleep_ns(20000000);
                }
                if (rc != 0)
                    violation("update-failed", o.k + " in " + DIRS[d] + " returned " + rcs(rc));
            } else {
                bool ex = s.m.count(k);
                rc = o.k == "put" ? s.w.add(k, v, true) : o.k == "rem" ? s.w.rem(k) : s.w.remove_all();
                if (rc != (o.k == "rem" && !ex ? K->NOT_EXIST : K->SUCCESS))
                    violation("update-failed", o.k + " of " + show(k) + " in " + DIRS[d] + " returned " + rcs(rc));
            }
            if (o.k == "put") s.m[k] = v;
            else if (o.k == "rem") s.m.erase(k);
            else s.m.clear();
        } else if (o.k == "find") {
            const std::string& k = ks[o.b];
            drain(d);
            Db* h = s.r[o.c & 1].h ? &s.r[o.c & 1] : s.open && !s.async ? &s.w : nullptr;
            if (!h || s.unsure)
                continue;
            Val v = h->find(k);
            auto it = s.m.find(k);
            if (it == s.m.end() ? v.rc != K->NOT_EXIST : (v.rc != 0 || v.v != it->second))
                violation("wrong-value", std::string("find in ") + DIRS[d] + " of " + show(k) + " returned rc " + rcs(v.rc) + " " + show(v.v) + (it == s.m.end() ? ", absent" : " expected " + show(it->second)));
        } else if (o.k == "check")
            check(d, (int)o.b & 1, "check");
        else if (o.k == "rc") {
            if (!s.open)
                continue;
            static const int64_t mins[] = { 1, 1, 4096 };
            if (s.async)
                s.cl.rc(mins[o.b], mins[o.b]);
            else
                s.w.rc(mins[o.b], mins[o.b]);
        } else if (o.k == "wclose")
            wclose(d);
        else if (o.k == "wopen") {
            if (s.open || s.unsure)
                continue;
            wopen(d, (int)o.b & 1, o.c);
            if (!p.g("conc"))
                check(d, (int)o.b & 1, "open");
        } else if (o.k == "ropen") {
            Db& r = s.r[o.b & 1];
            if (r.h || !s.exists || !s.shm || s.unsure)
                continue;
            if (!r.open(P[o.b & 1], cfg(d), K->READER, 30 + d))
                violation("reader-open-failed", std::string("open of ") + DIRS[d] + " for reading failed with status " + rcs(r.st));
        } else if (o.k == "rclose") {
            if (s.r[o.b & 1].h)
                s.r[o.b & 1].close();
        } else if (o.k == "backup") {
            int pr = s.proc;
            backup(o);
            (void)pr;
            if (o.uid >= p.crash.thr_op && p.crash.armed)
                S->crash.armed = false;
        } else if (o.k == "clear") {
            // only when no handle of this database is open
            if (!s.open && !s.r[0].h && !s.r[1].h)
                clear(d);
        } else if (o.k == "break") {
            // the header of one database is damaged: the next writer starts it anew
            if (s.open || s.r[0].h || s.r[1].h || !s.exists || s.unsure)
                continue;
            VFile* f = vfs_lookup(std::string(DIRS[d]) + "/_mabain_h");
            if (!f)
                continue;
            clear(d);
            uint16_t bad[4] = { 9, 9, 9, 9 };
            if (o.b == 0)
                raw_syscall(SYS_pwrite64, f->memfd, (long)bad, sizeof bad, 0);
            else {
                raw_syscall(SYS_ftruncate, f->memfd, o.b == 1 ? 0 : 4);
                f->size = o.b == 1 ? 0 : 4;
            }
            s.m.clear();
            wopen(d, 0, false);
            check(d, 0, "after the header was damaged");
            probe("database_recreated");
        } else if (o.k == "rmdb" || o.k == "reboot") {
            // all processes end; a database is deleted, its inode number is used again
            if (inst_left() < 3 || p.crash.armed)
                continue;
            close_all();
            for (int i = 0; i < 2; i++) {
                P[i]->on_death = nullptr;
                exit_proc(P[i]);
            }
            procs();
            if (o.k == "rmdb") {
                wipe(d, true);
                s.exists = s.unsure = s.shm = false;
                s.m.clear();
                wopen(d, 0, p.g("async") && (o.uid & 1));
                check(d, 1, "after the database was deleted and created again");
                probe("database_deleted");
            } else {
                std::vector<std::string> del;
                for (auto& kv : S->paths)
                    if (kv.first.compare(0, 9, "/dev/shm/") == 0)
                        del.push_back(kv.first);
                for (auto& x : del)
                    S->paths.erase(x);
                for (auto& y : D)
                    y.shm = false;
                probe("reboot");
            }
        } else if (o.k == "go") {
            xdone = false;
            go = true;
        } else if (o.k == "nap")
            sleep_ns(20000ULL << (2 * o.b));
    }
    block_on([&] { return xdone; }, 0, "driver waits");
    if (p.g("conc"))
        D[0].m = states.back();
    for (int d = 0; d < 4; d++)
        check(d, 1, "at the end");
    close_all();
}
static void run_multi(const Plan& p)
{
    MultiRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    R.states.push_back(Map());
    R.procs();
    Proc* dp = new_proc("drv");
    spawn(dp, [&] { R.drive(); });
    if (p.clients.size() > 1)
        spawn(R.P[p.clients[1].label == "A" ? 0 : 1], [&] { R.adder(); });
    run_all();
}
extern const Scenario SC_MULTI;
const Scenario SC_MULTI = { "multi", gen_multi, run_multi };
}
