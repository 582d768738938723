// C13: failing system calls, full disks and exhausted capacity are reported and do no
// damage; C16: opening a database never destroys it.
#include "hist.h"
#include "raw.h"
#include <sys/syscall.h>
#include <algorithm>
namespace sim {
static FaultSpec gen_fault(Rng& r, bool open_time)
{
    FaultSpec f;
    static const char* run_calls[] = { "open", "fallocate", "mmap", "pwrite", "pwrite", "pread", "ftruncate", "msync", "fsync" };
    static const char* open_calls[] = { "open", "open", "mmap", "fopen", "fread", "fallocate", "fstat", "stat", "fcntl", "mkfifo", "pread", "pwrite", "pthread_create", "flock", "fclose", "ftruncate", "unlink" };
    f.call = open_time ? open_calls[r.below(17)] : run_calls[r.below(9)];
    static const int errs[] = { EIO, ENOSPC, EMFILE, EACCES, ENOMEM, EINTR };
    f.err = f.call == "open" || f.call == "fopen" ? errs[2 + r.below(2)]
        : f.call == "mmap" ? ENOMEM
        : f.call == "fallocate" ? (r.chance(1, 2) ? ENOSPC : EOPNOTSUPP)
        : f.call == "pread" || f.call == "fread" ? EIO
        : f.call == "pthread_create" ? EAGAIN
        : f.call == "stat" || f.call == "fstat" ? EIO
        : f.call == "fcntl" || f.call == "flock" ? ENOLCK
        : errs[r.below(2)];
    f.mode = (f.call == "pwrite" || f.call == "pread") && r.chance(1, 3) ? "short" : "err";
    f.nth = (int)r.below(r.chance(1, 2) ? 4 : open_time ? 12 : 60);
    f.count = r.chance(1, 4) ? (int)r.range(2, 20) : 1;
    return f;
}
static void gen_fault_plan(Plan& p, Rng& r, const std::string& prop, int tier)
{
    bool c16 = prop == "C16";
    cfg_gen(p, r, false, true);
    p.strat.kind = S_SEQ;
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = (int)r.range(2, 30);
    p.cfg["vstyle"] = r.below(5);
    p.cfg["memonly"] = !c16 && r.chance(1, 6);
    int mode = c16 ? 0 : std::max(0, (int)r.below(5) - 2); // 0 failing calls, 1 capacity limits, 2 disk space
    if (p.cfg["memonly"]) {
        mode = 1;
        p.cfg["memcap_i"] = 4 << 20;
        p.cfg["memcap_d"] = (int64_t)(4 << 20) * r.range(1, 3);
    }
    p.cfg["mode"] = mode;
    p.cfg["async"] = c16 && r.chance(1, 6);
    if (mode == 1) {
        p.cfg["bs_i"] = p.cfg["bs_d"] = 4 << 20;
        p.cfg["max_d"] = r.range(1, 3);
        p.cfg["max_i"] = r.range(1, 2);
        nk = (int)r.range(5, 400);
        p.cfg["vstyle"] = 4;
    }
    bool big = mode != 1 && !c16 && r.chance(2, 3); // leaves the first data block
    if (big) {
        p.cfg["bs_i"] = p.cfg["bs_d"] = 4 << 20;
        nk = (int)r.range(125, 260);
        p.cfg["vstyle"] = 4;
    }
    if (r.chance(1, 3) || big)
        p.cfg["memcap_d"] = p.cfg["memonly"] ? p.cfg["memcap_d"] : 1 << 20;
    p.cfg["nk"] = nk;
    Client c;
    c.label = "w";
    auto add = [&](const char* k, int64_t a, int64_t b = 0, int64_t cc = 0, int64_t d = 0) {
        Op o;
        o.k = k; o.a = a; o.b = b; o.c = cc; o.d = d;
        c.ops.push_back(o);
    };
    int nops = (int)r.range(8, mode == 1 ? 40 : big ? 80 : tier ? 120 : 60);
    if (big) {
        if (mode == 2)
            add("space", r.range(0, 9));
        add("fill", 0, 1, r.range(100, 140));
    }
    int rough = mode == 0 ? (int)r.range(1, 6) : 0; // of ten operations run with faults
    for (int i = 0; i < nops; i++) {
        int x = (int)r.below(100);
        int64_t f = (int)r.below(10) < rough;
        if ((mode == 1 && x < 40) || (big && x < 15))
            add("fill", r.below(nk), i + 1, r.range(10, 120), r.below(8));
        else if (x < (c16 ? 25 : 50)) add(r.chance(1, 4) ? "add" : "put", r.below(nk), i + 1, (mode == 1 || big) && r.chance(2, 3) ? 4000 + r.below(28000) : pick_len(r, (int)p.cfg["vstyle"], 8), c16 ? 0 : f);
        else if (x < (c16 ? 32 : 62)) add("rem", r.below(nk), 0, 0, c16 ? 0 : f);
        else if (x < (c16 ? 34 : 64)) add("all", 0, 0, 0, c16 ? 0 : f);
        else if (x < (c16 ? 36 : 68)) add("rc", 0, r.below(2), 0, c16 ? 0 : f);
        else if (x < (c16 ? 38 : 74)) add("find", r.below(nk), r.below(2), 0, f);
        else if (x < (c16 ? 40 : 77)) add("iter", r.below(nk), r.below(2), 0, f);
        else if (x < (c16 ? 44 : 80)) add("ropen", 0, 0, 0, f);
        else if (x < (c16 ? 46 : 83)) add("rclose", 0);
        else if (x < (c16 ? 78 : 90)) add("reopen", r.below(3), r.below(6), 0, c16 ? r.below(2) : f);
        else if (x < (c16 ? 92 : 90)) add("odd", r.below(9), r.below(2));
        else if (x < (c16 ? 96 : 90)) add("damage", r.below(5), r.below(1 << 20));
        else if (x < 92) add("check", 0, r.below(2));
        else if (mode == 2) add("space", r.chance(1, 2) ? r.below(5) : r.below(12));
        else add("nap", 0);
    }
    p.clients.push_back(c);
    if (mode == 0) {
        int n = (int)r.range(1, c16 ? 5 : 9);
        for (int i = 0; i < n; i++)
            p.faults.push_back(gen_fault(r, c16));
    }
}
struct FaultRun {
    const Plan& p;
    Keys ks;
    Cfg c;
    Map m;
    Db w, rd;
    Proc *wp = nullptr, *rp = nullptr;
    bool memonly = false, cap = false;
    explicit FaultRun(const Plan& q) : p(q) { }
    uint64_t nf() const
    {
        uint64_t n = 0;
        for (auto& kv : S->st.faults)
            n += kv.second;
        return n;
    }
    void check(Db& d, const char* when) { check_all(d, m, ks, when, true, slack); }
    int64_t slack = 0;
    void resolve(const std::string& k, bool neu_present, const std::string& neu, const std::string& what)
    {
        Val v = w.find(k);
        auto it = m.find(k);
        bool old_ok = it == m.end() ? v.rc == K->NOT_EXIST : v.rc == 0 && v.v == it->second;
        bool new_ok = neu_present ? v.rc == 0 && v.v == neu : v.rc == K->NOT_EXIST;
        if (!old_ok && !new_ok)
            violation("failed-update-damage", what + " failed; the key is now rc " + rcs(v.rc) + " " + show(v.v) + ", before " + (it == m.end() ? "absent" : show(it->second)));
        if (!old_ok) {
            probe("failed_update_took_effect");
            if (neu_present)
                m[k] = neu;
            else
                m.erase(k);
        }
    }
    void wopen(const char* when)
    {
        if (!w.open(wp, c, K->WRITER, 1))
            violation("open-failed", std::string("open for writing ") + when + " failed with status " + rcs(w.st));
    }
    void new_writer_process()
    {
        if (inst_left() < 3)
            return;
        exit_proc(wp);
        wp = new_proc("w");
        inst_take(wp);
        self->proc = wp;
    }
    void rclose()
    {
        if (rd.h)
            rd.close();
    }
    void update(const Op& o);
    void drive();
};
void FaultRun::update(const Op& o)
{
    const std::string& k = ks[o.a];
    bool put = o.k != "rem", ow = o.k != "add";
    std::string v = put ? make_val(o.a, o.b, (int)o.c) : "";
    bool ex = m.count(k);
    uint64_t f0 = nf();
    S->faults_on = o.d & 1;
    int rc = put ? w.add(k, v, ow) : w.rem(k);
    S->faults_on = false;
    std::string what = o.k + " of " + show(k) + (put ? " (" + std::to_string(v.size()) + " bytes)" : "");
    if (rc == SHIM_EXC)
        violation("exception", what + " threw an exception");
    int want = !put ? (ex ? K->SUCCESS : K->NOT_EXIST) : (!ow && ex) ? K->IN_DICT : K->SUCCESS;
    if (rc == want) {
        if (rc == K->SUCCESS) {
            if (put)
                m[k] = v;
            else
                m.erase(k);
        }
    } else {
        if (rc == K->SUCCESS || (nf() == f0 && !cap))
            violation("update-failed", what + " returned " + rcs(rc) + " although no call failed");
        probe(put ? "add_failed" : "remove_failed");
        slack++;
        resolve(k, put && (ow || !ex), v, what);
    }
}
void FaultRun::drive()
{
    wopen("at first");
    for (auto& o : p.clients[0].ops) {
        OpScope os(o);
        bool flt = o.d & 1;
        if (o.k == "add" || o.k == "put" || o.k == "rem")
            update(o);
        else if (o.k == "fill") { // adds until it fails
            for (int i = 0; i < (int)p.g("nk") && i < o.c; i++) {
                Op x = o;
                x.k = "put";
                x.a = (o.a + i) % p.g("nk");
                x.b = o.b * 1000 + i;
                x.c = o.d == 0 ? 32000 : o.d == 1 ? 100 : 1000 * (1 + (o.b * 7 + i * o.d) % 32);
                x.d = 0;
                int64_t s0 = slack;
                update(x);
                if (slack != s0) {
                    probe("capacity_reached");
                    break;
                }
            }
        } else if (o.k == "all") {
            uint64_t f0 = nf();
            S->faults_on = flt;
            int rc = w.remove_all();
            S->faults_on = false;
            if (rc == SHIM_EXC)
                violation("exception", "RemoveAll threw an exception");
            if (rc == K->SUCCESS) {
                m.clear();
                slack = 0;
            } else {
                if (nf() == f0)
                    violation("update-failed", "RemoveAll returned " + rcs(rc) + " although no call failed");
                for (auto& k : ks.k)
                    if (m.count(k))
                        resolve(k, false, "", "RemoveAll");
                slack += 1000;
            }
        } else if (o.k == "rc") {
            S->faults_on = flt;
            int rc = w.rc(1, 1);
            S->faults_on = false;
            (void)rc;
            if (rc == SHIM_EXC)
                violation("exception", "CollectResource threw an exception");
            if (rc == K->SUCCESS && !flt)
                probe("rc_done");
            check(w, "after resource collection");
        } else if (o.k == "find") {
            const std::string& k = ks[o.a];
            Db& d = o.b && rd.h ? rd : w;
            auto it = m.find(k);
            uint64_t f0 = nf();
            S->faults_on = flt;
            Val v = d.find(k);
            S->faults_on = false;
            bool ok = it == m.end() ? v.rc == K->NOT_EXIST : v.rc == 0 && v.v == it->second;
            if (v.rc == SHIM_EXC)
                violation("exception", "Find threw an exception");
            if (!ok && (v.rc == 0 || v.rc == K->NOT_EXIST || nf() == f0))
                violation("wrong-value", "find of " + show(k) + (nf() != f0 ? " with a failing call" : "") + " returned rc " + rcs(v.rc) + " " + show(v.v) + ", expected " + (it == m.end() ? "absent" : show(it->second)));
            if (!ok)
                probe("find_failed");
        } else if (o.k == "iter") {
            Db& d = o.b && rd.h ? rd : w;
            S->faults_on = flt;
            std::vector<std::pair<std::string, std::string>> out;
            int rc = d.iterate(nullptr, out, m.size() * 2 + 100);
            S->faults_on = false;
            (void)rc;
            for (auto& kv : out) {
                auto it = m.find(kv.first);
                if (it == m.end() || it->second != kv.second)
                    violation("iterate-wrong-value", "iteration returned " + show(kv.first) + " with " + show(kv.second) + " expected " + (it == m.end() ? "absent" : show(it->second)));
            }
        } else if (o.k == "ropen") {
            if (rd.h || memonly)
                continue;
            uint64_t f0 = nf();
            S->faults_on = flt;
            bool ok = rd.open(rp, c, K->READER, 2);
            S->faults_on = false;
            if (!rd.h)
                violation("exception", "the constructor of a reader threw an exception");
            if (!ok) {
                if (nf() == f0)
                    violation("reader-open-failed", "open for reading failed with status " + rcs(rd.st));
                rd.close();
                probe("reader_open_failed");
            }
        } else if (o.k == "rclose")
            rclose();
        else if (o.k == "check") {
            check(w, "writer");
            if (rd.h)
                check(rd, "reader");
        } else if (o.k == "space") {
            S->disk_free = (int64_t)o.a << 20;
            cap = true;
            if (o.a >= 10)
                S->disk_free = INT64_MAX, cap = p.g("mode") == 1;
        } else if (o.k == "reopen") {
            if (memonly)
                continue;
            rclose();
            S->faults_on = flt && o.b < 3;
            w.close();
            S->faults_on = false;
            if (o.a == 2)
                new_writer_process();
            uint64_t f0 = nf();
            S->faults_on = flt;
            bool ok = w.open(wp, c, K->WRITER | (flt && p.g("async") ? K->ASYNC : 0), 1);
            S->faults_on = false;
            bool failing = nf() != f0;
            if (!w.h)
                violation("exception", "the constructor of a writer threw an exception");
            if (!ok || (w.mode & K->ASYNC)) {
                if (!ok && !failing)
                    violation("open-failed", "open for writing failed with status " + rcs(w.st) + " although no call failed");
                if (!ok)
                    probe("writer_open_failed");
                w.close();
                if (o.b % 3 == 1)
                    new_writer_process();
                if (o.b % 3 == 2 && !vfs_lookup("/db/_mabain_h"))
                    violation("database-erased", "a failed open removed the database");
                wopen("after a failed attempt");
            }
            if (flt)
                probe("open_with_faults");
            check(w, "after reopen");
        } else if (o.k == "odd") { // a writer with another configuration
            if (memonly)
                continue;
            rclose();
            w.close();
            Cfg x = c;
            static const char* what[] = { "index block size", "data block size", "queue size", "jemalloc option", "invalid block size", "bucket size", "prefix cache option", "maximum block numbers", "invalid bucket size" };
            switch (o.a) {
            case 0: x.bs_i *= 2; break;
            case 1: x.bs_d *= 2; break;
            case 2: x.qsize += 5; break;
            case 3: x.opts |= K->JEMALLOC; x.memcap_i = (uint64_t)x.bs_i * x.max_i; x.memcap_d = (uint64_t)x.bs_d * x.max_d; x.keep = true; break;
            case 4: x.bs_i = 4097; break;
            case 5: x.bucket += 3; break;
            case 6: x.opts ^= K->PREFIX_CACHE; break;
            case 7: x.max_i += 10; x.max_d += 10; break;
            case 8: x.bucket = 3; break;
            }
            bool ok = w.open(wp, x, K->WRITER, 1);
            probe(ok ? "odd_config_accepted" : "odd_config_refused");
            if (ok)
                check(w, (std::string("opened with another ") + what[o.a]).c_str());
            w.close();
            if (o.b)
                new_writer_process();
            wopen((std::string("after an open with another ") + what[o.a]).c_str());
            check(w, (std::string("after an open with another ") + what[o.a]).c_str());
        } else if (o.k == "damage") { // not a database of this version any more: started anew
            if (memonly)
                continue;
            rclose();
            w.close();
            new_writer_process();
            VFile* f = vfs_lookup("/db/_mabain_h");
            if (!f || inst_left() < 4) {
                wopen("again");
                continue;
            }
            int64_t sz = o.a == 0 ? 0 : o.a == 1 ? 1 + o.b % 7 : o.a == 2 ? 8 + o.b % 4088 : f->size;
            uint16_t bad[4] = { (uint16_t)(o.b & 15), (uint16_t)(o.b >> 4 & 15), 0, 0 };
            if (o.a == 3) {
                if (bad[0] == 1 && bad[1] == 7)
                    bad[0] = 2;
                raw_syscall(SYS_pwrite64, f->memfd, (long)bad, sizeof bad, 0);
            } else if (o.a == 4) {
                raw_syscall(SYS_ftruncate, f->memfd, 0);
                raw_syscall(SYS_ftruncate, f->memfd, f->size);
            } else {
                raw_syscall(SYS_ftruncate, f->memfd, sz);
                f->size = sz;
            }
            Db t;
            if (t.open(rp, c, K->READER, 2))
                violation("damaged-accepted", "a reader opened a database with a damaged header");
            t.close();
            exit_proc(rp); // it still has the removed files
            rp = new_proc("r");
            if (inst_left() < 2)
                return;
            inst_take(rp);
            wopen("after the header was damaged");
            m.clear();
            slack = 0;
            check(w, "after the header was damaged");
            probe("database_recreated");
        } else if (o.k == "nap")
            sleep_ns(1000000);
    }
    S->disk_free = INT64_MAX;
    check(w, "at the end");
    rclose();
    if (!memonly) {
        w.close();
        new_writer_process();
        wopen("at the end");
        check(w, "reopened at the end");
        if (!rd.open(rp, c, K->READER, 2))
            violation("reader-open-failed", "open for reading failed with status " + rcs(rd.st));
        check(rd, "reader at the end");
        rclose();
    }
    // it can be emptied and used again
    int rc = w.remove_all();
    if (rc != K->SUCCESS)
        violation("unusable", "RemoveAll at the end returned " + rcs(rc));
    m.clear();
    slack = 0;
    for (size_t i = 0; i < ks.size() && i < 20; i++) {
        std::string v = make_val(i, 7, 100);
        rc = w.add(ks[i], v, true);
        if (rc != K->SUCCESS)
            violation("unusable", "after RemoveAll an add returned " + rcs(rc));
        m[ks[i]] = v;
    }
    check(w, "emptied and filled again");
    w.close();
}
static void run_fault(const Plan& p)
{
    FaultRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    R.memonly = p.g("memonly");
    R.cap = p.g("mode") == 1;
    if (R.memonly)
        R.c.opts |= K->MEMORY_ONLY;
    R.wp = new_proc("w");
    inst_take(R.wp);
    R.rp = new_proc("r");
    inst_take(R.rp);
    spawn(R.wp, [&] { R.drive(); });
    run_all();
}
extern const Scenario SC_FAULT;
const Scenario SC_FAULT = { "fault", gen_fault_plan, run_fault };
}
