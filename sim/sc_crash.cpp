// The synchronous writer is killed at arbitrary points (also while opening or
// recovering); a new writer process takes over.  Readers keep running.
#include "hist.h"
#include <algorithm>
namespace sim {
static void gen_crash(Plan& p, Rng& r, const std::string& prop, int tier)
{
    bool c04 = prop == "C04", c18 = prop == "C18", c19 = prop == "C19";
    cfg_gen(p, r, false, false);
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = r.chance(1, 4) ? (int)r.range(20, 80) : (int)r.range(1, 14);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(5);
    int vs = (int)p.cfg["vstyle"];
    int pre = r.chance(1, 3) ? (int)r.below(4) : (int)r.range(0, nk * 2), nw = (int)r.range(2, tier ? 50 : 25);
    bool fresh = r.chance(1, 2); // mostly first-time additions: the tree grows
    Client w;
    w.label = "w";
    int w_add = 30, w_put = (int)r.range(5, 50), w_rem = (int)r.range(5, 50), w_rc = c04 ? 30 : r.chance(1, 4) ? 4 : 0,
        w_all = c04 ? 10 : r.chance(1, 6) ? 3 : 0, w_find = 3, w_re = 3;
    std::vector<int> grow; // operations that change the set of keys
    std::set<int64_t> have;
    for (int i = 0; i < pre + nw; i++) {
        Op o;
        o.a = fresh && (int)have.size() < nk && r.chance(4, 5) ? (int64_t)have.size() : (int64_t)r.below(nk);
        o.b = i + 1;
        o.c = pick_len(r, vs, 8);
        int x = (int)r.below(w_add + w_put + w_rem + w_rc + w_all + w_find + w_re);
        if (i == pre) {
            Op s;
            s.k = "go";
            w.ops.push_back(s);
        }
        auto note = [&] {
            bool in = have.count(o.a);
            if (o.k == "rem" ? in : !in) grow.push_back((int)w.ops.size());
            if (o.k == "rem") have.erase(o.a);
            else have.insert(o.a);
            w.ops.push_back(o);
        };
        if (i < pre) { o.k = r.chance(3, 4) ? "put" : "rem"; note(); continue; }
        if ((x -= w_add) < 0) o.k = "add";
        else if ((x -= w_put) < 0) o.k = "put";
        else if ((x -= w_rem) < 0) o.k = "rem";
        else if ((x -= w_rc) < 0) { o.k = "rc"; o.b = r.below(3); }
        else if ((x -= w_all) < 0) { o.k = "all"; have.clear(); }
        else if ((x -= w_find) < 0) o.k = "find";
        else { o.k = "reopen"; o.b = r.below(3); }
        if (o.k == "add" || o.k == "put" || o.k == "rem") note();
        else w.ops.push_back(o);
    }
    p.clients.push_back(w);
    int nr = c18 ? (int)r.range(1, 2) : r.chance(1, 3) ? 1 : 0;
    if (c19) nr = r.chance(1, 2);
    for (int j = 0; j < nr; j++) {
        Client c;
        c.label = "r" + std::to_string(j);
        int n = (int)r.range(2, 25);
        for (int i = 0; i < n; i++) {
            Op o;
            o.a = r.below(nk);
            int x = (int)r.below(60);
            if (x < 40) o.k = "find";
            else if (x < 52) { o.k = "lp"; o.b = r.below(4); o.c = r.below(1 << 20); }
            else if (x < 56) { o.k = r.chance(1, 2) ? "iter" : "piter"; o.b = 1 + r.below(6); }
            else if (x < 58) o.k = "reopen";
            else o.k = "nap";
            c.ops.push_back(o);
        }
        p.clients.push_back(c);
    }
    p.number();
    if (nr)
        gen_strategy(p, r, 300 * (nw + nr * 20));
    else
        p.strat.kind = S_SEQ;
    int nc = c19 && r.chance(1, 2) ? 0 : r.chance(1, 2) ? (int)r.range(2, 6) : 1;
    p.cfg["crashes"] = nc;
    // how the new writer finds the database: reopen delay (ms)
    p.cfg["delay"] = r.chance(1, 2) ? 0 : r.below(200);
    int at = pre;
    for (int i = 0; i < nc; i++) {
        CrashSpec cs;
        cs.armed = true;
        cs.proc = "w";
        if (i == 0) {
            at = (int)r.range(r.chance(1, 8) ? 0 : pre + 1, pre + nw);
            cs.thr_op = p.clients[0].ops[at].uid;
        } else if (r.chance(1, 2))
            cs.thr_op = -1; // from the moment of the previous kill: opening and recovery
        else {
            at = (int)std::min<int64_t>(pre + nw, at + r.below(6));
            cs.thr_op = p.clients[0].ops[at].uid;
        }
        if (cs.thr_op >= 0 && !grow.empty() && r.chance(1, 2)) {
            auto it = std::lower_bound(grow.begin(), grow.end(), at);
            if (it != grow.end()) {
                at = *it;
                cs.thr_op = p.clients[0].ops[at].uid;
            }
        }
        cs.nth = cs.thr_op >= 0 && r.chance(2, 3) ? r.below(50) : r.below(1ULL << r.range(1, cs.thr_op < 0 ? 11 : 8));
        if (i == 0)
            p.crash = cs;
        else
            p.crash_more.push_back(cs);
    }
}

struct CrashRun {
    const Plan& p;
    Keys ks;
    Cfg c, rc;
    Hist H;
    Map m;
    bool go = false, writer_up = false, finished = false;
    int readers = 0, kills = 0;
    int64_t slack = 0;      // each kill may leave the entry count off by one; a killed RemoveAll leaves it undefined
    size_t next = 0;        // next writer operation
    bool crash_phase = false; // a kill happened, not yet recovered
    // the operation in progress
    std::string ik;         // its key
    int what = 0;           // 0 none, 1 add/put, 2 remove, 3 remove all
    bool had = false;
    std::string oldv, newv;
    Map before;
    uint64_t down_since = 0;
    CrashRun(const Plan& pl) : p(pl) {}
    void writer(Proc* wp);
    void resolve(Db& db);
    void reader(Proc* rp, size_t ci);
};
void CrashRun::resolve(Db& db)
{
    uint64_t res = stamp();
    auto settle = [&](const std::string& k, bool had_old, const std::string& ov, bool has_new, const std::string& nv) {
        Val v = db.find(k);
        bool pr = v.rc == K->SUCCESS;
        if (!pr && v.rc != K->NOT_EXIST)
            violation("recovered-error", "after the restart find of " + show(k) + " returned rc " + rcs(v.rc));
        if (pr == has_new && (!pr || v.v == nv)) {
            H.end(k, res);
            if (pr) m[k] = v.v; else m.erase(k);
            probe("inflight_kept");
        } else if (pr == had_old && (!pr || v.v == ov)) {
            // not applied: a reader may have seen it only if it is kept
            H.cancel(k);
            if (pr) m[k] = v.v; else m.erase(k);
            probe("inflight_dropped");
        } else
            violation("recovered-garbage", "after the restart " + show(k) + " is " + (pr ? show(v.v) : std::string("absent")) + ", neither its value before nor after the interrupted operation (" + (had_old ? show(ov) : std::string("absent")) + " -> " + (has_new ? show(nv) : std::string("absent")) + ")");
    };
    if (what == 1)
        settle(ik, had, oldv, true, newv);
    else if (what == 2)
        settle(ik, true, oldv, false, "");
    else if (what == 3)
        for (auto& kv : before)
            settle(kv.first, true, kv.second, false, "");
    what = 0;
    H.wops.push_back({ H.open_inv ? H.open_inv : down_since, res });
    H.open_inv = 0;
}
void CrashRun::writer(Proc* wp)
{
    wp->on_death = [this] {
        kills++;
        slack = what == 3 || slack < 0 ? -1 : slack + 1;
        crash_phase = true;
        down_since = stamp();
        if (!H.open_inv)
            H.open_inv = down_since;
        Proc* np = new_proc("w");
        inst_take(np);
        spawn(np, [this, np] {
            if (p.g("delay"))
                sleep_ns((uint64_t)p.g("delay") * 1000000);
            writer(np);
        });
    };
    Db db;
    Proc* cur = wp;
    if (!db.open(cur, c, K->WRITER, 1))
        violation("open-failed", "writer open failed with status " + rcs(db.st) + (kills ? " after a kill" : ""));
    if (crash_phase) {
        resolve(db);
        crash_phase = false;
        if (!go) go = true;
        check_all(db, m, ks, "after the restart", true, slack);
        probe("recovered");
    }
    while (next < p.clients[0].ops.size()) {
        const Op& o = p.clients[0].ops[next++];
        OpScope os(o);
        const std::string& k = ks[o.a];
        if (o.k == "go") {
            go = true;
        } else if (o.k == "add" || o.k == "put") {
            std::string v = make_val(o.a, o.b, (int)o.c);
            had = m.count(k);
            bool act = o.k == "put" || !had;
            uint64_t inv = stamp();
            H.open_inv = inv;
            if (act) {
                oldv = had ? m[k] : "";
                newv = v;
                ik = k;
                what = 1;
                H.begin(k, inv, true, v);
            }
            int rcv = db.add(k, v, o.k == "put");
            what = 0;
            uint64_t res = stamp();
            if (act) {
                if (rcv != K->SUCCESS)
                    violation("add-failed", "add of " + show(k) + " returned " + rcs(rcv));
                H.end(k, res);
                m[k] = v;
            } else if (rcv != K->IN_DICT)
                violation("add-existing", "add of existing " + show(k) + " returned " + rcs(rcv));
            H.wops.push_back({ inv, res });
            H.open_inv = 0;
        } else if (o.k == "rem") {
            had = m.count(k);
            uint64_t inv = stamp();
            H.open_inv = inv;
            if (had) {
                oldv = m[k];
                ik = k;
                what = 2;
                H.begin(k, inv, false, "");
            }
            int rcv = db.rem(k);
            what = 0;
            uint64_t res = stamp();
            if (had) {
                if (rcv != K->SUCCESS)
                    violation("remove-failed", "remove of existing " + show(k) + " returned " + rcs(rcv));
                H.end(k, res);
                m.erase(k);
            } else if (rcv != K->NOT_EXIST)
                violation("remove-absent", "remove of absent " + show(k) + " returned " + rcs(rcv));
            H.wops.push_back({ inv, res });
            H.open_inv = 0;
        } else if (o.k == "rc") {
            static const int64_t mins[] = { 0, 1, 4096 };
            uint64_t inv = stamp();
            H.open_inv = inv;
            db.rc(mins[o.b], mins[o.b]);
            H.wops.push_back({ inv, stamp() });
            H.open_inv = 0;
        } else if (o.k == "all") {
            uint64_t inv = stamp();
            H.open_inv = inv;
            before = m;
            for (auto& kv : m)
                H.begin(kv.first, inv, false, "");
            what = 3;
            int rcv = db.remove_all();
            what = 0;
            if (rcv != K->SUCCESS)
                violation("removeall-failed", "RemoveAll returned " + rcs(rcv));
            uint64_t res = stamp();
            for (auto& kv : m)
                H.end(kv.first, res);
            m.clear();
            slack = 0;
            H.wops.push_back({ inv, res });
            H.open_inv = 0;
        } else if (o.k == "find") {
            uint64_t inv = stamp();
            Val v = db.find(k);
            H.lookup(k, v, inv, stamp(), "writer");
        } else if (o.k == "reopen") {
            uint64_t inv = stamp();
            H.open_inv = inv;
            db.close();
            if (!db.open(cur, c, K->WRITER, 1))
                violation("open-failed", "writer reopen failed with status " + rcs(db.st));
            H.wops.push_back({ inv, stamp() });
            H.open_inv = 0;
        }
    }
    go = true;
    finished = true;
    block_on([&] { return readers == 0; }, 0, "writer waits for readers");
    check_all(db, m, ks, "writer at end", true, slack);
    uint64_t inv = stamp();
    H.open_inv = inv;
    db.close();
    if (!db.open(cur, c, K->WRITER, 1))
        violation("open-failed", "writer reopen failed with status " + rcs(db.st));
    H.open_inv = 0;
    check_all(db, m, ks, "after a clean restart at the end", true, slack);
    db.close();
    wp->on_death = nullptr;
}
void CrashRun::reader(Proc* rp, size_t ci)
{
    block_on([&] { return go; }, 0, "reader waits");
    std::string who = "reader" + std::to_string(ci);
    Db db;
    auto op = [&] {
        if (!db.open(rp, rc, K->READER, 10 + (uint32_t)ci))
            violation("reader-open-failed", who + ": open failed with status " + rcs(db.st));
    };
    op();
    for (auto& o : p.clients[ci].ops) {
        OpScope os(o);
        const std::string& k = ks[o.a];
        uint64_t inv = stamp();
        if (crash_phase)
            probe("read_while_writer_dead");
        if (o.k == "find") {
            Val v = db.find(k);
            H.lookup(k, v, inv, stamp(), who);
        } else if (o.k == "lp") {
            std::string q = k;
            Rng rr(hcomb(o.c, 3));
            for (int i = 0; i < o.b && q.size() < 255; i++)
                q += (char)(rr.chance(1, 2) ? 'a' + rr.below(3) : k[rr.below(k.size())]);
            Val v = db.lp(q);
            H.longest(q, v, inv, stamp(), who);
        } else if (o.k == "iter" || o.k == "piter") {
            // an iteration may have to wait for the writer to come back
            std::string pre = k.substr(0, std::min<size_t>(k.size(), o.b));
            std::vector<std::pair<std::string, std::string>> out;
            int rcv = db.iterate(o.k == "piter" ? &pre : nullptr, out, 100000);
            uint64_t res = stamp();
            if (rcv == 0)
                H.iterated(o.k == "piter" ? &pre : nullptr, out, inv, res, who);
        } else if (o.k == "reopen") {
            db.close();
            op();
        } else if (o.k == "nap")
            sleep_ns(50000000);
    }
    db.close();
    readers--;
}
static void run_crash(const Plan& p)
{
    CrashRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    R.rc = R.c;
    R.rc.opts &= ~(int64_t)K->SYNC_ON_WRITE;
    Proc* wp = new_proc("w");
    inst_take(wp);
    spawn(wp, [&] { R.writer(wp); });
    for (size_t ci = 1; ci < p.clients.size(); ci++) {
        Proc* rp = new_proc(p.clients[ci].label);
        inst_take(rp);
        R.readers++;
        spawn(rp, [&, rp, ci] { R.reader(rp, ci); });
    }
    run_all();
    if (S->viol.empty() && !S->budget)
        R.H.order_check();
}
extern const Scenario SC_CRASH;
const Scenario SC_CRASH = { "crash", gen_crash, run_crash };
}
