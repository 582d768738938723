// C14: allocator (jemalloc) mode. The writer restarts keeping the database while
// readers go on: the startup rebuild moves every buffer and releases the old
// blocks. After a kill the database may be found cleared, but never changed.
#include "hist.h"
#include <algorithm>
namespace sim {
static void gen_jem(Plan& p, Rng& r, const std::string& prop, int tier)
{
    cfg_gen(p, r, false, true);
    p.cfg["opts"] |= K->JEMALLOC;
    p.cfg["bs_i"] = 1 << 20;
    p.cfg["bs_d"] = (1 << 20) * (r.chance(1, 4) ? 2 : 1);
    p.cfg["max_i"] = p.cfg["max_d"] = 64;
    p.cfg["memcap_i"] = p.cfg["bs_i"] * 64;
    p.cfg["memcap_d"] = p.cfg["bs_d"] * 64;
    p.cfg["keep"] = 1;
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = r.chance(1, 4) ? (int)r.range(20, 80) : (int)r.range(1, 14);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(5);
    int vs = (int)p.cfg["vstyle"];
    int pre = (int)r.range(0, nk * 2), nw = (int)r.range(2, tier ? 40 : 20);
    Client w;
    w.label = "w";
    int w_put = 50, w_rem = (int)r.range(5, 50), w_all = r.chance(1, 8) ? 3 : 0, w_find = 3, w_re = (int)r.range(4, 20), w_clear = r.chance(1, 6) ? 2 : 0, re = 0;
    for (int i = 0; i < pre + nw; i++) {
        Op o;
        o.a = r.below(nk);
        o.b = i + 1;
        o.c = pick_len(r, vs, 8);
        int x = (int)r.below(w_put + w_rem + w_all + w_find + w_re + w_clear);
        if (i == pre) {
            Op s;
            s.k = "go";
            w.ops.push_back(s);
        }
        if (i < pre) o.k = r.chance(3, 4) ? "put" : "rem";
        else if ((x -= w_put) < 0) o.k = r.chance(1, 3) ? "add" : "put";
        else if ((x -= w_rem) < 0) o.k = "rem";
        else if ((x -= w_all) < 0) o.k = "all";
        else if ((x -= w_find) < 0) o.k = "find";
        else if ((x -= w_clear) < 0) o.k = "fresh"; // opened without the option to keep the database
        else if (re++ < 6) { o.k = "reopen"; o.b = r.below(3); }
        else o.k = "find";
        w.ops.push_back(o);
    }
    p.clients.push_back(w);
    int nr = r.chance(3, 4) ? (int)r.range(1, 2) : 0;
    for (int j = 0; j < nr; j++) {
        Client c;
        c.label = "r" + std::to_string(j);
        int n = (int)r.range(2, 40);
        for (int i = 0; i < n; i++) {
            Op o;
            o.a = r.below(nk);
            int x = (int)r.below(60);
            if (x < 40) o.k = "find";
            else if (x < 50) { o.k = "lp"; o.b = r.below(4); o.c = r.below(1 << 20); }
            else if (x < 54) { o.k = r.chance(1, 2) ? "iter" : "piter"; o.b = 1 + r.below(6); }
            else if (x < 57) o.k = "reopen";
            else o.k = "nap";
            c.ops.push_back(o);
        }
        p.clients.push_back(c);
    }
    p.number();
    if (nr)
        gen_strategy(p, r, 300 * (nw + nr * 20));
    else
        p.strat.kind = S_SEQ;
    if (nr)
        p.cfg["opts"] &= ~(int64_t)K->PREFIX_CACHE; // see the known findings
    int nc = r.chance(1, 2) ? 0 : r.chance(1, 3) ? (int)r.range(2, 4) : 1;
    p.cfg["crashes"] = nc;
    p.cfg["delay"] = r.chance(1, 2) ? 0 : r.below(200);
    int at = pre;
    for (int i = 0; i < nc; i++) {
        CrashSpec cs;
        cs.armed = true;
        cs.proc = "w";
        if (i && r.chance(1, 2))
            cs.thr_op = -1; // from the moment of the previous kill: opening and rebuilding
        else {
            at = std::min(pre + nw, i ? at + (int)r.below(6) : (int)r.range(pre + 1, pre + nw));
            cs.thr_op = p.clients[0].ops[at].uid;
        }
        cs.nth = cs.thr_op >= 0 && r.chance(1, 2) ? r.below(50) : r.below(1ULL << r.range(1, 11));
        if (i == 0)
            p.crash = cs;
        else
            p.crash_more.push_back(cs);
    }
}

struct JemRun {
    const Plan& p;
    Keys ks;
    Cfg c, rc;
    Hist H;
    Map m;
    bool go = false, writer_up = false, finished = false;
    int readers = 0, kills = 0;
    int64_t slack = 0;      // each kill may leave the entry count off by one; a killed RemoveAll leaves it undefined
    bool busy = false;      // an operation or an opening is in progress
    bool may_clear = false; // the kill interrupted something: the next opening may clear the database
    bool clearing = false, partial = false; // killed while it was being cleared on request: some keys may remain
    bool tent_ik = false;
    std::set<std::string> tent; // keys with a tentative removal by the opening
    size_t next = 0;        // next writer operation
    bool crash_phase = false; // a kill happened, not yet recovered
    // the operation in progress
    std::string ik;         // its key
    int what = 0;           // 0 none, 1 add/put, 2 remove, 3 remove all
    bool had = false;
    std::string oldv, newv;
    Map before;
    uint64_t down_since = 0; // first kill of this outage
    int outage = 0;          // kills in it
    JemRun(const Plan& pl) : p(pl) {}
    void writer(Proc* wp);
    void resolve(Db& db, bool clear);
    void opening(bool clear);
    bool open(Db& db, Proc* cur, const Cfg& cfg, bool clear);
    void reader(Proc* rp, size_t ci);
};
// the database is about to be opened; it may be cleared by that
void JemRun::opening(bool clear)
{
    if (!H.open_inv)
        H.open_inv = stamp();
    if (!clear)
        return;
    if (what == 1 && !tent_ik) {
        H.begin(ik, stamp(), false, "");
        tent_ik = true;
    }
    for (auto& kv : m)
        if (!tent.count(kv.first) && !(what && what != 3 && kv.first == ik) && !(what == 3 && before.count(kv.first))) {
            H.begin(kv.first, stamp(), false, "");
            tent.insert(kv.first);
        }
}
// what the interrupted operation and the opening have left
void JemRun::resolve(Db& db, bool clear)
{
    uint64_t res = stamp();
    bool empty = true;
    std::map<std::string, Val> got;
    for (auto& k : ks.k) {
        Val v = got[k] = db.find(k);
        if (v.rc != K->SUCCESS && v.rc != K->NOT_EXIST)
            violation("recovered-error", "after the restart find of " + show(k) + " returned rc " + rcs(v.rc));
        empty &= v.rc != K->SUCCESS;
    }
    if (tent_ik)
        H.cancel(ik);
    tent_ik = false;
    bool cleared = clear && empty;
    if (cleared)
        probe("found_cleared");
    auto settle = [&](const std::string& k, bool had_old, const std::string& ov, bool has_new, const std::string& nv) {
        Val v = got[k];
        bool pr = v.rc == K->SUCCESS;
        if (cleared && has_new) {
            // readers may have seen the interrupted update before
            H.end(k, res);
            H.begin(k, down_since, false, "");
            H.end(k, res);
            m.erase(k);
        } else if (pr == has_new && (!pr || v.v == nv)) {
            H.end(k, res);
            if (pr) m[k] = v.v; else m.erase(k);
            probe("inflight_kept");
        } else if (pr == had_old && (!pr || v.v == ov)) {
            H.cancel(k);
            if (pr) m[k] = v.v; else m.erase(k);
            probe("inflight_dropped");
        } else
            violation("recovered-garbage", "after the restart " + show(k) + " is " + (pr ? show(v.v) : std::string("absent")) + ", neither its value before nor after the interrupted operation (" + (had_old ? show(ov) : std::string("absent")) + " -> " + (has_new ? show(nv) : std::string("absent")) + ")");
    };
    if (what == 1)
        settle(ik, had, oldv, true, newv);
    else if (what == 2)
        settle(ik, true, oldv, false, "");
    else if (what == 3)
        for (auto& kv : before)
            settle(kv.first, true, kv.second, false, "");
    what = 0;
    for (auto& k : tent) {
        if (cleared) {
            H.end(k, res);
            m.erase(k);
        } else if (partial && got[k].rc != K->SUCCESS) {
            H.end(k, res);
            m.erase(k);
            probe("clearing_interrupted");
        } else
            H.cancel(k);
    }
    tent.clear();
    outage = 0;
    partial = false;
    if (cleared)
        slack = 0;
    H.wops.push_back({ H.open_inv ? H.open_inv : down_since, res });
    H.open_inv = 0;
}
bool JemRun::open(Db& db, Proc* cur, const Cfg& cfg, bool clear)
{
    opening(clear);
    busy = true;
    clearing = !cfg.keep;
    bool ok = db.open(cur, cfg, K->WRITER, 1);
    busy = clearing = false;
    return ok;
}
void JemRun::writer(Proc* wp)
{
    wp->on_death = [this] {
        kills++;
        slack = what == 3 || slack < 0 ? -1 : slack + 1;
        crash_phase = true;
        may_clear |= busy;
        partial |= clearing;
        clearing = false;
        probe(busy ? "killed_busy" : "killed_idle");
        if (!outage++)
            down_since = stamp();
        if (!H.open_inv)
            H.open_inv = down_since;
        Proc* np = new_proc("w");
        inst_take(np);
        spawn(np, [this, np] {
            if (p.g("delay"))
                sleep_ns((uint64_t)p.g("delay") * 1000000);
            writer(np);
        });
    };
    Db db;
    Proc* cur = wp;
    if (!open(db, cur, c, may_clear))
        violation("open-failed", "writer open failed with status " + rcs(db.st) + (kills ? " after a kill" : ""));
    if (!crash_phase)
        H.open_inv = 0;
    if (crash_phase) {
        resolve(db, may_clear);
        crash_phase = may_clear = false;
        if (!go) go = true;
        check_all(db, m, ks, "after the restart", true, slack);
        probe("recovered");
    }
    while (next < p.clients[0].ops.size()) {
        const Op& o = p.clients[0].ops[next++];
        OpScope os(o);
        struct Busy {
            bool& b;
            Busy(bool& x) : b(x) { b = true; }
            ~Busy() { b = false; }
        } bs(busy);
        const std::string& k = ks[o.a];
        if (o.k == "go") {
            go = true;
        } else if (o.k == "add" || o.k == "put") {
            std::string v = make_val(o.a, o.b, (int)o.c);
            had = m.count(k);
            bool act = o.k == "put" || !had;
            uint64_t inv = stamp();
            H.open_inv = inv;
            if (act) {
                oldv = had ? m[k] : "";
                newv = v;
                ik = k;
                what = 1;
                H.begin(k, inv, true, v);
            }
            int rcv = db.add(k, v, o.k == "put");
            what = 0;
            uint64_t res = stamp();
            if (act) {
                if (rcv != K->SUCCESS)
                    violation("add-failed", "add of " + show(k) + " returned " + rcs(rcv));
                H.end(k, res);
                m[k] = v;
            } else if (rcv != K->IN_DICT)
                violation("add-existing", "add of existing " + show(k) + " returned " + rcs(rcv));
            H.wops.push_back({ inv, res });
            H.open_inv = 0;
        } else if (o.k == "rem") {
            had = m.count(k);
            uint64_t inv = stamp();
            H.open_inv = inv;
            if (had) {
                oldv = m[k];
                ik = k;
                what = 2;
                H.begin(k, inv, false, "");
            }
            int rcv = db.rem(k);
            what = 0;
            uint64_t res = stamp();
            if (had) {
                if (rcv != K->SUCCESS)
                    violation("remove-failed", "remove of existing " + show(k) + " returned " + rcs(rcv));
                H.end(k, res);
                m.erase(k);
            } else if (rcv != K->NOT_EXIST)
                violation("remove-absent", "remove of absent " + show(k) + " returned " + rcs(rcv));
            H.wops.push_back({ inv, res });
            H.open_inv = 0;
        } else if (o.k == "all") {
            uint64_t inv = stamp();
            H.open_inv = inv;
            before = m;
            for (auto& kv : m)
                H.begin(kv.first, inv, false, "");
            what = 3;
            int rcv = db.remove_all();
            what = 0;
            if (rcv != K->SUCCESS)
                violation("removeall-failed", "RemoveAll returned " + rcs(rcv));
            uint64_t res = stamp();
            for (auto& kv : m)
                H.end(kv.first, res);
            m.clear();
            slack = 0;
            H.wops.push_back({ inv, res });
            H.open_inv = 0;
        } else if (o.k == "find") {
            uint64_t inv = stamp();
            Val v = db.find(k);
            H.lookup(k, v, inv, stamp(), "writer");
        } else if (o.k == "reopen" || o.k == "fresh") {
            bool fresh = o.k == "fresh";
            uint64_t inv = stamp();
            H.open_inv = inv;
            may_clear = false; // the close completes
            db.close();
            if (o.k == "reopen" && o.b == 2 && inst_left() > 5) {
                auto dead = cur->on_death;
                cur->on_death = nullptr;
                exit_proc(cur);
                cur = new_proc("w");
                inst_take(cur);
                cur->on_death = dead;
                self->proc = cur;
                probe("reopen_new_process");
            }
            Cfg x = c;
            x.keep = !fresh;
            may_clear = fresh;
            if (!open(db, cur, x, fresh))
                violation("open-failed", "writer reopen failed with status " + rcs(db.st));
            resolve(db, fresh);
            may_clear = false;
            if (fresh && !m.empty())
                violation("fresh-not-empty", "a database opened without keeping it is not empty");
            check_all(db, m, ks, fresh ? "after opening it anew" : "after a warm restart", true, slack);
            probe(fresh ? "cold_restart" : "warm_restart");
        }
    }
    busy = false;
    go = true;
    finished = true;
    block_on([&] { return readers == 0; }, 0, "writer waits for readers");
    check_all(db, m, ks, "writer at end", true, slack);
    H.open_inv = stamp();
    busy = true;
    db.close();
    if (!open(db, cur, c, false))
        violation("open-failed", "writer reopen failed with status " + rcs(db.st));
    H.open_inv = 0;
    check_all(db, m, ks, "after a clean restart at the end", true, slack);
    db.close();
    cur->on_death = nullptr;
}
void JemRun::reader(Proc* rp, size_t ci)
{
    block_on([&] { return go; }, 0, "reader waits");
    std::string who = "reader" + std::to_string(ci);
    Db db;
    auto op = [&] {
        if (!db.open(rp, rc, K->READER, 10 + (uint32_t)ci))
            violation("reader-open-failed", who + ": open failed with status " + rcs(db.st));
    };
    op();
    for (auto& o : p.clients[ci].ops) {
        OpScope os(o);
        const std::string& k = ks[o.a];
        uint64_t inv = stamp();
        if (crash_phase)
            probe("read_while_writer_dead");
        if (o.k == "find") {
            Val v = db.find(k);
            H.lookup(k, v, inv, stamp(), who);
        } else if (o.k == "lp") {
            std::string q = k;
            Rng rr(hcomb(o.c, 3));
            for (int i = 0; i < o.b && q.size() < 255; i++)
                q += (char)(rr.chance(1, 2) ? 'a' + rr.below(3) : k[rr.below(k.size())]);
            Val v = db.lp(q);
            H.longest(q, v, inv, stamp(), who);
        } else if (o.k == "iter" || o.k == "piter") {
            // an iteration may have to wait for the writer to come back
            std::string pre = k.substr(0, std::min<size_t>(k.size(), o.b));
            std::vector<std::pair<std::string, std::string>> out;
            int rcv = db.iterate(o.k == "piter" ? &pre : nullptr, out, 100000);
            uint64_t res = stamp();
            if (rcv == 0)
                H.iterated(o.k == "piter" ? &pre : nullptr, out, inv, res, who);
        } else if (o.k == "reopen") {
            db.close();
            op();
        } else if (o.k == "nap")
            sleep_ns(50000000);
    }
    db.close();
    readers--;
}
static void run_jem(const Plan& p)
{
    JemRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    R.rc = R.c;
    R.rc.opts &= ~(int64_t)(K->SYNC_ON_WRITE | K->JEMALLOC);
    Proc* wp = new_proc("w");
    inst_take(wp);
    spawn(wp, [&] { R.writer(wp); });
    for (size_t ci = 1; ci < p.clients.size(); ci++) {
        Proc* rp = new_proc(p.clients[ci].label);
        inst_take(rp);
        R.readers++;
        spawn(rp, [&, rp, ci] { R.reader(rp, ci); });
    }
    run_all();
    if (S->viol.empty() && !S->budget)
        R.H.order_check();
}
extern const Scenario SC_JEM;
const Scenario SC_JEM = { "jem", gen_jem, run_jem };
}
