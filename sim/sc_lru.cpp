// C11: eviction of the least recently updated entries when a size or count
// limit is exceeded. The bucket of an entry is the number of successful adds
// before its last one, divided by the entries per bucket; the header stores it
// modulo 65535. Synchronous writers (one process, reopened between operations)
// and asynchronous writers (updates arrive while the eviction is running).
#include "hist.h"
#include <algorithm>
namespace sim {
static const int64_t BIG = 0xFFFFFFFFFFFFLL, MODB = 0xFFFF;

static void gen_lru(Plan& p, Rng& r, const std::string& prop, int tier)
{
    cfg_gen(p, r, false, true);
    static const int bk[] = { 8, 8, 8, 9, 16, 40 };
    p.cfg["bucket"] = bk[r.below(6)];
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    bool as = r.chance(2, 5);
    p.cfg["async"] = as;
    int nk = (int)r.range(4, r.chance(1, 3) ? 300 : 60);
    if (as)
        nk = (int)r.range(14, 80);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(3);
    int nops = (int)r.range(20, tier ? 500 : 250);
    int w_put = 60, w_rem = (int)r.below(25), w_rc = as ? 4 : 6, w_reopen = as ? 0 : 3, w_all = r.chance(1, 4) ? 1 : 0, w_add = as ? 0 : 30, w_jump = !as && r.chance(1, 3) ? 2 : 0, w_nap = as ? 4 : 0;
    int hot = r.chance(1, 2) ? (int)r.range(1, nk) : nk; // overwrites of a few keys make the others old
    if (as) {
        p.cfg["qsize"] = 2 + r.below(60);
        p.cfg["opts"] &= ~(int64_t)K->PREFIX_CACHE;
    }
    Client c;
    c.label = as ? "c0" : "w";
    // half of the runs start from a filled database
    int fill = r.chance(2, 3) ? nk : 0;
    for (int i = 0; i < fill; i++) {
        Op o;
        o.k = "put";
        o.a = i;
        o.b = i;
        o.c = pick_len(r, (int)p.cfg["vstyle"], 8);
        c.ops.push_back(o);
    }
    for (int i = 0; i < nops; i++) {
        Op o;
        int x = (int)r.below(w_put + w_add + w_rem + w_rc + w_reopen + w_all + w_jump + w_nap);
        o.a = r.chance(1, 4) ? r.below(nk) : r.below(hot);
        o.b = 1000 + i;
        o.c = std::min<int64_t>(pick_len(r, (int)p.cfg["vstyle"], 8), 3000);
        if ((x -= w_put) < 0) o.k = "put";
        else if ((x -= w_add) < 0) o.k = "add";
        else if ((x -= w_rem) < 0) o.k = "rem";
        else if ((x -= w_rc) < 0) {
            o.k = "rc";
            o.a = r.below(6);        // which limit
            o.b = r.range(5, 130);   // percent of the present count
            o.c = as ? 0 : r.below(3); // defragmentation as well
        } else if ((x -= w_reopen) < 0) o.k = "reopen";
        else if ((x -= w_all) < 0) o.k = "all";
        else if ((x -= w_jump) < 0) { o.k = "jump"; o.a = r.below(8); o.b = r.below(3); }
        else { o.k = "nap"; o.a = r.below(30); }
        c.ops.push_back(o);
        if (as && o.k == "rc" && r.chance(1, 6)) { // cleared and filled again while the eviction is running
            Op x;
            x.k = "all";
            c.ops.push_back(x);
            for (int n = (int)r.range(3, 40), j = 0; j < n; j++) {
                Op y;
                y.k = "put";
                y.a = r.below(nk);
                y.b = 100000 + i * 100 + j;
                y.c = 8 + r.below(20);
                c.ops.push_back(y);
            }
        }
    }
    if (as) {
        Client w;
        w.label = "w";
        p.clients.push_back(w);
    }
    p.clients.push_back(c);
    p.number();
    if (as)
        gen_strategy(p, r, 200 * nops);
    else
        p.strat.kind = S_SEQ;
}
struct Ent { std::string v; int64_t n; }; // n: number of successful adds before this one
struct LruRun {
    const Plan& p;
    Keys ks;
    Cfg c;
    int64_t epb;
    std::map<std::string, Ent> m;
    int64_t num = 0;
    LruRun(const Plan& pl) : p(pl) {}
    int64_t bucket(int64_t n) const { return n / epb; }
    bool lapped(const Ent& e) const { return bucket(num) - bucket(e.n) >= MODB - 1; } // its stored bucket is ambiguous
    void survey(Db& db, const char* when, bool may_evict, bool exact_count);
    void squeeze(Db& db);
    void sync();
    void async();
};
static void lru_limits(const Op& o, int64_t count, int64_t& sz, int64_t& cnt)
{
    sz = cnt = BIG;
    if (o.a <= 3)
        cnt = count * o.b / 100;
    if (o.a == 3 || o.a == 4)
        sz = o.b < 65 ? 1000 : 64 << 20; // far below / above what the entries take
}
// compares the database with the model; removes what was evicted from the model
void LruRun::survey(Db& db, const char* when, bool may_evict, bool exact_count)
{
    int64_t newest_out = -1, oldest_in = INT64_MAX;
    std::string ko, ki;
    for (size_t i = 0; i < ks.size(); i++) {
        const std::string& k = ks[i];
        auto it = m.find(k);
        Val v = db.find(k);
        for (int t = 0; t < 100 && v.rc == K->TRY_AGAIN; t++)
            v = db.find(k);
        if (it == m.end()) {
            if (v.rc != K->NOT_EXIST)
                violation("absent-key-found", std::string(when) + ": key " + show(k) + " is absent but find returned rc " + rcs(v.rc) + " " + show(v.v));
            continue;
        }
        Ent& e = it->second;
        if (v.rc == K->NOT_EXIST) {
            if (!may_evict)
                violation("entry-lost", std::string(when) + ": key " + show(k) + " (update " + std::to_string(e.n) + " of " + std::to_string(num) + ") is gone");
            if (bucket(e.n) == bucket(num))
                violation("newest-evicted", std::string(when) + ": key " + show(k) + " (update " + std::to_string(e.n) + " of " + std::to_string(num) + ", " + std::to_string(epb) + " per bucket) was evicted although its bucket is the current one");
            if (!lapped(e) && e.n > newest_out) {
                newest_out = e.n;
                ko = k;
            }
            probe("evicted");
            m.erase(it);
            continue;
        }
        if (v.rc != K->SUCCESS)
            violation("lookup-error", std::string(when) + ": find of " + show(k) + " returned " + rcs(v.rc));
        if (v.v != e.v)
            violation("wrong-value", std::string(when) + ": key " + show(k) + " has " + show(v.v) + " expected " + show(e.v));
        if ((int64_t)v.bucket != bucket(e.n) % MODB)
            violation("wrong-bucket", std::string(when) + ": key " + show(k) + " (update " + std::to_string(e.n) + ") is in bucket " + std::to_string(v.bucket) + " expected " + std::to_string(bucket(e.n) % MODB));
        if (!lapped(e) && e.n < oldest_in) {
            oldest_in = e.n;
            ki = k;
        }
    }
    if (newest_out >= 0 && oldest_in < INT64_MAX && bucket(newest_out) > bucket(oldest_in))
        violation("evicted-out-of-order", std::string(when) + ": key " + show(ko) + " (update " + std::to_string(newest_out) + ", bucket " + std::to_string(bucket(newest_out)) + ") was evicted but the older key " + show(ki) + " (update " + std::to_string(oldest_in) + ", bucket " + std::to_string(bucket(oldest_in)) + ") was kept; now at update " + std::to_string(num));
    int64_t cnt = db.count();
    if (exact_count && cnt != (int64_t)m.size())
        violation("wrong-count", std::string(when) + ": count " + std::to_string(cnt) + " expected " + std::to_string(m.size()));
}
// repeated collection brings the count down to the limit's order of magnitude
void LruRun::squeeze(Db& db)
{
    int64_t limit = std::max<int64_t>(1, (int64_t)m.size() / 8);
    int64_t bound = std::max(2 * limit, 2 * epb);
    for (auto& e : m)
        if (lapped(e.second))
            return;
    for (int i = 0; i < 40 && (int64_t)m.size() > bound; i++) {
        // updates go on: a collection when the current bucket is still empty may do nothing
        std::string k = m.begin()->first, v = make_val(7, 100000 + i, 16);
        int rc = db.add(k, v, true);
        if (rc != K->SUCCESS)
            violation("add-failed", "overwrite of key " + show(k) + " returned " + rcs(rc));
        m[k] = { v, num++ };
        rc = db.rc(0, 0, BIG, limit);
        if (rc != K->SUCCESS)
            violation("rc-failed", "collection with a count limit returned " + rcs(rc));
        survey(db, "while evicting down to a limit", true, true);
    }
    if ((int64_t)m.size() > bound)
        violation("limit-not-reached", "after 40 collections with a limit of " + std::to_string(limit) + " entries there are still " + std::to_string(m.size()));
    probe("squeezed");
}
void LruRun::sync()
{
    Proc* cur = new_proc("w");
    inst_take(cur);
    spawn(cur, [this, cur] {
        Db db;
        bool jumped = false, ran = false;
        if (!db.open(cur, c, K->WRITER, 1))
            violation("open-failed", "writer open failed with status " + rcs(db.st));
        for (auto& o : p.clients[0].ops) {
            OpScope os(o);
            const std::string& k = ks[o.a];
            if (o.k == "put" || o.k == "add") {
                std::string v = make_val(o.a, o.b, (int)o.c);
                int rc = db.add(k, v, o.k == "put", 0);
                if (o.k == "add" && m.count(k)) {
                    if (rc != K->IN_DICT)
                        violation("add-existing", "add of existing key " + show(k) + " returned " + rcs(rc));
                } else {
                    if (rc != K->SUCCESS)
                        violation("add-failed", "add of key " + show(k) + " returned " + rcs(rc));
                    m[k] = { v, num };
                    num++;
                }
            } else if (o.k == "rem") {
                int rc = db.rem(k);
                if (rc != (m.count(k) ? K->SUCCESS : K->NOT_EXIST))
                    violation("remove-failed", "remove of " + show(k) + " returned " + rcs(rc));
                m.erase(k);
            } else if (o.k == "all") {
                int rc = db.remove_all();
                if (rc != K->SUCCESS)
                    violation("removeall-failed", "RemoveAll returned " + rcs(rc));
                m.clear();
                num = 0;
                jumped = ran = false;
            } else if (o.k == "rc") {
                int64_t sz, cnt;
                lru_limits(o, (int64_t)m.size(), sz, cnt);
                static const int64_t mins[] = { 0, 1, 4096 };
                int rc = db.rc(mins[o.c], mins[o.c], sz, cnt);
                if (rc != K->SUCCESS)
                    violation("rc-failed", "collection returned " + rcs(rc));
                bool may = (int64_t)m.size() > cnt || sz < (1 << 20);
                survey(db, may ? "after a collection above a limit" : "after a collection within the limits", may, true);
                ran |= may;
                probe(may ? "lru_ran" : "lru_not_needed");
            } else if (o.k == "reopen") {
                if (db.close() != K->SUCCESS)
                    violation("close-failed", "close failed");
                if (!db.open(cur, c, K->WRITER, 1))
                    violation("reopen-failed", "reopen failed with status " + rcs(db.st));
                survey(db, "after reopen", false, true);
            } else if (o.k == "jump" && !jumped) {
                // as if one of the keys had been overwritten very often since
                int64_t lap = o.b + 1;
                int64_t to = (lap * MODB - 1 - o.a % 4) * epb + o.a;
                int64_t ev = lap == 1 ? -1 : (bucket(to) + 1) % MODB;
                if (to <= num || (ran && lap > 1)) // the eviction index may have moved: keep to the first lap
                    continue;
                InLib l;
                if (!db.a->set_updates(db.h, to, ev))
                    continue;
                num = to;
                jumped = true;
                probe("lap");
            }
        }
        survey(db, "at the end", false, true);
        squeeze(db);
        db.close();
        if (!db.open(cur, c, K->WRITER, 1))
            violation("reopen-failed", "reopen failed with status " + rcs(db.st));
        survey(db, "after the last reopen", false, true);
        db.close();
    });
    run_all();
}
void LruRun::async()
{
    Proc* wp = new_proc("w");
    inst_take(wp);
    Proc* cp = new_proc("c0");
    inst_take(cp);
    bool up = false, stop = false;
    spawn(wp, [&] {
        Db db;
        if (!db.open(wp, c, K->WRITER | K->ASYNC, 1))
            violation("open-failed", "writer open failed with status " + rcs(db.st));
        up = true;
        block_on([&] { return stop; }, 0, "writer waits");
        db.close();
    });
    spawn(cp, [&] {
        block_on([&] { return up; }, 0, "client waits for the writer");
        Db db;
        Cfg rc = c;
        rc.opts &= ~(int64_t)K->SYNC_ON_WRITE;
        if (!db.open(cp, rc, K->READER, 2))
            violation("reader-open-failed", "open failed with status " + rcs(db.st));
        bool may = false;
        int64_t hi = 0; // upper bound of the entry count
        auto send = [&](const std::function<int()>& f, const char* what) {
            for (int t = 0;; t++) {
                int rc = f();
                if (rc == K->SUCCESS)
                    return;
                if (rc != K->TRY_AGAIN || t > 5000)
                    violation("enqueue-error", std::string(what) + " returned " + rcs(rc));
                sleep_ns(2000000);
            }
        };
        auto drain = [&] {
            uint64_t t0 = S->now;
            while (db.busy()) {
                if (S->now - t0 > 60000000000ULL)
                    violation("queue-stuck", "the asynchronous writer has not processed the queue after 60 s");
                sleep_ns(20000000);
            }
        };
        for (auto& o : p.clients[1].ops) {
            OpScope os(o);
            const std::string& k = ks[o.a];
            if (o.k == "put") {
                std::string v = make_val(o.a, o.b, (int)o.c);
                send([&] { return db.add(k, v, true, 0); }, "add");
                if (!m.count(k))
                    hi++;
                m[k] = { v, num };
                num++;
            } else if (o.k == "rem") {
                send([&] { return db.rem(k); }, "remove");
                m.erase(k);
            } else if (o.k == "all") {
                send([&] { return db.remove_all(); }, "remove-all");
                m.clear();
                num = 0;
            } else if (o.k == "rc") {
                int64_t sz, cnt;
                lru_limits(o, (int64_t)m.size(), sz, cnt);
                may |= hi > cnt || sz < (1 << 20);
                db.rc(0, 0, sz, cnt);
                probe("rc_queued");
            } else if (o.k == "nap") {
                if (o.a < 4) {
                    drain();
                    survey(db, "after the queue was drained", may, true);
                    may = false;
                    hi = (int64_t)m.size();
                } else
                    sleep_ns(1000000ULL * o.a);
            }
        }
        drain();
        survey(db, "after the queue was drained", may, true);
        db.close();
        stop = true;
    });
    run_all();
}
static void run_lru(const Plan& p)
{
    LruRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    R.epb = p.g("bucket");
    if (p.g("async"))
        R.async();
    else
        R.sync();
}
extern const Scenario SC_LRU;
const Scenario SC_LRU = { "lru", gen_lru, run_lru };
}
