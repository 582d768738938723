// C01: a database behaves like a map across operations, collection, clean
// close / reopen, separate reader processes and configurations.
#include "hist.h"
#include <algorithm>
namespace sim {


void check_all(Db& db, const Map& m, const Keys& ks, const char* when, bool with_iter, int64_t slack)
{
    for (size_t i = 0; i < ks.size(); i++) {
        auto it = m.find(ks[i]);
        Val v = db.find(ks[i]);
        if (it == m.end()) {
            if (v.rc != K->NOT_EXIST)
                violation("absent-key-found", std::string(when) + ": key " + show(ks[i]) + " is absent but find returned rc " + rcs(v.rc) + " " + show(v.v));
        } else if (v.rc != K->SUCCESS)
            violation("key-lost", std::string(when) + ": key " + show(ks[i]) + " not found, rc " + rcs(v.rc));
        else if (v.v != it->second)
            violation("wrong-value", std::string(when) + ": key " + show(ks[i]) + " has " + show(v.v) + " expected " + show(it->second));
    }
    int64_t c = db.count();
    if (slack >= 0 && (c > (int64_t)m.size() + slack || c < (int64_t)m.size() - slack))
        violation("wrong-count", std::string(when) + ": count " + std::to_string(c) + " expected " + std::to_string(m.size()) + (slack ? " +-" + std::to_string(slack) : std::string()));
    if (with_iter) {
        std::vector<std::pair<std::string, std::string>> out;
        int rc = db.iterate(nullptr, out, m.size() * 2 + 100);
        if (rc != 0)
            violation("iterate-failed", std::string(when) + ": iteration failed");
        Map seen;
        for (auto& kv : out) {
            if (!seen.insert(kv).second)
                violation("iterate-duplicate", std::string(when) + ": key " + show(kv.first) + " returned twice");
            auto it = m.find(kv.first);
            if (it == m.end())
                violation("iterate-phantom", std::string(when) + ": iteration returned absent key " + show(kv.first));
            else if (it->second != kv.second)
                violation("iterate-wrong-value", std::string(when) + ": key " + show(kv.first) + " iterated with " + show(kv.second) + " expected " + show(it->second));
        }
        if (seen.size() != m.size())
            violation("iterate-missing", std::string(when) + ": iteration returned " + std::to_string(seen.size()) + " keys of " + std::to_string(m.size()));
    }
}
void check_lp(Db& db, const Map& m, const std::string& q, const char* when)
{
    Val v = db.lp(q);
    std::string best;
    bool have = false;
    for (size_t l = 1; l <= q.size(); l++)
        if (m.count(q.substr(0, l))) {
            best = q.substr(0, l);
            have = true;
        }
    if (!have) {
        if (v.rc != K->NOT_EXIST)
            violation("prefix-phantom", std::string(when) + ": no stored prefix of " + show(q) + " but rc " + rcs(v.rc) + " " + show(v.v));
    } else if (v.rc != K->SUCCESS)
        violation("prefix-missed", std::string(when) + ": longest prefix of " + show(q) + " is " + show(best) + " but rc " + rcs(v.rc));
    else if (v.match_len != (int)best.size())
        violation("prefix-wrong-length", std::string(when) + ": longest prefix of " + show(q) + " has length " + std::to_string(best.size()) + " but match_len is " + std::to_string(v.match_len));
    else if (v.v != m.at(best))
        violation("prefix-wrong-value", std::string(when) + ": longest prefix of " + show(q) + " gave " + show(v.v) + " expected " + show(m.at(best)));
}

static void check_lb(Db& db, const Map& m, const std::string& q)
{
    std::string bk;
    Val v = db.lb(q, bk);
    auto it = m.upper_bound(q); // std::string compares bytes as unsigned char
    if (it == m.begin()) {
        if (v.rc != K->NOT_EXIST)
            violation("bound-phantom", "lower bound: no key is <= " + show(q) + " but rc " + rcs(v.rc) + " " + show(bk));
        return;
    }
    --it;
    if (v.rc != K->SUCCESS)
        violation("bound-missed", "lower bound of " + show(q) + " is " + show(it->first) + " but rc " + rcs(v.rc));
    else if (v.v != it->second)
        violation("bound-wrong-value", "lower bound of " + show(q) + " is " + show(it->first) + " but the value is " + show(v.v) + ", key " + show(bk));
    else if (bk != it->first)
        violation("bound-wrong-key", "lower bound of " + show(q) + " is " + show(it->first) + " but the key returned is " + show(bk));
}
// a query near the stored keys
static std::string near_key(const std::string& k, uint64_t seed, int n)
{
    std::string q = k;
    Rng rr(hcomb(seed, 3));
    int cut = (int)rr.below(8);
    if (cut < 4 && q.size() > (size_t)cut)
        q.resize(q.size() - cut);
    if (rr.chance(1, 3)) {
        size_t i = q.size() - 1 - rr.below(std::min<size_t>(q.size(), 4));
        q[i] = (char)(q[i] + (rr.chance(1, 2) ? 1 : -1));
    }
    if (rr.chance(1, 3)) // any byte, anywhere
        q[rr.below(q.size())] = (char)rr.below(256);
    for (int i = 0; i < n && q.size() < 255; i++)
        q += (char)(rr.chance(1, 2) ? 'a' + rr.below(3) : k[rr.below(k.size())]);
    return q;
}

static void gen_map(Plan& p, Rng& r, const std::string& prop, int tier)
{
    bool c02 = prop == "C02", c24 = prop == "C24", c15 = prop == "C15";
    cfg_gen(p, r, !c02 && !c24, !c24);
    if (c15)
        p.cfg["opts"] |= K->PREFIX_CACHE;
    p.strat.kind = S_SEQ;
    int big = r.chance(1, 8);
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = big ? (int)r.range(50, 400) : (int)r.range(2, 40);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(5);
    p.cfg["memonly"] = r.chance(1, 8);
    if (p.cfg["memonly"]) {
        p.cfg["opts"] &= ~K->JEMALLOC;
        p.cfg["memcap_i"] = p.cfg["memcap_d"] = 512 << 20; // capacity limits are C12's subject
    }
    int nops = (int)r.range(5, big ? 400 : (tier ? 160 : 90));
    int w_add = 40, w_ow = (int)r.below(40), w_rem = (int)r.below(40), w_find = 15, w_lp = 10, w_rc = r.chance(1, 2) ? 4 : 0,
        w_reopen = p.cfg["memonly"] ? 0 : 5, w_all = r.chance(1, 3) ? 2 : 0, w_reader = 4, w_full = 2, w_pit = 2, w_lb = 0;
    if (c02) { w_lp = 60; w_pit = 30; w_find = 5; }
    if (c24) { w_lb = 90; w_lp = 0; w_pit = 0; w_find = 2; }
    bool jem = p.cfg["opts"] & K->JEMALLOC;
    if (jem) {
        w_rc = 0;
        if (p.cfg["vstyle"] == 4 && nk > 60)
            p.cfg["nk"] = nk = 60;
    }
    int restarts = 0;
    Client c;
    c.label = "w";
    for (int i = 0; i < nops; i++) {
        int tot = w_add + w_ow + w_rem + w_find + w_lp + w_rc + w_reopen + w_all + w_reader + w_full + w_pit + w_lb;
        int x = (int)r.below(tot);
        Op o;
        o.a = r.below(nk);
        if ((x -= w_add) < 0) { o.k = "add"; o.b = i + 1; o.c = pick_len(r, (int)p.cfg["vstyle"], 1); o.d = r.below(2); }
        else if ((x -= w_ow) < 0) { o.k = "put"; o.b = i + 1; o.c = pick_len(r, (int)p.cfg["vstyle"], 1); o.d = r.below(2); }
        else if ((x -= w_rem) < 0) o.k = "rem";
        else if ((x -= w_find) < 0) { o.k = "find"; o.d = r.below(4); }
        else if ((x -= w_lp) < 0) { o.k = "lp"; o.b = r.below(4); o.c = r.below(1 << 20); }
        else if ((x -= w_rc) < 0) { o.k = "rc"; o.b = r.below(3); }
        else if ((x -= w_reopen) < 0) { o.k = "reopen"; o.b = r.below(3); restarts++; }
        else if ((x -= w_all) < 0) o.k = "all";
        else if ((x -= w_reader) < 0) { o.k = "reader"; o.b = r.below(3); }
        else if ((x -= w_full) < 0) o.k = "full";
        else if ((x -= w_lb) < 0) { o.k = "lb"; o.b = r.below(3); o.c = r.below(1 << 20); }
        else { o.k = "piter"; o.b = r.below(8); }
        c.ops.push_back(o);
    }
    p.cfg["restarts"] = restarts;
    p.clients.push_back(c);
}

static void run_map(const Plan& p)
{
    Keys ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    Cfg c = cfg_of(p);
    bool memonly = p.g("memonly");
    if (memonly)
        c.opts |= K->MEMORY_ONLY;
    bool jem = c.opts & K->JEMALLOC;
    Proc* wp = new_proc("w");
    inst_take(wp);
    spawn(wp, [&] {
        Map m;
        Db db;
        Cfg rcfg = c;
        rcfg.opts &= ~(int64_t)K->JEMALLOC;
        if (!db.open(wp, c, K->WRITER, 1))
            violation("open-failed", "writer open failed with status " + rcs(db.st));
        Proc* cur = wp;
        Db rd;
        Proc* rp = nullptr;
        for (auto& o : p.clients[0].ops) {
            OpScope os(o);
            const std::string& k = ks[o.a];
            if (o.k == "add" || o.k == "put") {
                std::string v = make_val(o.a, o.b, (int)o.c);
                int rc = db.add(k, v, o.k == "put", (int)o.d);
                bool ex = m.count(k);
                if (o.k == "add" && ex) {
                    if (rc != K->IN_DICT)
                        violation("add-existing", "add of existing key " + show(k) + " returned " + rcs(rc));
                } else {
                    if (rc != K->SUCCESS)
                        violation("add-failed", "add of key " + show(k) + " (" + std::to_string(v.size()) + " bytes) returned " + rcs(rc));
                    m[k] = v;
                }
            } else if (o.k == "rem") {
                int rc = db.rem(k);
                bool ex = m.count(k);
                if (ex && rc != K->SUCCESS)
                    violation("remove-failed", "remove of existing key " + show(k) + " returned " + rcs(rc));
                if (!ex && rc != K->NOT_EXIST)
                    violation("remove-absent", "remove of absent key " + show(k) + " returned " + rcs(rc));
                m.erase(k);
            } else if (o.k == "find") {
                Db& d = (o.d == 3 && rd.h) ? rd : db;
                Val v = d.find(k);
                auto it = m.find(k);
                if (it == m.end() ? v.rc != K->NOT_EXIST : (v.rc != K->SUCCESS || v.v != it->second))
                    violation(it == m.end() ? "absent-key-found" : v.rc ? "key-lost" : "wrong-value", "find of " + show(k) + " returned rc " + rcs(v.rc) + " " + show(v.v) + (it == m.end() ? "" : " expected " + show(it->second)));
                if (o.d == 2) {
                    int err = 0;
                    int in = db.in_db(k, &err);
                    if (in != (it != m.end()))
                        violation("indb-wrong", "InDB of " + show(k) + " returned " + std::to_string(in));
                }
            } else if (o.k == "lp") {
                std::string q = k;
                Rng rr(hcomb(o.c, 3));
                for (int i = 0; i < o.b && q.size() < 255; i++)
                    q += (char)(rr.chance(1, 2) ? 'a' + rr.below(3) : k[rr.below(k.size())]);
                check_lp((o.c & 1) && rd.h ? rd : db, m, q, "longest prefix");
            } else if (o.k == "lb") {
                check_lb(db, m, near_key(k, o.c, (int)o.b));
            } else if (o.k == "rc") {
                if (!jem) {
                    static const int64_t mins[] = { 0, 1, 4096 };
                    int rc = db.rc(mins[o.b], mins[o.b]);
                    (void)rc;
                    probe("rc_ran");
                }
            } else if (o.k == "all") {
                int rc = db.remove_all();
                if (rc != K->SUCCESS)
                    violation("removeall-failed", "RemoveAll returned " + rcs(rc));
                m.clear();
            } else if (o.k == "reopen") {
                if (memonly)
                    continue;
                if (rd.h && o.b != 0) {
                    rd.close();
                }
                int rc = db.close();
                if (rc != K->SUCCESS)
                    violation("close-failed", "close returned " + rcs(rc));
                if (o.b == 2 && inst_left() > 2) {
                    exit_proc(cur);
                    cur = new_proc("w");
                    inst_take(cur);
                    self->proc = cur;
                    probe("reopen_new_process");
                } else
                    probe("reopen_same_process");
                if (!db.open(cur, c, K->WRITER, 1))
                    violation("reopen-failed", "writer reopen failed with status " + rcs(db.st));
                check_all(db, m, ks, "after reopen");
            } else if (o.k == "reader") {
                if (memonly) {
                    if (rd.h)
                        rd.close();
                    Cfg x = c;
                    x.opts = K->MEMORY_ONLY;
                    if (!rd.open(cur, x, K->READER, 2))
                        violation("reader-open-failed", "reader open failed with status " + rcs(rd.st));
                    check_all(rd, m, ks, "in-memory reader");
                    continue;
                }
                if (rd.h) {
                    Proc* save = self->proc;
                    self->proc = rp;
                    check_all(rd, m, ks, "old reader");
                    self->proc = save;
                } else {
                    if (!rp) {
                        rp = new_proc("r");
                        inst_take(rp);
                    }
                    Proc* save = self->proc;
                    self->proc = rp;
                    Cfg x = rcfg;
                    if (o.b == 1)
                        x.memcap_d = x.memcap_i = 1 << 20;
                    if (!rd.open(rp, x, K->READER, 2))
                        violation("reader-open-failed", "reader open failed with status " + rcs(rd.st));
                    check_all(rd, m, ks, "new reader");
                    self->proc = save;
                }
            } else if (o.k == "full") {
                check_all(db, m, ks, "writer");
            } else if (o.k == "piter") {
                std::string pre = k.substr(0, std::min<size_t>(k.size(), o.b));
                if (pre.empty())
                    continue;
                std::vector<std::pair<std::string, std::string>> out;
                db.iterate(&pre, out, m.size() * 2 + 100);
                Map seen;
                for (auto& kv : out) {
                    if (kv.first.compare(0, pre.size(), pre) != 0)
                        violation("prefix-iter-foreign", "prefix iteration over " + show(pre) + " returned " + show(kv.first));
                    auto it = m.find(kv.first);
                    if (it == m.end() || it->second != kv.second)
                        violation("prefix-iter-wrong", "prefix iteration over " + show(pre) + " returned wrong entry " + show(kv.first));
                    if (!seen.insert(kv).second)
                        violation("prefix-iter-duplicate", "prefix iteration over " + show(pre) + " returned " + show(kv.first) + " twice");
                }
                size_t want = 0;
                for (auto& kv : m)
                    if (kv.first.compare(0, pre.size(), pre) == 0)
                        want++;
                if (want != seen.size())
                    violation("prefix-iter-missing", "prefix iteration over " + show(pre) + " returned " + std::to_string(seen.size()) + " of " + std::to_string(want));
            }
        }
        check_all(db, m, ks, "end");
        if (rd.h) {
            Proc* save = self->proc;
            if (rp) self->proc = rp;
            check_all(rd, m, ks, "reader at end");
            rd.close();
            self->proc = save;
        }
        db.close();
    });
    run_all();
}
extern const Scenario SC_MAP;
const Scenario SC_MAP = { "map", gen_map, run_map };
}
