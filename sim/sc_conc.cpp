// Concurrent readers (threads of the writer process and separate processes)
// against one synchronous writer.
#include "hist.h"
#include <algorithm>
namespace sim {
static void gen_conc(Plan& p, Rng& r, const std::string& prop, int tier)
{
    cfg_gen(p, r, true, false);
    p.cfg["bucket"] = 500;
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = r.chance(1, 5) ? (int)r.range(12, 40) : (int)r.range(1, 10);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(3) ? r.below(3) : r.below(5);
    int vs = (int)p.cfg["vstyle"];
    p.cfg["memonly"] = r.chance(1, 8);
    if (p.cfg["memonly"]) {
        p.cfg["opts"] &= ~K->JEMALLOC;
        p.cfg["memcap_i"] = p.cfg["memcap_d"] = 512 << 20;
    }
    bool jem = p.cfg["opts"] & K->JEMALLOC;
    // duel: few keys, many updates against many reads, so that a run is mostly races
    bool duel = r.chance(1, 2);
    if (duel && r.chance(1, 2))
        p.cfg["kstyle"] = r.chance(1, 2) ? 8 : 7;
    if (duel && r.chance(1, 2))
        p.cfg["nk"] = nk = (int)r.range(2, 8);
    int pre = (int)r.range(0, nk * 2);
    int nw = (int)r.range(3, tier ? 60 : 30);
    if (duel)
        nw = (int)r.range(60, tier ? 400 : 200);
    int fresh = 0; // next key to add in order, so that nodes grow a branch at a time
    bool cyc = r.chance(1, 2); // grow in order, then drop everything, and again
    Client w;
    w.label = "w";
    bool rc = !jem && (prop == "C09" ? true : r.chance(1, 3));
    bool all = r.chance(1, 6);
    int w_add = 30, w_put = (int)r.range(5, 50), w_rem = (int)r.range(5, 40), w_rc = rc ? (prop == "C09" ? 25 : 6) : 0, w_all = all ? 5 : 0, w_find = 4;
    for (int i = 0; i < pre + nw; i++) {
        Op o;
        o.a = r.below(nk);
        o.b = i + 1;
        o.c = pick_len(r, vs, 8);
        int x = (int)r.below(w_add + w_put + w_rem + w_rc + w_all + w_find);
        if (i == pre) {
            Op s;
            s.k = "go";
            w.ops.push_back(s);
        }
        if (i < pre) { o.k = r.chance(3, 4) ? "put" : "rem"; w.ops.push_back(o); continue; }
        if ((x -= w_add) < 0) o.k = "add";
        else if ((x -= w_put) < 0) o.k = "put";
        else if ((x -= w_rem) < 0) o.k = "rem";
        else if ((x -= w_rc) < 0) { o.k = "rc"; o.b = r.below(3); }
        else if ((x -= w_all) < 0) o.k = "all";
        else o.k = "find";
        if (duel && cyc && o.k[0] != 'f' && r.chance(2, 3)) {
            int ph = (int)(fresh++ % (2 * nk));
            o.a = ph % nk;
            o.k = ph < nk ? "add" : "rem";
        }
        w.ops.push_back(o);
    }
    p.clients.push_back(w);
    int nr = (int)r.range(1, 3);
    for (int j = 0; j < nr; j++) {
        Client c;
        c.label = p.cfg["memonly"] || r.chance(1, 2) ? "w" : "r" + std::to_string(j);
        int f = 40, l = 10, it = 3, cnt = 3, ro = r.chance(1, 4) ? 4 : 0;
        if (prop == "C06") { l = 60; f = 5; }
        if (prop == "C07") { it = 40; f = 5; l = 2; }
        int n = (int)r.range(2, prop == "C07" ? 6 : (tier ? 60 : 30));
        if (duel)
            n *= prop == "C07" ? 5 : 8;
        for (int i = 0; i < n; i++) {
            Op o;
            o.a = r.below(nk);
            int x = (int)r.below(f + l + it + cnt + ro);
            if ((x -= f) < 0) { o.k = r.chance(1, 8) ? "in" : "find"; }
            else if ((x -= l) < 0) { o.k = "lp"; o.b = r.below(4); o.c = r.below(1 << 20); }
            else if ((x -= it) < 0) { o.k = r.chance(1, 2) ? "iter" : "piter"; o.b = 1 + r.below(6); }
            else if ((x -= cnt) < 0) o.k = "count";
            else { o.k = "reopen"; }
            c.ops.push_back(o);
        }
        p.clients.push_back(c);
    }
    gen_strategy(p, r, 300 * (nw + nr * (duel ? 120 : 20)));
}
static void run_conc(const Plan& p)
{
    Keys ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    Cfg c = cfg_of(p);
    bool memonly = p.g("memonly");
    if (memonly)
        c.opts |= K->MEMORY_ONLY;
    Cfg rc = c;
    rc.opts &= ~(int64_t)(K->JEMALLOC | K->SYNC_ON_WRITE);
    bool jem = c.opts & K->JEMALLOC;
    Proc* wp = new_proc("w");
    inst_take(wp);
    Hist H;
    Map m;
    bool go = false;
    int up = 1;
    spawn(wp, [&] {
        Db db;
        if (!db.open(wp, c, K->WRITER, 1))
            violation("open-failed", "writer open failed with status " + rcs(db.st));
        bool pre = true;
        H.counts.push_back({ 0, 0, 0 });
        auto change = [&](uint64_t inv) { H.counts.push_back({ inv, UINT64_MAX, (int64_t)m.size() }); };
        auto changed = [&](uint64_t res) { H.counts.back().res = res; };
        for (auto& o : p.clients[0].ops) {
            OpScope os(o);
            const std::string& k = ks[o.a];
            if (o.k == "go") {
                pre = false;
                go = true;
            } else if (o.k == "add" || o.k == "put") {
                std::string v = make_val(o.a, o.b, (int)o.c);
                bool ex = m.count(k);
                bool act = o.k == "put" || !ex;
                uint64_t inv = stamp();
                H.open_inv = inv;
                if (act) {
                    H.begin(k, inv, true, v);
                    m[k] = v;
                    change(inv);
                }
                int rcv = db.add(k, v, o.k == "put");
                uint64_t res = stamp();
                if (act) {
                    if (rcv != K->SUCCESS)
                        violation("add-failed", "add of " + show(k) + " returned " + rcs(rcv));
                    H.end(k, res);
                    changed(res);
                } else if (rcv != K->IN_DICT)
                    violation("add-existing", "add of existing " + show(k) + " returned " + rcs(rcv));
                H.wops.push_back({ inv, res });
                H.open_inv = 0;
            } else if (o.k == "rem") {
                bool ex = m.count(k);
                uint64_t inv = stamp();
                H.open_inv = inv;
                if (ex) {
                    H.begin(k, inv, false, "");
                    m.erase(k);
                    change(inv);
                }
                int rcv = db.rem(k);
                uint64_t res = stamp();
                if (ex) {
                    if (rcv != K->SUCCESS)
                        violation("remove-failed", "remove of existing " + show(k) + " returned " + rcs(rcv));
                    H.end(k, res);
                    changed(res);
                } else if (rcv != K->NOT_EXIST)
                    violation("remove-absent", "remove of absent " + show(k) + " returned " + rcs(rcv));
                H.wops.push_back({ inv, res });
                H.open_inv = 0;
            } else if (o.k == "rc") {
                static const int64_t mins[] = { 0, 1, 4096 };
                uint64_t inv = stamp();
                H.open_inv = inv;
                db.rc(mins[o.b], mins[o.b]);
                H.wops.push_back({ inv, stamp() });
                H.open_inv = 0;
                if (!pre)
                    probe("rc_during_reads");
            } else if (o.k == "all") {
                uint64_t inv = stamp();
                H.open_inv = inv;
                std::vector<std::string> gone;
                for (auto& kv : m) {
                    H.begin(kv.first, inv, false, "");
                    gone.push_back(kv.first);
                }
                m.clear();
                change(inv);
                int rcv = db.remove_all();
                if (rcv != K->SUCCESS)
                    violation("removeall-failed", "RemoveAll returned " + rcs(rcv));
                uint64_t res = stamp();
                for (auto& g : gone)
                    H.end(g, res);
                changed(res);
                H.wops.push_back({ inv, res });
                H.open_inv = 0;
            } else if (o.k == "find") {
                uint64_t inv = stamp();
                Val v = db.find(k);
                H.lookup(k, v, inv, stamp(), "writer");
            }
        }
        go = true;
        up--;
        // stay open until the readers are done
        block_on([&] { return up <= -(int)(p.clients.size() - 1); }, 0, "writer waits for readers");
        check_all(db, m, ks, "writer at end");
        db.close();
    });
    std::map<std::string, Proc*> procs;
    procs["w"] = wp;
    for (size_t ci = 1; ci < p.clients.size(); ci++) {
        const Client& cl = p.clients[ci];
        if (!procs.count(cl.label)) {
            procs[cl.label] = new_proc(cl.label);
            inst_take(procs[cl.label]);
        }
        Proc* rp = procs[cl.label];
        spawn(rp, [&, rp, ci] {
            block_on([&] { return go; }, 0, "reader waits");
            std::string who = "reader" + std::to_string(ci) + (rp == wp ? "(writer process)" : "");
            Db db;
            auto op = [&] {
                if (!db.open(rp, rc, K->READER, 10 + (uint32_t)ci))
                    violation("reader-open-failed", who + ": open failed with status " + rcs(db.st));
            };
            op();
            for (auto& o : p.clients[ci].ops) {
                OpScope os(o);
                const std::string& k = ks[o.a];
                uint64_t inv = stamp();
                if (o.k == "find") {
                    Val v = db.find(k);
                    H.lookup(k, v, inv, stamp(), who);
                } else if (o.k == "in") {
                    int err = 0;
                    int in = db.in_db(k, &err);
                    uint64_t res = stamp();
                    if (in && !H.may_present(k, inv, res))
                        violation("indb-phantom", who + ": InDB of " + show(k) + " is true; " + H.describe(k, inv, res));
                    if (!in && err != K->TRY_AGAIN && !H.may_absent(k, inv, res))
                        violation("indb-missed", who + ": InDB of " + show(k) + " is false (err " + rcs(err) + "); " + H.describe(k, inv, res));
                } else if (o.k == "lp") {
                    std::string q = k;
                    Rng rr(hcomb(o.c, 3));
                    for (int i = 0; i < o.b && q.size() < 255; i++)
                        q += (char)(rr.chance(1, 2) ? 'a' + rr.below(3) : k[rr.below(k.size())]);
                    Val v = db.lp(q);
                    H.longest(q, v, inv, stamp(), who);
                } else if (o.k == "iter" || o.k == "piter") {
                    std::string pre = k.substr(0, std::min<size_t>(k.size(), o.b));
                    std::vector<std::pair<std::string, std::string>> out;
                    int rcv = db.iterate(o.k == "piter" ? &pre : nullptr, out, 100000);
                    uint64_t res = stamp();
                    if (rcv == 0)
                        H.iterated(o.k == "piter" ? &pre : nullptr, out, inv, res, who);
                    else {
                        probe("iterate_exception");
                        if (!H.writer_active(inv, res))
                            violation("iterate-error-idle", who + ": iteration threw while no update was running");
                    }
                } else if (o.k == "count") {
                    int64_t n = db.count();
                    uint64_t res = stamp();
                    bool ok = false;
                    for (size_t i = 0; i < H.counts.size(); i++)
                        if (H.counts[i].inv <= res && (i + 1 == H.counts.size() || H.counts[i + 1].res >= inv) && H.counts[i].n == n)
                            ok = true;
                    if (!ok)
                        violation("count-wrong", who + ": count is " + std::to_string(n) + ", no state during the call had that many keys");
                } else if (o.k == "reopen") {
                    db.close();
                    op();
                }
            }
            db.close();
            up--;
        });
    }
    (void)jem;
    run_all();
    if (S->viol.empty() && !S->budget)
        H.order_check();
}
extern const Scenario SC_CONC;
const Scenario SC_CONC = { "conc", gen_conc, run_conc };
}
