// C08: updates sent to an asynchronous writer through the shared memory queue.
// Client processes and threads enqueue, look up and may be killed; the writer
// process may be stalled, closed and reopened, or killed and restarted.
#include "hist.h"
#include <algorithm>
namespace sim {
static void gen_async(Plan& p, Rng& r, const std::string& prop, int tier)
{
    cfg_gen(p, r, false, false);
    p.cfg["bucket"] = 500;
    p.cfg["kstyle"] = r.below(9);
    p.cfg["kseed"] = r.below(1 << 30);
    int nk = (int)r.range(1, 6);
    p.cfg["nk"] = nk;
    p.cfg["vstyle"] = r.below(3);
    static const int qs[] = { 1, 2, 3, 4, 8, 16 };
    p.cfg["qsize"] = qs[r.below(6)];
    p.cfg["qdir"] = r.chance(1, 4);
    int nc = (int)r.range(1, 3);
    bool local = r.chance(1, 3) && !getenv("SIMX_NOLOCAL"); // a client thread inside the writer process
    bool rc = r.chance(1, 5);
    if (getenv("SIMX_NORC"))
        rc = false;
    p.cfg["local"] = local;
    int w_all = r.chance(1, 4) ? 3 : 0, w_retry = (int)r.below(60), w_find = r.chance(1, 2) ? 30 : 4;
    int w_rem = (int)r.range(5, 40);
    // the writer's own life: work, clean reopen
    Client w;
    w.label = "w";
    int re = r.chance(1, 4) ? (int)r.range(1, 3) : 0;
    for (int i = 0; i < re; i++) {
        Op o;
        o.k = "reopen";
        o.a = r.below(30); // ms before
        o.b = r.below(2);
        w.ops.push_back(o);
    }
    p.clients.push_back(w);
    for (int j = 0; j < nc + local; j++) {
        Client c;
        c.label = local && j == nc ? "w" : "c" + std::to_string(j);
        int n = (int)r.range(2, tier ? 40 : 20);
        for (int i = 0; i < n; i++) {
            Op o;
            o.a = r.below(nk);
            o.b = (j + 1) * 1000 + i;
            o.c = pick_len(r, (int)p.cfg["vstyle"], 8);
            if (o.c > 3000)
                o.c = 3000;
            o.d = r.below(100) < (uint64_t)w_retry; // retry until accepted
            int x = (int)r.below(60 + w_rem + w_all + w_find + (rc ? 6 : 0) + 6);
            if ((x -= 40) < 0) o.k = "put";
            else if ((x -= 20) < 0) o.k = "add";
            else if ((x -= w_rem) < 0) o.k = "rem";
            else if ((x -= w_all) < 0) o.k = "all";
            else if ((x -= w_find) < 0) o.k = "find";
            else if (rc && (x -= 6) < 0) { o.k = "rc"; o.b = r.below(3); }
            else { o.k = "nap"; o.a = r.below(r.chance(1, 4) ? 3000 : 20); }
            c.ops.push_back(o);
        }
        p.clients.push_back(c);
    }
    p.number();
    gen_strategy(p, r, 200 * nc * 15);
    p.strat.stall_max_ns = 1000000000ULL;
    // kills
    int kills = !rc && r.chance(1, 2) ? (int)r.range(1, 3) : 0; // a kill while an asynchronous collection runs: see the known findings
    p.cfg["delay"] = r.below(40);
    for (int i = 0; i < kills; i++) {
        CrashSpec cs;
        cs.armed = true;
        int v = (int)r.below(3);
        size_t ci = 1 + r.below(p.clients.size() - 1);
        cs.proc = v == 0 && p.clients[ci].label != "w" ? p.clients[ci].label : "w";
        auto& ops = p.clients[ci].ops;
        cs.thr_op = i && r.chance(1, 3) ? -1 : ops[r.below(ops.size())].uid;
        cs.nth = cs.proc == "w" ? r.below(1ULL << r.range(1, 8)) : r.below(12);
        if (i == 0)
            p.crash = cs;
        else
            p.crash_more.push_back(cs);
    }
}
struct QOp { int client; uint64_t inv, res; int kind; std::string v; bool sure, dropped; }; // kind 0 overwrite 1 add-if-absent 2 remove; sure: accepted
struct AsyncRun {
    const Plan& p;
    Keys ks;
    Cfg c, rc;
    std::map<std::string, std::vector<QOp>> h;
    struct Rd { std::string k; bool present; std::string v; uint64_t inv, res; std::string who; };
    std::vector<Rd> reads;
    bool up = false, stop = false, local_done = true;
    int clients = 0, kills = 0;
    AsyncRun(const Plan& pl) : p(pl) {}
    void writer(Proc* wp);
    void client(Proc* cp, size_t ci);
    void observer(Proc* op);
    void verdict(const std::string& k, bool present, const std::string& v, const char* when);
    size_t wnext = 0;
};
// can some order of the accepted updates of k that respects real time end in this state?
void AsyncRun::verdict(const std::string& k, bool present, const std::string& v, const char* when)
{
    auto& all = h[k];
    std::map<int, std::vector<const QOp*>> by;
    for (auto& o : all)
        if (!o.dropped)
            by[o.client].push_back(&o);
    std::vector<std::vector<const QOp*>> seqs;
    for (auto& b : by)
        seqs.push_back(b.second);
    std::set<std::pair<std::vector<int>, std::string>> seen;
    bool ok = false;
    const std::string none = "\1absent";
    std::function<void(std::vector<int>&, const std::string&)> go = [&](std::vector<int>& pos, const std::string& st) {
        if (ok || seen.size() > 200000 || !seen.insert({ pos, st }).second)
            return;
        bool end = true;
        uint64_t minres = UINT64_MAX;
        for (size_t i = 0; i < seqs.size(); i++)
            for (size_t j = pos[i]; j < seqs[i].size(); j++)
                if (seqs[i][j]->sure) {
                    end = false;
                    minres = std::min(minres, seqs[i][j]->res);
                    break;
                }
        if (end && st == (present ? v : none)) {
            ok = true;
            return;
        }
        for (size_t i = 0; i < seqs.size(); i++) {
            if (pos[i] >= (int)seqs[i].size())
                continue;
            const QOp* o = seqs[i][pos[i]];
            if (o->inv > minres)
                continue;
            pos[i]++;
            std::string ns = o->kind == 0 ? o->v : o->kind == 1 ? (st == none ? o->v : st) : none;
            go(pos, ns);
            if (!o->sure)
                go(pos, st);
            pos[i]--;
        }
    };
    std::vector<int> pos(seqs.size(), 0);
    go(pos, none);
    if (!ok && seen.size() <= 200000) {
        std::string d;
        for (auto& o : all)
            d += "\n  client " + std::to_string(o.client) + (o.kind == 0 ? " put " : o.kind == 1 ? " add " : " remove ") + show(o.v) + " [" + std::to_string(o.inv) + "," + (o.sure ? std::to_string(o.res) : std::string("killed")) + "]" + (o.dropped ? " rejected" : "");
        violation("accepted-update-lost", std::string(when) + ": " + show(k) + " is " + (present ? show(v) : std::string("absent")) + ", which no order of the accepted updates gives:" + d);
    }
}
void AsyncRun::writer(Proc* wp)
{
    wp->on_death = [this, wp] {
        up = false;
        kills++;
        Proc* np = new_proc("w");
        inst_take(np);
        spawn(np, [this, np] {
            if (p.g("delay"))
                sleep_ns((uint64_t)p.g("delay") * 1000000);
            probe("writer_restarted");
            writer(np);
        });
        if (!local_done) { // a client thread of the writer process dies with it
            local_done = true;
            clients--;
        }
    };
    Db db;
    if (!db.open(wp, c, K->WRITER | K->ASYNC, 1))
        violation("open-failed", "writer open failed with status " + rcs(db.st) + (kills ? " after a kill" : ""));
    up = true;
    while (wnext < p.clients[0].ops.size()) {
        const Op& o = p.clients[0].ops[wnext++];
        sleep_ns(1000000ULL * (o.a + 1));
        OpScope os(o);
        if (o.k == "reopen") {
            if (!local_done)
                continue; // closing under a thread that is still using the process is not supported
            up = false;
            db.close();
            probe("async_reopen");
            if (!db.open(wp, c, K->WRITER | K->ASYNC, 1))
                violation("open-failed", "writer reopen failed with status " + rcs(db.st));
            up = true;
        }
    }
    block_on([&] { return stop; }, 0, "writer waits");
    wp->on_death = nullptr;
    db.close();
}
void AsyncRun::client(Proc* cp, size_t ci)
{
    bool local = p.clients[ci].label == "w";
    block_on([&] { return up; }, 0, "client waits for the writer");
    std::string who = (local ? "client in the writer process " : "client ") + std::to_string(ci);
    Db db;
    if (!db.open(cp, rc, K->READER, 10 + (uint32_t)ci))
        violation("reader-open-failed", who + ": open failed with status " + rcs(db.st));
    for (auto& o : p.clients[ci].ops) {
        OpScope os(o);
        const std::string& k = ks[o.a];
        if (o.k == "put" || o.k == "add" || o.k == "rem" || o.k == "all") {
            std::string v = o.k == "put" || o.k == "add" ? make_val(o.a, o.b, (int)o.c) : "";
            std::vector<std::string> on;
            if (o.k == "all")
                for (auto& x : ks.k)
                    on.push_back(x);
            else
                on.push_back(k);
            std::vector<std::pair<std::string, size_t>> idx;
            uint64_t inv = stamp();
            for (auto& x : on) {
                idx.push_back({ x, h[x].size() });
                h[x].push_back({ (int)ci, inv, UINT64_MAX, o.k == "put" ? 0 : o.k == "add" ? 1 : 2, v, false, false });
            }
            int rcv = o.k == "put" || o.k == "add" ? db.add(k, v, o.k == "put", o.d ? 2 : 0) : o.k == "rem" ? db.rem(k, o.d) : db.remove_all();
            uint64_t res = stamp();
            if (rcv != K->SUCCESS && rcv != K->TRY_AGAIN)
                violation("enqueue-error", who + ": " + o.k + " of " + show(k) + " returned " + rcs(rcv));
            probe(rcv == K->SUCCESS ? "update_accepted" : "update_rejected");
            for (auto& x : idx) {
                QOp& q = h[x.first][x.second];
                q.res = res;
                q.sure = rcv == K->SUCCESS;
                q.dropped = rcv != K->SUCCESS;
            }
        } else if (o.k == "find") {
            uint64_t inv = stamp();
            Val v = db.find(k);
            uint64_t res = stamp();
            if (v.rc == K->TRY_AGAIN)
                continue;
            if (v.rc != K->SUCCESS && v.rc != K->NOT_EXIST)
                violation("lookup-error", who + ": find of " + show(k) + " returned " + rcs(v.rc));
            reads.push_back({ k, v.rc == K->SUCCESS, v.v, inv, res, who });
            if (v.rc == K->SUCCESS) {
                bool known = false;
                for (auto& q : h[k])
                    known |= q.kind != 2 && !q.dropped && q.inv <= res && q.v == v.v;
                if (!known)
                    violation("lookup-garbage-value", who + ": find of " + show(k) + " returned " + show(v.v) + ", which nobody stored there");
            }
        } else if (o.k == "rc") {
            static const int64_t mins[] = { 1, 1, 4096 };
            db.rc(mins[o.b], mins[o.b]);
            probe("rc_queued");
        } else if (o.k == "nap")
            sleep_ns(1000000ULL * o.a + 1000);
    }
    db.close();
    if (local)
        local_done = true;
    else
        cp->on_death = nullptr;
    clients--;
}
void AsyncRun::observer(Proc* op)
{
    block_on([&] { return clients == 0 && up && wnext >= p.clients[0].ops.size(); }, 0, "observer waits");
    S->crash.armed = false;
    S->crash_more.clear();
    Db db;
    if (!db.open(op, rc, K->READER, 90))
        violation("reader-open-failed", "observer: open failed with status " + rcs(db.st));
    // faults have stopped: every accepted update is applied within a bounded time
    uint64_t t0 = S->now;
    while (db.busy()) {
        if (S->now - t0 > 60000000000ULL)
            violation("queue-stuck", "the asynchronous writer has not processed the queue 60 s after the last update");
        sleep_ns(20000000);
    }
    int64_t n = 0;
    for (auto& k : ks.k) {
        Val v = db.find(k);
        for (int i = 0; i < 100 && v.rc == K->TRY_AGAIN; i++)
            v = db.find(k);
        if (v.rc != K->SUCCESS && v.rc != K->NOT_EXIST)
            violation("lookup-error", "observer: find of " + show(k) + " returned " + rcs(v.rc));
        verdict(k, v.rc == K->SUCCESS, v.v, "after the queue was drained");
        if (v.rc == K->SUCCESS)
            n++;
    }
    int64_t cnt = db.count();
    if (cnt > n + kills || cnt < n - kills)
        violation("wrong-count", "count is " + std::to_string(cnt) + ", stored " + std::to_string(n));
    // readers see the queue's order: no reader goes back behind an update it has seen
    for (size_t i = 0; i < reads.size(); i++)
        for (size_t j = 0; j < reads.size(); j++) {
            auto &a = reads[i], &b = reads[j];
            if (a.k != b.k || !a.present || !b.present || a.res >= b.inv || a.v == b.v)
                continue;
            const QOp *qa = nullptr, *qb = nullptr;
            for (auto& q : h[a.k]) {
                if (q.kind != 2 && q.v == a.v) qa = &q;
                if (q.kind != 2 && q.v == b.v) qb = &q;
            }
            if (qa && qb && qb->sure && qa->kind == 0 && qb->res < qa->inv)
                violation("lookup-back-in-time", b.who + " read " + show(b.v) + " for " + show(b.k) + " after " + a.who + " had read the later " + show(a.v));
        }
    db.close();
    stop = true;
}
static void run_async(const Plan& p)
{
    AsyncRun R(p);
    R.ks = make_keys((uint64_t)p.g("kseed"), (int)p.g("kstyle"), (int)p.g("nk"));
    R.c = cfg_of(p);
    R.rc = R.c;
    R.rc.opts &= ~(int64_t)K->SYNC_ON_WRITE;
    Proc* wp = new_proc("w");
    inst_take(wp);
    R.clients = (int)p.clients.size() - 1;
    for (size_t ci = 1; ci < p.clients.size(); ci++)
        if (p.clients[ci].label == "w")
            R.local_done = false;
    spawn(wp, [&] { R.writer(wp); });
    for (size_t ci = 1; ci < p.clients.size(); ci++) {
        Proc* cp = wp;
        if (p.clients[ci].label != "w") {
            cp = new_proc(p.clients[ci].label);
            inst_take(cp);
            cp->on_death = [&R] { R.clients--; probe("client_killed"); };
        }
        spawn(cp, [&R, cp, ci] { R.client(cp, ci); });
    }
    Proc* op = new_proc("o");
    inst_take(op);
    spawn(op, [&R, op] { R.observer(op); });
    run_all();
}
extern const Scenario SC_ASYNC;
const Scenario SC_ASYNC = { "async", gen_async, run_async };
}
