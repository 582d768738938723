#include "hist.h"
#include <algorithm>
namespace sim {
std::string Hist::describe(const std::string& k, uint64_t inv, uint64_t res)
{
    std::string o = "allowed:";
    auto& l = at(k);
    for (size_t i = 0; i < l.size(); i++)
        if (l[i].inv <= res && (i + 1 == l.size() || l[i + 1].res >= inv))
            o += l[i].present ? " " + show(l[i].v) : std::string(" absent");
    return o;
}
void Hist::lookup(const std::string& k, const Val& v, uint64_t inv, uint64_t res, const std::string& who)
{
    if (v.rc == K->TRY_AGAIN) {
        if (!writer_active(inv, res))
            violation("lookup-try-again-idle", who + ": find of " + show(k) + " returned try-again while no update was running");
        probe("lookup_try_again");
        return;
    }
    if (v.rc != K->SUCCESS && v.rc != K->NOT_EXIST)
        violation("lookup-error", who + ": find of " + show(k) + " returned rc " + rcs(v.rc) + "; " + describe(k, inv, res));
    bool pr = v.rc == K->SUCCESS;
    if (!may(k, pr, v.v, inv, res)) {
        std::string cls = !pr ? "lookup-missed-key" : !may_present(k, inv, res) && !known_value(k, v.v) ? "lookup-phantom" : known_value(k, v.v) ? "lookup-stale-value" : "lookup-garbage-value";
        violation(cls, who + ": find of " + show(k) + " returned " + (pr ? show(v.v) : std::string("absent")) + "; " + describe(k, inv, res));
    }
    reads[k].push_back({ inv, res, pr, v.v, who });
}
void Hist::order_check()
{
    for (auto& kv : reads) {
        auto& rs = kv.second;
        auto& l = at(kv.first);
        std::stable_sort(rs.begin(), rs.end(), [](const ReadRec& a, const ReadRec& b) { return a.res < b.res; });
        std::vector<size_t> got(rs.size());
        for (size_t i = 0; i < rs.size(); i++) {
            size_t lb = 0;
            for (size_t j = 0; j < i; j++)
                if (rs[j].res < rs[i].inv)
                    lb = std::max(lb, got[j]);
            size_t pick = SIZE_MAX;
            for (size_t x = 0; x < l.size(); x++)
                if (x >= lb && l[x].inv <= rs[i].res && (x + 1 == l.size() || l[x + 1].res >= rs[i].inv) && l[x].present == rs[i].present && (!rs[i].present || l[x].v == rs[i].v)) {
                    pick = x;
                    break;
                }
            if (pick == SIZE_MAX)
                violation("lookup-goes-back", rs[i].who + ": find of " + show(kv.first) + " returned " + (rs[i].present ? show(rs[i].v) : std::string("absent")) + " although an earlier completed lookup already returned a newer version");
            got[i] = pick == SIZE_MAX ? lb : pick;
        }
    }
}
void Hist::longest(const std::string& q, const Val& v, uint64_t inv, uint64_t res, const std::string& who)
{
    if (v.rc == K->TRY_AGAIN) {
        if (!writer_active(inv, res))
            violation("prefix-try-again-idle", who + ": longest prefix of " + show(q) + " returned try-again while no update was running");
        probe("prefix_try_again");
        return;
    }
    if (v.rc != K->SUCCESS && v.rc != K->NOT_EXIST)
        violation("prefix-error", who + ": longest prefix of " + show(q) + " returned rc " + rcs(v.rc));
    int got = v.rc == K->SUCCESS ? v.match_len : 0;
    if (v.rc == K->SUCCESS) {
        if (got < 1 || got > (int)q.size())
            violation("prefix-bad-length", who + ": longest prefix of " + show(q) + " returned length " + std::to_string(got));
        std::string k = q.substr(0, got);
        if (!may(k, true, v.v, inv, res))
            violation(known_value(k, v.v) ? "prefix-stale-value" : "prefix-wrong-value", who + ": longest prefix of " + show(q) + " returned length " + std::to_string(got) + " value " + show(v.v) + "; " + describe(k, inv, res));
    }
    // a longer key present during the whole call must not be missed
    for (int l = got + 1; l <= (int)q.size(); l++) {
        std::string k = q.substr(0, l);
        if (ver.count(k) && !may_absent(k, inv, res))
            violation("prefix-missed", who + ": longest prefix of " + show(q) + " returned length " + std::to_string(got) + " although key " + show(k) + " was stored during the whole call");
    }
}
void Hist::iterated(const std::string* prefix, const std::vector<std::pair<std::string, std::string>>& out, uint64_t inv, uint64_t res, const std::string& who)
{
    std::map<std::string, int> seen;
    for (auto& kv : out) {
        if (prefix && kv.first.compare(0, prefix->size(), *prefix) != 0)
            violation("iterate-foreign", who + ": iteration over " + show(*prefix) + " returned " + show(kv.first));
        if (!may(kv.first, true, kv.second, inv, res))
            violation(!ver.count(kv.first) ? "iterate-phantom-key" : known_value(kv.first, kv.second) ? "iterate-stale-value" : "iterate-wrong-value",
                who + ": iteration returned " + show(kv.first) + " = " + show(kv.second) + "; " + describe(kv.first, inv, res));
        seen[kv.first]++;
    }
    for (auto& kv : ver) {
        if (prefix && kv.first.compare(0, prefix->size(), *prefix) != 0)
            continue;
        bool stable = true;
        for (auto& x : kv.second)
            if (x.inv && x.inv <= res && x.res >= inv)
                stable = false;
        if (!stable)
            continue;
        bool pres = !may_absent(kv.first, inv, res);
        int n = seen.count(kv.first) ? seen[kv.first] : 0;
        if (pres && n == 0)
            violation("iterate-missed", who + ": iteration did not return " + show(kv.first) + " although it was stored, unchanged, during the whole iteration");
        if (pres && n > 1)
            violation("iterate-duplicate", who + ": iteration returned " + show(kv.first) + " " + std::to_string(n) + " times although it did not change");
    }
}
void gen_strategy(Plan& p, Rng& r, uint64_t est)
{
    if (r.chance(1, 3)) {
        p.strat.kind = S_PCT;
        p.strat.pct_depth = (int)r.range(1, 8);
        p.strat.pct_len = est;
    } else {
        p.strat.kind = S_RANDOM;
        static const uint32_t gaps[] = { 1, 2, 4, 8, 16, 40, 100, 300, 1000 };
        p.strat.gap = r.chance(1, 2) ? 0 : gaps[r.below(9)];
        if (r.chance(1, 8))
            p.strat.slow = 1 + r.below(1 << 20);
        else if (r.chance(1, 2)) {
            static const uint32_t mods[] = { 4, 8, 16, 32, 64 };
            p.strat.focus_mod = mods[r.below(5)];
            p.strat.focus_val = r.below(p.strat.focus_mod);
        }
    }
    if (r.chance(1, 4)) {
        static const uint32_t ppm[] = { 50, 300, 2000 };
        p.strat.stall_ppm = ppm[r.below(3)];
    }
    p.tear = r.chance(2, 3);
}
}
