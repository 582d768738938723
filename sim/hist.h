// Version histories of a single-writer map and checks of reads against them.
#pragma once
#include "dbh.h"
namespace sim {
typedef std::map<std::string, std::string> Map;
void check_all(Db& db, const Map& m, const Keys& ks, const char* when, bool with_iter = true, int64_t slack = 0);
void check_lp(Db& db, const Map& m, const std::string& q, const char* when);

struct Ver { uint64_t inv, res; bool present; std::string v; };
struct ReadRec { uint64_t inv, res; bool present; std::string v; std::string who; };
struct Hist {
    std::map<std::string, std::vector<Ver>> ver;
    std::map<std::string, std::vector<ReadRec>> reads;
    struct WOp { uint64_t inv, res; };
    std::vector<WOp> wops; // every state-changing writer operation
    struct Sz { uint64_t inv, res; int64_t n; };
    std::vector<Sz> counts;
    uint64_t open_inv = 0; // writer operation in progress (0 none)
    std::vector<Ver>& at(const std::string& k)
    {
        auto& v = ver[k];
        if (v.empty())
            v.push_back({ 0, 0, false, "" });
        return v;
    }
    // begin a write: visible from inv, superseding only once res is known
    void begin(const std::string& k, uint64_t inv, bool present, const std::string& v) { at(k).push_back({ inv, UINT64_MAX, present, v }); }
    void end(const std::string& k, uint64_t res) { at(k).back().res = res; }
    void cancel(const std::string& k) { at(k).pop_back(); }
    // was a state-changing writer operation running at some time in [inv,res]?
    bool writer_active(uint64_t inv, uint64_t res) const
    {
        if (open_inv && open_inv <= res)
            return true;
        for (auto& w : wops)
            if (w.inv <= res && w.res >= inv)
                return true;
        return false;
    }
    bool may(const std::string& k, bool present, const std::string& v, uint64_t inv, uint64_t res)
    {
        auto& l = at(k);
        for (size_t i = 0; i < l.size(); i++)
            if (l[i].inv <= res && (i + 1 == l.size() || l[i + 1].res >= inv) && l[i].present == present && (!present || l[i].v == v))
                return true;
        return false;
    }
    bool may_absent(const std::string& k, uint64_t inv, uint64_t res) { return may(k, false, "", inv, res); }
    bool may_present(const std::string& k, uint64_t inv, uint64_t res)
    {
        auto& l = at(k);
        for (size_t i = 0; i < l.size(); i++)
            if (l[i].inv <= res && (i + 1 == l.size() || l[i + 1].res >= inv) && l[i].present)
                return true;
        return false;
    }
    bool known_value(const std::string& k, const std::string& v)
    {
        for (auto& x : at(k))
            if (x.present && x.v == v)
                return true;
        return false;
    }
    std::string describe(const std::string& k, uint64_t inv, uint64_t res);
    // immediate check of one exact lookup, also recorded for the order check
    void lookup(const std::string& k, const Val& v, uint64_t inv, uint64_t res, const std::string& who);
    void longest(const std::string& q, const Val& v, uint64_t inv, uint64_t res, const std::string& who);
    void iterated(const std::string* prefix, const std::vector<std::pair<std::string, std::string>>& out, uint64_t inv, uint64_t res, const std::string& who);
    void order_check(); // no reader goes back in time (after the run)
};
inline uint64_t stamp() { return ++S->seq; }
void gen_strategy(Plan& p, Rng& r, uint64_t est);
}
