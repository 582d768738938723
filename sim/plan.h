// A plan is everything that decides a run except the schedule; plan + schedule
// is a replay file.
#pragma once
#include "core.h"
#include <string>
#include <vector>
namespace sim {
struct Op {
    std::string k;
    int64_t a = 0, b = 0, c = 0, d = 0;
    int uid = -1;
};
struct Client {
    std::string label; // process label
    std::vector<Op> ops;
};
struct Plan {
    std::string scenario, prop;
    uint64_t seed = 1;
    std::map<std::string, int64_t> cfg;
    Strategy strat;
    bool tear = true;
    CrashSpec crash;
    std::vector<CrashSpec> crash_more; // armed one after another, each once the previous one fired
    std::vector<FaultSpec> faults;
    std::vector<Client> clients;
    // schedule to replay (empty + has_sched=false: draw from the seed)
    bool has_sched = false;
    std::vector<SchedRec> sched;
    // expectation recorded in a replay file
    std::string expect_class, expect_msg;
    uint64_t expect_hash = 0;
    int64_t g(const char* k, int64_t def = 0) const { auto it = cfg.find(k); return it == cfg.end() ? def : it->second; }
    void number() { int n = 0; for (auto& c : clients) for (auto& o : c.ops) o.uid = n++; }
    size_t nops() const { size_t n = 0; for (auto& c : clients) n += c.ops.size(); return n; }
};
std::string plan_text(const Plan& p);
bool plan_parse(const std::string& text, Plan& p);

struct Scenario {
    const char* name;
    void (*gen)(Plan& p, Rng& r, const std::string& prop, int tier);
    void (*run)(const Plan& p);
};
struct PropDef {
    const char* id;
    std::vector<std::pair<const char*, int>> mix; // scenario, weight
    int quick_runs, thorough_runs;
};
extern std::vector<Scenario> SCENARIOS;
extern std::vector<PropDef> PROPS;

// ---- instances
struct ShimApiHolder;
}
#include "shimapi.h"
namespace sim {
struct Inst {
    int idx;
    const ShimApi* api;
    uint64_t base, end;
};
void inst_load(const std::string& dir, int n);
Inst* inst_take(Proc* p); // next fresh copy
int inst_left();
extern const ShimConsts* K;
}
