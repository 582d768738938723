#include "plan.h"
#include <dlfcn.h>
#include <link.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
namespace sim {
std::string plan_text(const Plan& p)
{
    std::ostringstream o;
    o << "mabain-sim-replay 1\n";
    o << "property " << p.prop << "\nscenario " << p.scenario << "\nseed " << p.seed << "\n";
    for (auto& kv : p.cfg)
        o << "cfg " << kv.first << " " << kv.second << "\n";
    o << "strategy " << (int)p.strat.kind << " " << p.strat.gap << " " << p.strat.pct_depth << " " << p.strat.pct_len << " "
      << p.strat.heap_yield << " " << p.strat.stall_ppm << " " << p.strat.stall_max_ns << " " << p.strat.focus_mod << " " << p.strat.focus_val << " " << p.strat.slow << "\n";
    o << "tear " << p.tear << "\n";
    if (p.crash.armed)
        o << "crash " << p.crash.proc << " " << p.crash.thr_op << " " << p.crash.nth << "\n";
    for (auto& c : p.crash_more)
        o << "crash " << c.proc << " " << c.thr_op << " " << c.nth << "\n";
    for (auto& f : p.faults)
        o << "fault " << f.call << " " << f.nth << " " << f.count << " " << f.err << " " << (f.mode.empty() ? "err" : f.mode) << " "
          << (f.path.empty() ? "*" : f.path) << " " << (f.proc.empty() ? "*" : f.proc) << "\n";
    for (auto& c : p.clients) {
        o << "client " << c.label << "\n";
        for (auto& x : c.ops)
            o << "op " << x.uid << " " << x.k << " " << x.a << " " << x.b << " " << x.c << " " << x.d << "\n";
    }
    if (p.has_sched) {
        o << "schedule " << p.sched.size() << "\n";
        for (auto& s : p.sched)
            o << "s " << s.thr << " " << s.key << " " << s.to << "\n";
    }
    if (!p.expect_class.empty())
        o << "expect " << p.expect_class << " " << p.expect_hash << "\nmessage " << p.expect_msg << "\n";
    return o.str();
}
bool plan_parse(const std::string& text, Plan& p)
{
    std::istringstream in(text);
    std::string line;
    if (!std::getline(in, line) || line != "mabain-sim-replay 1")
        return false;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "property") l >> p.prop;
        else if (w == "scenario") l >> p.scenario;
        else if (w == "seed") l >> p.seed;
        else if (w == "cfg") { std::string k; int64_t v; l >> k >> v; p.cfg[k] = v; }
        else if (w == "strategy") { int k; l >> k >> p.strat.gap >> p.strat.pct_depth >> p.strat.pct_len >> p.strat.heap_yield >> p.strat.stall_ppm >> p.strat.stall_max_ns >> p.strat.focus_mod >> p.strat.focus_val >> p.strat.slow; p.strat.kind = (StratKind)k; }
        else if (w == "tear") l >> p.tear;
        else if (w == "crash") {
            CrashSpec c;
            c.armed = true;
            l >> c.proc >> c.thr_op >> c.nth;
            if (p.crash.armed)
                p.crash_more.push_back(c);
            else
                p.crash = c;
        }
        else if (w == "fault") { FaultSpec f; l >> f.call >> f.nth >> f.count >> f.err >> f.mode >> f.path >> f.proc; if (f.path == "*") f.path = ""; if (f.proc == "*") f.proc = ""; p.faults.push_back(f); }
        else if (w == "client") { Client c; l >> c.label; p.clients.push_back(c); }
        else if (w == "op") { Op x; l >> x.uid >> x.k >> x.a >> x.b >> x.c >> x.d; p.clients.back().ops.push_back(x); }
        else if (w == "schedule") p.has_sched = true;
        else if (w == "s") { SchedRec s; l >> s.thr >> s.key >> s.to; p.sched.push_back(s); }
        else if (w == "expect") l >> p.expect_class >> p.expect_hash;
        else if (w == "message") { if (line.size() > 8) p.expect_msg = line.substr(8); }
    }
    return true;
}

static std::vector<Inst> insts;
static size_t inst_next;
const ShimConsts* K;
void inst_load(const std::string& dir, int n)
{
    for (int i = 0; i < n; i++) {
        std::string f = dir + "/inst" + std::to_string(i) + ".so";
        void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "sim: %s\n", dlerror());
            exit(70);
        }
        typedef const ShimApi* (*fn)();
        fn g = (fn)dlsym(h, "shim_get");
        Inst x;
        x.idx = i;
        x.api = g();
        struct link_map* lm = nullptr;
        dlinfo(h, RTLD_DI_LINKMAP, &lm);
        x.base = lm->l_addr;
        x.end = x.base;
        dl_iterate_phdr([](struct dl_phdr_info* pi, size_t, void* a) {
            Inst* q = (Inst*)a;
            if (pi->dlpi_addr == q->base)
                for (int k = 0; k < pi->dlpi_phnum; k++)
                    if (pi->dlpi_phdr[k].p_type == PT_LOAD)
                        q->end = std::max<uint64_t>(q->end, q->base + pi->dlpi_phdr[k].p_vaddr + pi->dlpi_phdr[k].p_memsz);
            return 0;
        }, &x);
        insts.push_back(x);
    }
    K = &insts[0].api->C;
}
Inst* inst_take(Proc* p)
{
    if (inst_next >= insts.size()) {
        fprintf(stderr, "sim: out of library copies\n");
        _exit(70);
    }
    Inst* x = &insts[inst_next++];
    p->inst = x;
    return x;
}
int inst_left() { return (int)(insts.size() - inst_next); }
uint64_t pc_site(void* pc)
{
    uint64_t a = (uint64_t)pc;
    if (self && self->proc && self->proc->inst) {
        const Inst* q = self->proc->inst;
        if (a >= q->base && a < q->end)
            return a - q->base;
    }
    return 1;
}
}
