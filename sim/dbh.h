// Harness-side database handle, keys, values and configuration helpers.
#pragma once
#include "plan.h"
namespace sim {

struct Cfg { // database configuration decoded from a plan
    std::string dir = "/db";
    std::string qdir;
    int64_t opts = 0; // extra options
    uint64_t memcap_i = 0, memcap_d = 0;
    uint32_t bs_i = 4u << 20, bs_d = 4u << 20;
    int max_i = 64, max_d = 64;
    int bucket = 500;
    uint32_t qsize = 8;
    bool keep = false;
};
Cfg cfg_of(const Plan& p);
void cfg_gen(Plan& p, Rng& r, bool allow_jem = false, bool allow_pfx = true);

struct Val { int rc = 0; std::string v; int match_len = 0; uint32_t bucket = 0; };

struct Db {
    Proc* p = nullptr;
    const ShimApi* a = nullptr;
    void* h = nullptr;
    int st = -1;
    Cfg c;
    int mode = 0;
    bool open(Proc* proc, const Cfg& cfg, int mode, uint32_t id = 0); // true when usable
    int close();        // close + delete
    void drop() { h = nullptr; }
    int add(const std::string& k, const std::string& v, bool ow, int how = 0);
    int rem(const std::string& k, bool async = false);
    int remove_all();
    Val find(const std::string& k);
    Val lp(const std::string& k);
    Val lb(const std::string& k, std::string& bound);
    int in_db(const std::string& k, int* err);
    int rc(int64_t a, int64_t b, int64_t s = 0xFFFFFFFFFFFFLL, int64_t c = 0xFFFFFFFFFFFFLL);
    int64_t count();
    int backup(const std::string& d);
    void flush();
    int iterate(const std::string* prefix, std::vector<std::pair<std::string, std::string>>& out, size_t limit = 1000000);
    int lock();
    int unlock();
    bool busy();
};

struct Keys {
    std::vector<std::string> k;
    const std::string& operator[](size_t i) const { return k[i % k.size()]; }
    size_t size() const { return k.size(); }
};
Keys make_keys(uint64_t seed, int style, int n);
std::string make_val(uint64_t key, uint64_t ver, int len); // unique for len >= 8
std::string show(const std::string& s);                    // printable, abbreviated
std::string rcs(int rc);
int pick_len(Rng& r, int style, int minlen);

// begin/end of a client operation: sets op identity, stamps
struct OpScope {
    uint64_t inv;
    OpScope(const Op& o);
    ~OpScope();
};
void boot_fs();
}
