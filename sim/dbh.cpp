#include "dbh.h"
#include <algorithm>
#include <set>
namespace sim {
// every call runs inside the library as the process the handle belongs to
struct DbIn {
    InLib l;
    Proc* save;
    DbIn(Proc* p) { save = self ? self->proc : nullptr; if (self && p) self->proc = p; }
    ~DbIn() { if (self) self->proc = save; }
};
void boot_fs()
{
    for (const char* d : { "/", "/db", "/db2", "/bk", "/bk2", "/q", "/dev", "/dev/shm", "/tmp", "/var" })
        vfs_mkdir(d);
}
Cfg cfg_of(const Plan& p)
{
    Cfg c;
    c.opts = p.g("opts", 0);
    c.bs_i = (uint32_t)p.g("bs_i", 4 << 20);
    c.bs_d = (uint32_t)p.g("bs_d", 4 << 20);
    c.max_i = (int)p.g("max_i", 64);
    c.max_d = (int)p.g("max_d", 64);
    c.memcap_i = (uint64_t)p.g("memcap_i", 32 << 20);
    c.memcap_d = (uint64_t)p.g("memcap_d", 32 << 20);
    c.bucket = (int)p.g("bucket", 500);
    c.qsize = (uint32_t)p.g("qsize", 8);
    c.keep = p.g("keep", 0);
    if (p.g("qdir", 0))
        c.qdir = "/q";
    return c;
}
// K is available: options resolved through the library's own constants
void cfg_gen(Plan& p, Rng& r, bool allow_jem, bool allow_pfx)
{
    int64_t o = 0;
    p.cfg["bs_i"] = (4 << 20);
    p.cfg["bs_d"] = (4 << 20) * (r.chance(1, 4) ? 2 : 1);
    p.cfg["max_i"] = 64;
    p.cfg["max_d"] = 64;
    static const int64_t caps[] = { 1 << 20, 4 << 20, 8 << 20, 64 << 20, 512 << 20 };
    p.cfg["memcap_i"] = caps[r.below(5)];
    p.cfg["memcap_d"] = caps[r.below(5)];
    if (getenv("SIMX_NOJEM"))
        allow_jem = false;
    if (getenv("SIMX_NOPFX"))
        allow_pfx = false;
    if (allow_jem && r.chance(1, 5)) {
        o |= K->JEMALLOC;
        p.cfg["max_i"] = 64;
        p.cfg["max_d"] = 64;
        p.cfg["memcap_i"] = p.cfg["bs_i"] * 64;
        p.cfg["memcap_d"] = p.cfg["bs_d"] * 64;
        p.cfg["keep"] = 1;
    }
    if (allow_pfx && r.chance(1, 3))
        o |= K->PREFIX_CACHE;
    if (r.chance(1, 10))
        o |= K->SYNC_ON_WRITE;
    p.cfg["opts"] = o;
    if (r.chance(1, 6))
        p.cfg["bucket"] = 8 + r.below(40);
}

bool Db::open(Proc* proc, const Cfg& cfg, int m, uint32_t id)
{
    p = proc;
    a = proc->inst->api;
    c = cfg;
    mode = m;
    ShimCfg s;
    memset(&s, 0, sizeof s);
    s.dir = c.dir.c_str();
    s.options = (int)(m | c.opts);
    s.memcap_index = c.memcap_i;
    s.memcap_data = c.memcap_d;
    s.connect_id = id;
    s.block_size_index = c.bs_i;
    s.block_size_data = c.bs_d;
    s.max_num_index_block = c.max_i;
    s.max_num_data_block = c.max_d;
    s.num_entry_per_bucket = c.bucket;
    s.queue_size = c.qsize;
    s.queue_dir = c.qdir.empty() ? nullptr : c.qdir.c_str();
    s.keep_db = c.keep;
    {
        DbIn l(p);
        if (getenv("SIMX_LIBLOG"))
            a->log_level(atoi(getenv("SIMX_LIBLOG")));
        h = a->db_new(&s, &st);
    }
    ev("open %s mode=%d -> %d", proc->label.c_str(), m, st);
    bool ok = h && a->db_open(h);
    return ok;
}
int Db::close()
{
    int rc = 0;
    if (h) {
        DbIn l(p);
        rc = a->db_close(h);
        a->db_delete(h);
    }
    h = nullptr;
    ev("close %s -> %d", p ? p->label.c_str() : "", rc);
    return rc;
}
int Db::add(const std::string& k, const std::string& v, bool ow, int how)
{
    int rc;
    {
        DbIn l(p);
        if (how == 1)
            rc = a->add_md(h, k.data(), (int)k.size(), v.data(), (int)v.size(), ow);
        else if (how == 2)
            rc = a->add_async(h, k.data(), (int)k.size(), v.data(), (int)v.size(), ow);
        else
            rc = a->add(h, k.data(), (int)k.size(), v.data(), (int)v.size(), ow);
    }
    ev("add %s = %s ow=%d -> %s", show(k).c_str(), show(v).c_str(), ow, rcs(rc).c_str());
    return rc;
}
int Db::rem(const std::string& k, bool async)
{
    int rc;
    {
        DbIn l(p);
        rc = async ? a->remove_async(h, k.data(), (int)k.size()) : a->remove(h, k.data(), (int)k.size());
    }
    ev("remove %s -> %s", show(k).c_str(), rcs(rc).c_str());
    return rc;
}
int Db::remove_all()
{
    int rc;
    {
        DbIn l(p);
        rc = a->remove_all(h);
    }
    ev("remove_all -> %s", rcs(rc).c_str());
    return rc;
}
static thread_local char vbuf[70000];
Val Db::find(const std::string& k)
{
    ShimVal s { 0, vbuf, sizeof vbuf, 0, 0, 0 };
    {
        DbIn l(p);
        s.rc = a->find(h, k.data(), (int)k.size(), &s);
    }
    Val r;
    r.rc = s.rc;
    if (s.rc == K->SUCCESS) {
        r.v.assign(vbuf, std::max(0, std::min(s.len, (int)sizeof vbuf)));
        r.match_len = s.match_len;
        r.bucket = s.bucket;
    }
    ev("find %s -> %s %s", show(k).c_str(), rcs(s.rc).c_str(), show(r.v).c_str());
    return r;
}
Val Db::lb(const std::string& k, std::string& bound)
{
    static char bk[1024];
    ShimVal s { 0, vbuf, sizeof vbuf, 0, 0, 0 };
    int bl = 0;
    {
        DbIn l(p);
        s.rc = a->find_lb(h, k.data(), (int)k.size(), &s, bk, &bl);
    }
    Val r;
    r.rc = s.rc;
    if (s.rc == K->SUCCESS) {
        r.v.assign(vbuf, std::max(0, std::min(s.len, (int)sizeof vbuf)));
        r.match_len = s.match_len;
        r.bucket = s.bucket;
    }
    bound.assign(bk, std::max(0, std::min(bl, (int)sizeof bk)));
    ev("lower_bound %s -> %s %s key=%s", show(k).c_str(), rcs(s.rc).c_str(), show(r.v).c_str(), show(bound).c_str());
    return r;
}
Val Db::lp(const std::string& k)
{
    ShimVal s { 0, vbuf, sizeof vbuf, 0, 0, 0 };
    {
        DbIn l(p);
        s.rc = a->find_lp(h, k.data(), (int)k.size(), &s);
    }
    Val r;
    r.rc = s.rc;
    if (s.rc == K->SUCCESS) {
        r.v.assign(vbuf, std::max(0, std::min(s.len, (int)sizeof vbuf)));
        r.match_len = s.match_len;
        r.bucket = s.bucket;
    }
    ev("longest_prefix %s -> %s len=%d %s", show(k).c_str(), rcs(s.rc).c_str(), r.match_len, show(r.v).c_str());
    return r;
}
int Db::in_db(const std::string& k, int* err)
{
    int rc;
    {
        DbIn l(p);
        rc = a->in_db(h, k.data(), (int)k.size(), err);
    }
    ev("in_db %s -> %d", show(k).c_str(), rc);
    return rc;
}
int Db::rc(int64_t x, int64_t y, int64_t s, int64_t n)
{
    int rc;
    {
        DbIn l(p);
        rc = a->rc(h, x, y, s, n);
    }
    ev("rc %lld %lld %lld %lld -> %s", (long long)x, (long long)y, (long long)s, (long long)n, rcs(rc).c_str());
    return rc;
}
int64_t Db::count()
{
    int64_t n;
    {
        DbIn l(p);
        n = a->count(h);
    }
    ev("count -> %lld", (long long)n);
    return n;
}
int Db::backup(const std::string& d)
{
    int rc;
    {
        DbIn l(p);
        rc = a->backup(h, d.c_str());
    }
    ev("backup %s -> %s", d.c_str(), rcs(rc).c_str());
    return rc;
}
void Db::flush()
{
    DbIn l(p);
    a->flush(h);
}
struct IterCtx { std::vector<std::pair<std::string, std::string>>* out; size_t limit; };
static bool iter_cb(void* c, const char* k, int kl, const char* v, int vl)
{
    OutLib o;
    IterCtx* x = (IterCtx*)c;
    x->out->push_back({ std::string(k, kl), std::string(v ? v : "", v && vl > 0 ? vl : 0) });
    return x->out->size() < x->limit;
}
int Db::iterate(const std::string* prefix, std::vector<std::pair<std::string, std::string>>& out, size_t limit)
{
    IterCtx x { &out, limit };
    int rc;
    {
        DbIn l(p);
        rc = a->iterate(h, prefix ? prefix->data() : nullptr, prefix ? (int)prefix->size() : 0, iter_cb, &x);
    }
    ev("iterate %s -> %zu entries rc=%d", prefix ? show(*prefix).c_str() : "", out.size(), rc);
    return rc;
}
int Db::lock()
{
    int rc;
    {
        DbIn l(p);
        rc = a->lock(h);
    }
    ev("lock -> %d", rc);
    return rc;
}
int Db::unlock()
{
    int rc;
    {
        DbIn l(p);
        rc = a->unlock(h);
    }
    ev("unlock -> %d", rc);
    return rc;
}
bool Db::busy()
{
    DbIn l(p);
    return a->async_busy(h);
}

Keys make_keys(uint64_t seed, int style, int n)
{
    Rng r(hcomb(seed, 0x6b657973));
    Keys ks;
    std::set<std::string> seen;
    std::string pre;
    int plen = style == 1 ? (int)r.range(5, 240) : 0;
    for (int i = 0; i < plen; i++)
        pre += (char)('a' + r.below(26));
    // style 6, 7: a few stems with many branches whose tails have few lengths, which are
    // the lengths of index nodes in style 7
    std::vector<std::string> stems;
    std::vector<int> first, tails;
    if (style >= 6) {
        int ns = (int)r.range(1, 3);
        for (int i = 0; i < ns; i++) {
            std::string st;
            int l = (int)r.range(0, 7);
            for (int j = 0; j < l; j++)
                st += (char)('a' + r.below(2));
            stems.push_back(st);
        }
        int nf = style == 6 ? (int)r.range(8, 60) : (int)r.range(3, 8), lo = (int)r.below(256), step = (int)r.range(1, 9);
        for (int i = 0; i < nf; i++)
            first.push_back((lo + i * step) & 255);
        int nt = (int)r.range(1, 4);
        for (int i = 0; i < nt; i++)
            tails.push_back(style == 6 ? (int)r.range(0, 9) : (int)r.range(0, 3) + 8 + 14 * (int)r.range(1, 6));
        if (style == 7)
            tails.push_back((int)r.range(0, 2));
    }
    // style 8: each key adds a branch to a node; the tail has the size of the node it replaces
    if (style == 8) {
        int ns = (int)r.range(1, 2), off = (int)r.below(4), lo = (int)r.below(256), step = (int)r.range(1, 7) * 2 + 1;
        for (int i = 0; i < n; i++) {
            int j = i / ns;
            std::string k = std::string("st").substr(i % ns, 1) + "em" + std::string(1, (char)(lo + j * step));
            int l = j == 0 ? (int)r.below(5) : 8 + 14 * j + off - (int)r.below(2);
            k += std::string((size_t)std::min(l, 250), (char)('a' + j % 26));
            if (k.size() <= 255 && seen.insert(k).second)
                ks.k.push_back(k);
        }
        if (ks.k.empty())
            ks.k.push_back("a");
        return ks;
    }
    int guard = 0;
    while ((int)ks.k.size() < n && guard++ < 100 * n + 1000) {
        std::string k;
        switch (style) {
        case 0: { // tiny alphabet, short
            int l = (int)r.range(1, 7), al = 2 + (int)(seed % 3);
            for (int i = 0; i < l; i++)
                k += (char)('a' + r.below(al));
            break;
        }
        case 1: { // long shared prefix
            int cut = (int)r.below(plen + 1);
            if (r.chance(2, 3))
                cut = plen;
            k = pre.substr(0, cut);
            int l = (int)r.range(cut ? 0 : 1, std::min(10, 255 - cut));
            for (int i = 0; i < l; i++)
                k += (char)('a' + r.below(3));
            break;
        }
        case 2: { // arbitrary bytes
            int l = (int)r.range(1, 12);
            for (int i = 0; i < l; i++)
                k += (char)r.below(256);
            break;
        }
        case 3: { // chains of prefixes
            int l = r.chance(1, 8) ? (int)r.range(1, 255) : (int)r.range(1, 20);
            char ch = (char)('a' + r.below(2));
            k = std::string(l, ch);
            if (r.chance(1, 3) && l > 1)
                k[l - 1] = 'z';
            break;
        }
        case 4: { // decimal strings
            k = "key_" + std::to_string(r.below(n * 3 + 10));
            break;
        }
        case 6:
        case 7: {
            k = stems[r.below(stems.size())];
            int depth = r.chance(1, 4) ? 2 : 1;
            for (int d = 0; d < depth; d++) {
                k += (char)first[r.below(first.size())];
                int l = tails[r.below(tails.size())];
                for (int i = 0; i < l; i++)
                    k += (char)('m' + d);
            }
            if (r.chance(1, 8))
                k.resize(r.range(1, k.size()));
            break;
        }
        default: { // wide fan-out: all first bytes, then short tails
            k += (char)r.below(256);
            if (r.chance(1, 2))
                k += (char)r.below(256);
            int l = (int)r.below(3);
            for (int i = 0; i < l; i++)
                k += 'x';
            if (r.chance(1, 12))
                k += std::string((size_t)r.range(20, 200), 'q');
            break;
        }
        }
        if (k.empty() || k.size() > 255 || !seen.insert(k).second)
            continue;
        ks.k.push_back(k);
    }
    if (ks.k.empty())
        ks.k.push_back("a");
    return ks;
}
std::string make_val(uint64_t key, uint64_t ver, int len)
{
    std::string v((size_t)len, 0);
    uint64_t s = hcomb(hcomb(key + 77, ver), len);
    for (int i = 0; i < len; i++) {
        if ((i & 7) == 0 && i)
            s = mix64(s + i);
        v[i] = (char)(s >> (8 * (i & 7)));
    }
    return v;
}
std::string show(const std::string& s)
{
    std::string o = "\"";
    size_t n = std::min<size_t>(s.size(), 12);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c >= 33 && c < 127 && c != '"' && c != '\\')
            o += (char)c;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\%02x", c);
            o += b;
        }
    }
    o += "\"";
    if (s.size() > n)
        o += "..(" + std::to_string(s.size()) + ")";
    return o;
}
std::string rcs(int rc)
{
    if (rc == SHIM_EXC)
        return "EXCEPTION";
    return std::to_string(rc);
}
int pick_len(Rng& r, int style, int minlen)
{
    int l;
    switch (style) {
    case 0: l = (int)r.range(8, 24); break;
    case 1: { static const int t[] = { 8, 16, 16, 16, 32, 48 }; l = t[r.below(6)]; break; }
    case 2: l = (int)r.range(1, 300); break;
    case 3: { static const int t[] = { 1, 2, 3, 4, 7, 8, 9, 255, 256, 257, 4095, 4096, 4097, 32766, 32767 }; l = t[r.below(15)]; break; }
    case 4: l = (int)r.range(1000, 32767); break;
    default: l = 16; break;
    }
    return std::max(l, minlen);
}
OpScope::OpScope(const Op& o)
{
    if (self) {
        self->op = o.uid;
        self->opsteps = 0;
        self->opwrites = 0;
        if (S->crash.thr_op == o.uid && S->crash.armed)
            S->crash_counting = true;
    }
    inv = ++S->seq;
}
OpScope::~OpScope()
{
    ++S->seq;
    if (self) {
        // keep schedule keys unique after the operation
        self->op = -1;
    }
}
}
