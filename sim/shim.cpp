// Public-API shim compiled into every loaded copy of the library.
#include "db.h"
#include "dict.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"
#include "shimapi.h"
#include <sstream>
#include <string.h>
#include <string>
using namespace mabain;
static int g_exc;
#define TRY try {
#define CATCH                    \
    }                            \
    catch (int e) { g_exc = e; } \
    catch (...) { g_exc = -1; }  \
    return SHIM_EXC;

static void* s_new(const ShimCfg* c, int* status)
{
    MBConfig m;
    memset(&m, 0, sizeof m);
    m.mbdir = c->dir;
    m.options = c->options;
    m.memcap_index = c->memcap_index;
    m.memcap_data = c->memcap_data;
    m.data_size = c->data_size;
    m.connect_id = c->connect_id;
    m.block_size_index = c->block_size_index;
    m.block_size_data = c->block_size_data;
    m.max_num_data_block = c->max_num_data_block;
    m.max_num_index_block = c->max_num_index_block;
    m.num_entry_per_bucket = c->num_entry_per_bucket;
    m.queue_size = c->queue_size;
    m.queue_dir = c->queue_dir;
    m.jemalloc_keep_db = c->keep_db;
    try {
        DB* d = new DB(m);
        *status = d->Status();
        return d;
    } catch (int e) {
        g_exc = e;
    } catch (...) {
        g_exc = -1;
    }
    *status = SHIM_EXC;
    return nullptr;
}
#define D ((DB*)h)
static void s_delete(void* h) { delete D; }
static int s_status(void* h) { return D->Status(); }
static int s_open(void* h) { return D->is_open(); }
static int s_close(void* h) { TRY return D->Close(); CATCH }
static int s_add(void* h, const char* k, int kl, const char* v, int vl, bool ow) { TRY return D->Add(k, kl, v, vl, ow); CATCH }
static int s_add_md(void* h, const char* k, int kl, const char* v, int vl, bool ow)
{
    TRY MBData md;
    md.Resize(vl);
    memcpy(md.buff, v, vl);
    md.data_len = vl;
    return D->Add(k, kl, md, ow);
    CATCH
}
static int s_add_async(void* h, const char* k, int kl, const char* v, int vl, bool ow) { TRY return D->AddAsync(k, kl, v, vl, ow); CATCH }
static int s_remove(void* h, const char* k, int kl) { TRY return D->Remove(k, kl); CATCH }
static int s_remove_async(void* h, const char* k, int kl) { TRY return D->RemoveAsync(k, kl); CATCH }
static int s_remove_all(void* h) { TRY return D->RemoveAll(); CATCH }
static int s_remove_all_sync(void* h) { TRY return D->RemoveAllSync(); CATCH }
static int give(MBData& md, int rc, ShimVal* o)
{
    o->rc = rc;
    if (rc == MBError::SUCCESS) {
        o->len = md.data_len;
        int n = md.data_len < o->cap ? md.data_len : o->cap;
        if (n > 0 && md.buff)
            memcpy(o->buf, md.buff, n);
        o->match_len = md.match_len;
        o->bucket = md.bucket_index;
    }
    return rc;
}
static int s_find(void* h, const char* k, int kl, ShimVal* o) { TRY MBData md; int rc = D->Find(k, kl, md); return give(md, rc, o); CATCH }
static int s_find_lp(void* h, const char* k, int kl, ShimVal* o) { TRY MBData md; int rc = D->FindLongestPrefix(k, kl, md); return give(md, rc, o); CATCH }
static int s_find_lb(void* h, const char* k, int kl, ShimVal* o, char* bk, int* bkl)
{
    TRY MBData md;
    std::string b;
    int rc = D->FindLowerBound(k, kl, md, &b);
    *bkl = (int)std::min<size_t>(b.size(), 1024);
    memcpy(bk, b.data(), *bkl);
    return give(md, rc, o);
    CATCH
}
static int s_in_db(void* h, const char* k, int kl, int* err) { TRY return D->InDB(k, kl, *err) ? 1 : 0; CATCH }
static int s_rc(void* h, int64_t a, int64_t b, int64_t s, int64_t c) { TRY return D->CollectResource(a, b, s, c); CATCH }
static int s_backup(void* h, const char* dir) { TRY return D->Backup(dir); CATCH }
static int64_t s_count(void* h) { return D->Count(); }
static int64_t s_pd(void* h) { return D->GetPendingDataBufferSize(); }
static int64_t s_pi(void* h) { return D->GetPendingIndexBufferSize(); }
static void s_flush(void* h) { D->Flush(); }
static void s_purge(void* h) { D->Purge(); }
static int s_lock(void* h) { return D->Lock(); }
static int s_unlock(void* h) { return D->UnLock(); }
static int s_busy(void* h) { return D->AsyncWriterBusy(); }
static int s_aen(void* h) { return D->AsyncWriterEnabled(); }
static int s_iterate(void* h, const char* prefix, int pl, bool (*cb)(void*, const char*, int, const char*, int), void* ctx)
{
    TRY if (prefix)
    {
        std::string p(prefix, pl);
        for (DB::iterator it = D->begin(p); it != D->end(); ++it)
            if (!cb(ctx, it.key.data(), (int)it.key.size(), (const char*)it.value.buff, it.value.data_len))
                break;
    }
    else
    {
        for (DB::iterator it = D->begin(); it != D->end(); ++it)
            if (!cb(ctx, it.key.data(), (int)it.key.size(), (const char*)it.value.buff, it.value.data_len))
                break;
    }
    return 0;
    CATCH
}
static void s_clear(const char* p) { DB::ClearResources(p); }
static int s_ll(int l) { return DB::SetLogLevel(l); }
static const char* s_es(int e) { return MBError::get_error_str(e); }
static int s_exc(void) { return g_exc; }
static void s_stats(void* h) { std::ostringstream o; D->PrintStats(o); }
// not part of the public interface: found by name, absent otherwise
template <class T> static auto set_upd(T* d, int64_t n, int64_t e, int) -> decltype(d->GetDictPtr()->GetHeaderPtr()->num_update, d->GetDictPtr()->GetHeaderPtr()->eviction_bucket_index, 0)
{
    auto* hd = d->GetDictPtr()->GetHeaderPtr();
    hd->num_update = n;
    if (e >= 0)
        hd->eviction_bucket_index = (uint16_t)e;
    return 1;
}
template <class T> static int set_upd(T*, int64_t, int64_t, long) { return 0; }
static int s_set_updates(void* h, int64_t n, int64_t e) { return set_upd<DB>(D, n, e, 0); }
static ShimApi api;
extern "C" __attribute__((visibility("default"))) const ShimApi* shim_get()
{
    ShimConsts& c = api.C;
    c.READER = CONSTS::ACCESS_MODE_READER;
    c.WRITER = CONSTS::ACCESS_MODE_WRITER;
    c.ASYNC = CONSTS::ASYNC_WRITER_MODE;
    c.SYNC_ON_WRITE = CONSTS::SYNC_ON_WRITE;
    c.MEMORY_ONLY = CONSTS::MEMORY_ONLY_MODE;
    c.READ_ONLY_DB = CONSTS::READ_ONLY_DB;
    c.SHMQ_RETRY = CONSTS::OPTION_SHMQ_RETRY;
    c.JEMALLOC = CONSTS::OPTION_JEMALLOC;
    c.PREFIX_CACHE = CONSTS::OPTION_PREFIX_CACHE;
    c.RC_MODE = CONSTS::OPTION_RC_MODE;
    c.SLIDING = CONSTS::USE_SLIDING_WINDOW;
#define E(x) c.x = MBError::x;
    E(SUCCESS) E(NOT_EXIST) E(IN_DICT) E(TRY_AGAIN) E(OUT_OF_BOUND) E(NOT_ALLOWED) E(WRITER_EXIST) E(NO_MEMORY)
    E(OPEN_FAILURE) E(MMAP_FAILED) E(RC_SKIPPED) E(DB_CLOSED) E(INVALID_ARG) E(NO_DB) E(NOT_INITIALIZED)
    E(INVALID_SIZE) E(READ_ERROR) E(WRITE_ERROR) E(NO_RESOURCE)
    c.UNKNOWN = MBError::UNKNOWN_ERROR;
    api.db_new = s_new; api.db_delete = s_delete; api.db_status = s_status; api.db_open = s_open; api.db_close = s_close;
    api.add = s_add; api.add_md = s_add_md; api.add_async = s_add_async;
    api.remove = s_remove; api.remove_async = s_remove_async; api.remove_all = s_remove_all; api.remove_all_sync = s_remove_all_sync;
    api.find = s_find; api.find_lp = s_find_lp; api.find_lb = s_find_lb; api.in_db = s_in_db;
    api.rc = s_rc; api.backup = s_backup; api.count = s_count; api.pend_data = s_pd; api.pend_index = s_pi;
    api.flush = s_flush; api.purge = s_purge; api.lock = s_lock; api.unlock = s_unlock;
    api.async_busy = s_busy; api.async_enabled = s_aen; api.iterate = s_iterate;
    api.clear_resources = s_clear; api.log_level = s_ll; api.err_str = s_es; api.exc_value = s_exc; api.print_stats = s_stats; api.set_updates = s_set_updates;
    return &api;
}
