// C interface between the simulator and one loaded copy of the library.
#pragma once
#include <stddef.h>
#include <stdint.h>
struct ShimCfg {
    const char* dir;
    int options;
    uint64_t memcap_index, memcap_data;
    uint32_t connect_id;
    uint32_t block_size_index, block_size_data;
    int max_num_data_block, max_num_index_block;
    int num_entry_per_bucket;
    uint32_t queue_size;
    const char* queue_dir;
    bool keep_db;
    int data_size;
};
struct ShimVal {
    int rc;          // library return code; SHIM_EXC if an exception escaped
    char* buf;
    int cap;
    int len;
    int match_len;
    uint32_t bucket;
};
#define SHIM_EXC (-99999)
struct ShimConsts { int READER, WRITER, ASYNC, SYNC_ON_WRITE, MEMORY_ONLY, READ_ONLY_DB, SHMQ_RETRY, JEMALLOC, PREFIX_CACHE, RC_MODE, SLIDING;
    int SUCCESS, NOT_EXIST, IN_DICT, TRY_AGAIN, OUT_OF_BOUND, NOT_ALLOWED, WRITER_EXIST, NO_MEMORY, OPEN_FAILURE, MMAP_FAILED, RC_SKIPPED, DB_CLOSED, INVALID_ARG, NO_DB, NOT_INITIALIZED, INVALID_SIZE, READ_ERROR, WRITE_ERROR, NO_RESOURCE, UNKNOWN; };
struct ShimApi {
    ShimConsts C;
    void* (*db_new)(const ShimCfg*, int* status);   // null if an exception escaped
    void (*db_delete)(void*);
    int (*db_status)(void*);
    int (*db_open)(void*);
    int (*db_close)(void*);
    int (*add)(void*, const char* k, int kl, const char* v, int vl, bool ow);
    int (*add_md)(void*, const char* k, int kl, const char* v, int vl, bool ow);
    int (*add_async)(void*, const char* k, int kl, const char* v, int vl, bool ow);
    int (*remove)(void*, const char* k, int kl);
    int (*remove_async)(void*, const char* k, int kl);
    int (*remove_all)(void*);
    int (*remove_all_sync)(void*);
    int (*find)(void*, const char* k, int kl, ShimVal*);
    int (*find_lp)(void*, const char* k, int kl, ShimVal*);
    int (*find_lb)(void*, const char* k, int kl, ShimVal*, char* bk, int* bkl);
    int (*in_db)(void*, const char* k, int kl, int* err);
    int (*rc)(void*, int64_t a, int64_t b, int64_t s, int64_t c);
    int (*backup)(void*, const char* dir);
    int64_t (*count)(void*);
    int64_t (*pend_data)(void*);
    int64_t (*pend_index)(void*);
    void (*flush)(void*);
    void (*purge)(void*);
    int (*lock)(void*);
    int (*unlock)(void*);
    int (*async_busy)(void*);
    int (*async_enabled)(void*);
    // iteration: prefix may be null; cb returns false to stop. Returns 0 or SHIM_EXC
    int (*iterate)(void*, const char* prefix, int plen, bool (*cb)(void* ctx, const char* k, int kl, const char* v, int vl), void* ctx);
    void (*clear_resources)(const char* path);
    int (*log_level)(int);
    const char* (*err_str)(int);
    int (*exc_value)(void); // last escaped int exception
    void (*print_stats)(void*);
    // continue as if n updates had been made (evict < 0: leave the eviction index); 0 if not supported
    int (*set_updates)(void*, int64_t n, int64_t evict);
};
