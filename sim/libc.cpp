#include <signal.h>
// Virtual file system, virtual processes and the libc entry points the library
// uses.  Every function here behaves like the real one unless it is called
// from library code running on a simulated thread.
#include <stdio_ext.h>
#include "core.h"
#include "raw.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
#define VFD_BASE 5000
#define RPC __builtin_return_address(0)

template <class F> static F next_sym(const char* n)
{
    return (F)dlsym(RTLD_NEXT, n);
}
#define REAL(ret, name, ...)                                   \
    typedef ret (*fn_##name)(__VA_ARGS__);                     \
    static fn_##name real_##name;                              \
    if (!real_##name)                                          \
        real_##name = next_sym<fn_##name>(#name);

static inline bool lib() { return self && self->inlib && S; }

static long sysret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ------------------------------------------------------------------ vfs
namespace sim {

std::string norm_path(const std::string& p)
{
    std::vector<std::string> parts;
    std::string cur;
    for (size_t i = 0; i <= p.size(); i++) {
        if (i == p.size() || p[i] == '/') {
            if (!cur.empty() && cur != ".") {
                if (cur == "..") {
                    if (!parts.empty())
                        parts.pop_back();
                } else
                    parts.push_back(cur);
            }
            cur.clear();
        } else
            cur += p[i];
    }
    std::string r;
    for (auto& s : parts)
        r += "/" + s;
    return r.empty() ? "/" : r;
}
static std::string dirname_of(const std::string& p)
{
    size_t k = p.rfind('/');
    return k == 0 || k == std::string::npos ? "/" : p.substr(0, k);
}
VFile* vfs_lookup(const std::string& path)
{
    auto it = S->paths.find(norm_path(path));
    return it == S->paths.end() ? nullptr : it->second;
}
VFile* vfs_create(const std::string& path, VType t)
{
    VFile* f = new VFile;
    f->id = (int)S->files.size() + 1;
    if (t == V_REG && !S->free_ino.empty()) {
        f->ino = S->free_ino.back();
        S->free_ino.pop_back();
    } else
        f->ino = S->next_ino++;
    f->type = t;
    f->name = norm_path(path);
    if (t == V_REG || t == V_ANON) {
        f->memfd = (int)raw_syscall(SYS_memfd_create, (long)"vf", 1);
        if (f->memfd < 0) {
            fprintf(stderr, "sim: memfd_create failed %d\n", f->memfd);
            _exit(70);
        }
    }
    S->files.push_back(f);
    if (t != V_ANON)
        S->paths[f->name] = f;
    return f;
}
VFile* vfs_mkdir(const std::string& path)
{
    VFile* f = vfs_lookup(path);
    return f ? f : vfs_create(path, V_DIR);
}
std::string vfs_read_all(VFile* f)
{
    std::string s((size_t)f->size, 0);
    if (f->size)
        raw_syscall(SYS_pread64, f->memfd, (long)&s[0], f->size, 0);
    return s;
}

static void unlock_file(Proc* p, VFile* f)
{
    if (f->lock_owner == p->id)
        f->lock_owner = 0;
}
static void desc_unref(Proc* p, VDesc* d)
{
    if (p)
        unlock_file(p, d->f);
    if (--d->refs > 0)
        return;
    d->flock_mode = 0;
    d->f->nopen--;
    if (d->f->type == V_FIFO) {
        int acc = d->flags & O_ACCMODE;
        if (acc == O_RDONLY || acc == O_RDWR)
            d->f->readers--;
        if (acc == O_WRONLY || acc == O_RDWR)
            d->f->writers--;
        if (d->f->readers == 0 && d->f->writers == 0)
            d->f->buf.clear();
    }
    d->refs = -1; // closed (kept for flock scans)
}
void vfs_release_proc(Proc* p)
{
    for (auto& kv : p->fds)
        desc_unref(p, kv.second);
    p->fds.clear();
    for (VFile* f : S->files)
        if (f->lock_owner == p->id)
            f->lock_owner = 0;
}

static std::vector<VDesc*> all_descs_; // per run
static std::vector<VDesc*>& all_descs() { return all_descs_; }

int real_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
    return real_pthread_create(t, a, f, x);
}

// Is a fault injected into this call?  Returns the spec or null.
static const FaultSpec* fault(const char* call, const std::string& path)
{
    if (!S->faults_on || S->faults.empty())
        return nullptr;
    for (auto& f : S->faults) {
        if (f.call != call)
            continue;
        if (!f.proc.empty() && (!self->proc || self->proc->label != f.proc))
            continue;
        if (!f.path.empty() && path.find(f.path) == std::string::npos)
            continue;
        std::string key = f.call + "|" + f.path + "|" + f.proc + "|" + std::to_string(f.nth);
        int n = S->fault_seen[key]++;
        if (n >= f.nth && n < f.nth + f.count) {
            S->st.faults[f.call + ":" + (f.mode == "short" ? "short" : strerrorname_np(f.err) ? strerrorname_np(f.err) : "err")]++;
            ev("FAULT %s(%s) -> %s", call, path.c_str(), f.mode == "short" ? "short" : strerrorname_np(f.err));
            return &f;
        }
    }
    return nullptr;
}
static void sysy(const VFile* f, uint64_t off, bool mut, void* pc)
{
    yield_point(Y_SYS, f ? f->id : 250, off, mut, pc);
}
static VDesc* getd(int fd)
{
    if (!self->proc)
        return nullptr;
    auto it = self->proc->fds.find(fd);
    return it == self->proc->fds.end() ? nullptr : it->second;
}
static int install(VDesc* d)
{
    int fd = VFD_BASE;
    while (self->proc->fds.count(fd))
        fd++;
    self->proc->fds[fd] = d;
    d->refs++;
    return fd;
}

static int real_memfd_of_text(const std::string& txt)
{
    int fd = (int)raw_syscall(SYS_memfd_create, (long)"txt", 1);
    raw_syscall(SYS_write, fd, (long)txt.data(), txt.size());
    raw_syscall(SYS_lseek, fd, 0, SEEK_SET);
    return fd;
}
static bool proc_stat_text(const std::string& path, std::string& out)
{
    if (path.compare(0, 6, "/proc/") != 0)
        return false;
    size_t k = path.find('/', 6);
    if (k == std::string::npos || path.substr(k) != "/stat")
        return false;
    std::string who = path.substr(6, k - 6);
    int pid = who == "self" ? (self->proc ? self->proc->pid : 0) : atoi(who.c_str());
    for (Proc* p : S->procs) {
        if (p->pid == pid && p->alive) {
            char b[512];
            snprintf(b, sizeof b,
                "%d (app) S 1 1 1 0 -1 4194304 100 0 0 0 0 0 0 0 20 0 1 0 %llu 1000000 100 18446744073709551615 0 0 0 0 0 0 0 0 0 0 0 0 17 0 0 0 0 0 0\n",
                pid, (unsigned long long)p->start_time);
            out = b;
            return true;
        }
    }
    return false;
}

// v_open: returns fd or -errno
static int v_open(const char* path, int flags, void* pc)
{
    std::string np = norm_path(path);
    VFile* f = vfs_lookup(np);
    sysy(f, 0, (flags & (O_CREAT | O_TRUNC)) != 0, pc);
    if (const FaultSpec* fs = fault("open", np))
        return -fs->err;
    f = vfs_lookup(np);
    if (!f) {
        if (!(flags & O_CREAT))
            return -ENOENT;
        VFile* d = vfs_lookup(dirname_of(np));
        if (!d || d->type != V_DIR)
            return -ENOENT;
        f = vfs_create(np, V_REG);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL))
            return -EEXIST;
        if (f->type == V_DIR) {
            if ((flags & O_ACCMODE) != O_RDONLY)
                return -EISDIR;
        }
        if ((flags & O_TRUNC) && f->type == V_REG) {
            raw_syscall(SYS_ftruncate, f->memfd, 0);
            f->size = 0;
            if (f->alloc > 0 && S->disk_free != INT64_MAX)
                S->disk_free += f->alloc;
            f->alloc = 0;
        }
        if (f->type == V_FIFO && (flags & O_ACCMODE) == O_WRONLY && f->readers == 0) {
            if (flags & O_NONBLOCK)
                return -ENXIO;
            block_on([f] { return f->readers > 0; }, 0, "fifo open");
        }
    }
    VDesc* d = new VDesc;
    d->f = f;
    d->flags = flags;
    f->nopen++;
    if (f->type == V_FIFO) {
        int acc = flags & O_ACCMODE;
        if (acc == O_RDONLY || acc == O_RDWR)
            f->readers++;
        if (acc == O_WRONLY || acc == O_RDWR)
            f->writers++;
        d->off = f->writers > 0; // "a writer has been connected"
    }
    all_descs().push_back(d);
    return install(d);
}

static int fill_stat(VFile* f, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_ino = f->ino;
    st->st_dev = 77;
    st->st_nlink = f->nlink;
    st->st_size = f->size;
    st->st_blksize = 4096;
    st->st_blocks = (f->size + 511) / 512;
    st->st_mode = f->type == V_DIR ? (S_IFDIR | 0755) : f->type == V_FIFO ? (S_IFIFO | 0666) : (S_IFREG | 0644);
    return 0;
}

bool hole_write(int file, int64_t off)
{
    VFile* f = file > 0 && file <= (int)S->files.size() ? S->files[file - 1] : nullptr;
    if (!f || off < f->hole_from || f->hole_filled.count(off >> 12))
        return true;
    if (S->disk_free != INT64_MAX) {
        if (S->disk_free < 4096)
            return false;
        S->disk_free -= 4096;
    }
    f->hole_filled.insert(off >> 12);
    return true;
}
static int grow(VFile* f, int64_t to, bool allocate)
{
    if (allocate && S->disk_free != INT64_MAX) {
        int64_t need = to - f->alloc;
        if (need > 0) {
            if (need > S->disk_free) {
                S->st.faults["disk_full"]++;
                return -ENOSPC;
            }
            S->disk_free -= need;
            f->alloc = to;
        }
        if (f->hole_from < to)
            f->hole_from = to;
    }
    if (to > f->size) {
        raw_syscall(SYS_ftruncate, f->memfd, to);
        f->size = to;
    }
    return 0;
}

static ssize_t v_pwrite(VFile* f, const char* b, size_t n, int64_t off, void* pc)
{
    sysy(f, off, true, pc);
    if (const FaultSpec* fs = fault("pwrite", f->name)) {
        if (fs->mode == "short" && n > 1)
            n = n / 2;
        else if (fs->mode != "short")
            return -fs->err;
    }
    int64_t end = off + (int64_t)n;
    if (S->holes && n && (!hole_write(f->id, off) || !hole_write(f->id, end - 1)))
        return -ENOSPC;
    int r = grow(f, end > f->size ? end : f->size, end > f->size && S->disk_free != INT64_MAX);
    if (r < 0)
        return r;
    if (S->tear && n > 8 && !self->nopre) {
        // readers may see a prefix; a kill only takes effect on a page boundary
        size_t k = ((hrand(0x91) % n) + 7) & ~7ULL;
        if (hrand(0x92) & 1) {
            size_t pg = (size_t)(4096 - (off & 4095));
            if (pg < n)
                k = pg;
        }
        if (k > 0 && k < n) {
            raw_syscall(SYS_pwrite64, f->memfd, (long)b, k, off);
            yield_point(Y_SYS, f->id, off + k, ((off + k) & 4095) == 0, pc);
            S->st.torn++;
            raw_syscall(SYS_pwrite64, f->memfd, (long)(b + k), n - k, off + k);
            return (ssize_t)n;
        }
    }
    raw_syscall(SYS_pwrite64, f->memfd, (long)b, n, off);
    return (ssize_t)n;
}
static ssize_t v_pread(VFile* f, char* b, size_t n, int64_t off, void* pc)
{
    sysy(f, off, false, pc);
    if (const FaultSpec* fs = fault("pread", f->name)) {
        if (fs->mode == "short" && n > 1)
            n = n / 2;
        else if (fs->mode != "short")
            return -fs->err;
    }
    if (off >= f->size)
        return 0;
    if (off + (int64_t)n > f->size)
        n = (size_t)(f->size - off);
    if (S->tear && n > 8 && !self->nopre) {
        size_t k = ((hrand(0x93) % n) + 7) & ~7ULL;
        if (k > 0 && k < n) {
            raw_syscall(SYS_pread64, f->memfd, (long)b, k, off);
            yield_point(Y_SYS, f->id, off + k, false, pc);
            raw_syscall(SYS_pread64, f->memfd, (long)(b + k), n - k, off + k);
            return (ssize_t)n;
        }
    }
    raw_syscall(SYS_pread64, f->memfd, (long)b, n, off);
    return (ssize_t)n;
}

static std::string vname(int fd)
{
    VDesc* d = getd(fd);
    return d ? d->f->name : "";
}

static char* v_map(VFile* f, size_t len, int prot, int flags, int64_t off)
{
    uint64_t sz = (len + (4ULL << 20) - 1) & ~((4ULL << 20) - 1);
    char* a = REGION + S->region_next;
    S->region_next += sz + (4ULL << 20);
    void* r = (void*)raw_syscall(SYS_mmap, (long)a, len, prot, (flags & ~(MAP_ANONYMOUS)) | MAP_FIXED, f->memfd, off);
    if ((unsigned long)r > (unsigned long)-4096)
        return (char*)r;
    region_set(a, sz, f->id, off);
    return a;
}

} // namespace sim

// ------------------------------------------------------------------ files
extern "C" {

static int do_open(const char* path, int flags, mode_t mode, void* pc)
{
    if (lib())
        return (int)sysret(v_open(path, flags, pc));
    return (int)sysret(raw_syscall(SYS_openat, AT_FDCWD, (long)path, flags, mode));
}
int open(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return do_open(path, flags, m, RPC);
}
int open64(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return do_open(path, flags, m, RPC);
}
int __open_2(const char* path, int flags) { return do_open(path, flags, 0, RPC); }
int openat(int dfd, const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (lib() && (path[0] == '/' || dfd == AT_FDCWD))
        return (int)sysret(v_open(path, flags, RPC));
    return (int)sysret(raw_syscall(SYS_openat, dfd, (long)path, flags, m));
}
int creat(const char* path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m, RPC); }

int close(int fd)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; probe("close_bad_fd"); return -1; }
        sysy(d->f, 0, false, RPC);
        d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        self->proc->fds.erase(fd);
        desc_unref(self->proc, d);
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_close, fd));
}
int dup(int fd)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        return install(d);
    }
    return (int)sysret(raw_syscall(SYS_dup, fd));
}

static ssize_t fifo_read(VDesc* d, char* b, size_t n)
{
    VFile* f = d->f;
    for (;;) {
        if (!f->buf.empty()) {
            size_t k = n < f->buf.size() ? n : f->buf.size();
            memcpy(b, f->buf.data(), k);
            f->buf.erase(0, k);
            return (ssize_t)k;
        }
        if (f->writers == 0)
            return 0;
        if (d->flags & O_NONBLOCK)
            return -EAGAIN;
        block_on([f] { return !f->buf.empty() || f->writers == 0; }, 0, "fifo read");
    }
}
ssize_t read(int fd, void* b, size_t n)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        if (d->f->type == V_FIFO) {
            sysy(d->f, 0, true, RPC);
            if (const FaultSpec* fs = fault("read", d->f->name)) { errno = fs->err; return -1; }
            return sysret(fifo_read(d, (char*)b, n));
        }
        ssize_t r = v_pread(d->f, (char*)b, n, d->off, RPC);
        if (r > 0)
            d->off += r;
        return sysret(r);
    }
    return sysret(raw_syscall(SYS_read, fd, (long)b, n));
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        if (d->f->type == V_FIFO) {
            sysy(d->f, 0, true, RPC);
            if (const FaultSpec* fs = fault("write", d->f->name)) { errno = fs->err; return -1; }
            if (d->f->readers == 0) {
                probe("write_to_closed_pipe");
                sigset_t cur;
                sigemptyset(&cur);
                pthread_sigmask(SIG_BLOCK, nullptr, &cur);
                if (!sigismember(&cur, SIGPIPE))
                    violation("killed-by-sigpipe", "a process writing to the pipe of a writer that has gone is terminated by SIGPIPE");
                errno = EPIPE;
                return -1;
            }
            if (d->f->buf.size() + n > 65536) { errno = EAGAIN; return -1; }
            d->f->buf.append((const char*)b, n);
            return (ssize_t)n;
        }
        ssize_t r = v_pwrite(d->f, (const char*)b, n, (d->flags & O_APPEND) ? d->f->size : d->off, RPC);
        if (r > 0)
            d->off += r;
        return sysret(r);
    }
    if (lib())
        yield_point(Y_SYS, 251, 0, true, RPC);
    return sysret(raw_syscall(SYS_write, fd, (long)b, n));
}
static ssize_t do_pread(int fd, void* b, size_t n, off_t off, void* pc)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        return sysret(v_pread(d->f, (char*)b, n, off, pc));
    }
    return sysret(raw_syscall(SYS_pread64, fd, (long)b, n, off));
}
static ssize_t do_pwrite(int fd, const void* b, size_t n, off_t off, void* pc)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        return sysret(v_pwrite(d->f, (const char*)b, n, off, pc));
    }
    return sysret(raw_syscall(SYS_pwrite64, fd, (long)b, n, off));
}
ssize_t pread(int fd, void* b, size_t n, off_t off) { return do_pread(fd, b, n, off, RPC); }
ssize_t pread64(int fd, void* b, size_t n, off_t off) { return do_pread(fd, b, n, off, RPC); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) { return do_pwrite(fd, b, n, off, RPC); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t off) { return do_pwrite(fd, b, n, off, RPC); }
off_t lseek(int fd, off_t off, int wh)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        d->off = wh == SEEK_SET ? off : wh == SEEK_CUR ? d->off + off : d->f->size + off;
        return d->off;
    }
    return sysret(raw_syscall(SYS_lseek, fd, off, wh));
}
off_t lseek64(int fd, off_t off, int wh) { return lseek(fd, off, wh); }

int ftruncate(int fd, off_t len)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        sysy(d->f, len, true, RPC);
        if (const FaultSpec* fs = fault("ftruncate", d->f->name)) { errno = fs->err; return -1; }
        raw_syscall(SYS_ftruncate, d->f->memfd, len);
        if (len > d->f->size && S->disk_free != INT64_MAX && d->f->hole_from == INT64_MAX) {
            d->f->hole_from = d->f->size;
            S->holes++;
        }
        if (len < d->f->alloc && S->disk_free != INT64_MAX) {
            S->disk_free += d->f->alloc - len;
            d->f->alloc = len;
        }
        d->f->size = len;
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_ftruncate, fd, len));
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
static int do_falloc(int fd, int mode, off_t off, off_t len, const char* name, void* pc)
{
    VDesc* d = getd(fd);
    if (!d)
        return EBADF;
    sysy(d->f, off, true, pc);
    if (const FaultSpec* fs = fault(name, d->f->name))
        return fs->err;
    if (mode & 2) { // punch hole
        raw_syscall(SYS_fallocate, d->f->memfd, mode, off, len);
        return 0;
    }
    int r = grow(d->f, off + len, true);
    return r < 0 ? -r : 0;
}
int fallocate(int fd, int mode, off_t off, off_t len)
{
    if (lib() && fd >= VFD_BASE) {
        int e = do_falloc(fd, mode, off, len, "fallocate", RPC);
        if (e) { errno = e; return -1; }
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_fallocate, fd, mode, off, len));
}
int fallocate64(int fd, int mode, off_t off, off_t len) { return fallocate(fd, mode, off, len); }
int posix_fallocate(int fd, off_t off, off_t len)
{
    if (lib() && fd >= VFD_BASE)
        return do_falloc(fd, 0, off, len, "posix_fallocate", RPC);
    long r = raw_syscall(SYS_fallocate, fd, 0, off, len);
    return r < 0 ? (int)-r : 0;
}
int posix_fallocate64(int fd, off_t off, off_t len) { return posix_fallocate(fd, off, len); }

int fsync(int fd)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        sysy(d->f, 0, false, RPC);
        if (const FaultSpec* fs = fault("fsync", d->f->name)) { errno = fs->err; return -1; }
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_fsync, fd));
}
int fdatasync(int fd) { return fsync(fd); }

int stat(const char* path, struct stat* st)
{
    if (lib()) {
        VFile* f = vfs_lookup(path);
        sysy(f, 0, false, RPC);
        if (const FaultSpec* fs = fault("stat", norm_path(path))) { errno = fs->err; return -1; }
        f = vfs_lookup(path);
        if (!f) { errno = ENOENT; return -1; }
        return fill_stat(f, st);
    }
    return (int)sysret(raw_syscall(SYS_stat, (long)path, (long)st));
}
int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
int lstat(const char* path, struct stat* st)
{
    if (lib())
        return stat(path, st);
    return (int)sysret(raw_syscall(SYS_lstat, (long)path, (long)st));
}
int fstat(int fd, struct stat* st)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        sysy(d->f, 0, false, RPC);
        if (const FaultSpec* fs = fault("fstat", d->f->name)) { errno = fs->err; return -1; }
        return fill_stat(d->f, st);
    }
    return (int)sysret(raw_syscall(SYS_fstat, fd, (long)st));
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int access(const char* path, int m)
{
    if (lib()) {
        VFile* f = vfs_lookup(path);
        sysy(f, 0, false, RPC);
        f = vfs_lookup(path);
        if (!f) { errno = ENOENT; return -1; }
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_access, (long)path, m));
}
static int v_unlink(const char* path, void* pc)
{
    std::string np = norm_path(path);
    VFile* f = vfs_lookup(np);
    sysy(f, 0, true, pc);
    if (const FaultSpec* fs = fault("unlink", np)) { errno = fs->err; return -1; }
    f = vfs_lookup(np);
    if (!f) { errno = ENOENT; return -1; }
    if (f->type == V_DIR) { errno = EISDIR; return -1; }
    ev("unlink %s", np.c_str());
    S->paths.erase(np);
    f->nlink = 0;
    if (S->disk_free != INT64_MAX && f->alloc > 0) {
        S->disk_free += f->alloc;
        f->alloc = 0;
    }
    return 0;
}
int unlink(const char* path)
{
    if (lib())
        return v_unlink(path, RPC);
    return (int)sysret(raw_syscall(SYS_unlink, (long)path));
}
int remove(const char* path)
{
    if (lib())
        return v_unlink(path, RPC);
    REAL(int, remove, const char*)
    return real_remove(path);
}
int rmdir(const char* path)
{
    if (lib()) {
        std::string np = norm_path(path);
        VFile* f = vfs_lookup(np);
        if (!f || f->type != V_DIR) { errno = f ? ENOTDIR : ENOENT; return -1; }
        S->paths.erase(np);
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_rmdir, (long)path));
}
int rename(const char* a, const char* b)
{
    if (lib()) {
        std::string na = norm_path(a), nb = norm_path(b);
        VFile* f = vfs_lookup(na);
        sysy(f, 0, true, RPC);
        if (const FaultSpec* fs = fault("rename", na)) { errno = fs->err; return -1; }
        f = vfs_lookup(na);
        if (!f) { errno = ENOENT; return -1; }
        S->paths.erase(na);
        S->paths[nb] = f;
        f->name = nb;
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_rename, (long)a, (long)b));
}
int mkdir(const char* path, mode_t m)
{
    if (lib()) {
        if (vfs_lookup(path)) { errno = EEXIST; return -1; }
        vfs_create(path, V_DIR);
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_mkdir, (long)path, m));
}
int mkfifo(const char* path, mode_t m)
{
    if (lib()) {
        sysy(nullptr, 0, true, RPC);
        if (const FaultSpec* fs = fault("mkfifo", norm_path(path))) { errno = fs->err; return -1; }
        if (vfs_lookup(path)) { errno = EEXIST; return -1; }
        vfs_create(path, V_FIFO);
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_mknod, (long)path, m | S_IFIFO, 0));
}
int chmod(const char* path, mode_t m)
{
    if (lib())
        return 0;
    return (int)sysret(raw_syscall(SYS_chmod, (long)path, m));
}
mode_t umask(mode_t m)
{
    if (lib())
        return 022;
    return (mode_t)raw_syscall(SYS_umask, m);
}
ssize_t readlink(const char* p, char* b, size_t n)
{
    if (lib()) { errno = EINVAL; return -1; }
    return sysret(raw_syscall(SYS_readlink, (long)p, (long)b, n));
}

// directories
struct FakeDir { uint64_t magic; std::vector<std::string> names; size_t i; struct dirent de; };
static const uint64_t FD_MAGIC = 0xd1d1d1d1feedf00dULL;
DIR* opendir(const char* path)
{
    if (lib()) {
        std::string np = norm_path(path);
        VFile* f = vfs_lookup(np);
        sysy(f, 0, false, RPC);
        if (const FaultSpec* fs = fault("opendir", np)) { errno = fs->err; return nullptr; }
        if (!f || f->type != V_DIR) { errno = ENOENT; return nullptr; }
        FakeDir* d = new FakeDir;
        d->magic = FD_MAGIC;
        d->i = 0;
        d->names.push_back(".");
        d->names.push_back("..");
        std::string pre = np == "/" ? "/" : np + "/";
        for (auto& kv : S->paths)
            if (kv.first.size() > pre.size() && kv.first.compare(0, pre.size(), pre) == 0 && kv.first.find('/', pre.size()) == std::string::npos)
                d->names.push_back(kv.first.substr(pre.size()));
        return (DIR*)d;
    }
    REAL(DIR*, opendir, const char*)
    return real_opendir(path);
}
struct dirent* readdir(DIR* dp)
{
    if (lib() && dp && ((FakeDir*)dp)->magic == FD_MAGIC) {
        FakeDir* d = (FakeDir*)dp;
        if (d->i >= d->names.size())
            return nullptr;
        memset(&d->de, 0, sizeof d->de);
        snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->i++].c_str());
        d->de.d_ino = 1;
        d->de.d_type = DT_UNKNOWN;
        return &d->de;
    }
    REAL(struct dirent*, readdir, DIR*)
    return real_readdir(dp);
}
struct dirent64* readdir64(DIR* dp) { return (struct dirent64*)readdir(dp); }
int closedir(DIR* dp)
{
    if (lib() && dp && ((FakeDir*)dp)->magic == FD_MAGIC) {
        delete (FakeDir*)dp;
        return 0;
    }
    REAL(int, closedir, DIR*)
    return real_closedir(dp);
}

// stdio: real FILE objects over a private re-open of the memfd
static std::map<FILE*, VFile*> stdio_files;
static std::string stdio_name(FILE* fp) { auto it = stdio_files.find(fp); return it == stdio_files.end() ? "" : it->second->name; }
static FILE* v_fopen(const char* path, const char* mode, void* pc)
{
    std::string np = norm_path(path), txt;
    if (proc_stat_text(np, txt)) {
        yield_point(Y_SYS, 249, 0, false, pc);
        OutLib o;
        return fdopen(real_memfd_of_text(txt), "r");
    }
    bool wr = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
    VFile* f = vfs_lookup(np);
    sysy(f, 0, mode[0] == 'w', pc);
    if (const FaultSpec* fs = fault("fopen", np)) { errno = fs->err; return nullptr; }
    f = vfs_lookup(np);
    if (!f) {
        if (mode[0] == 'r') { errno = ENOENT; return nullptr; }
        VFile* d = vfs_lookup(dirname_of(np));
        if (!d || d->type != V_DIR) { errno = ENOENT; return nullptr; }
        f = vfs_create(np, V_REG);
    }
    if (f->type != V_REG) { errno = EISDIR; return nullptr; }
    if (mode[0] == 'w') {
        raw_syscall(SYS_ftruncate, f->memfd, 0);
        f->size = 0;
    }
    char b[64];
    snprintf(b, sizeof b, "/proc/self/fd/%d", f->memfd);
    int fd = (int)raw_syscall(SYS_openat, AT_FDCWD, (long)b, wr ? O_RDWR : O_RDONLY, 0);
    if (fd < 0) {
        fprintf(stderr, "sim: reopen %s failed %d\n", b, fd);
        _exit(70);
    }
    FILE* fp;
    {
        OutLib o;
        fp = fdopen(fd, mode);
        stdio_files[fp] = f;
    }
    return fp;
}
static void sync_sizes()
{
    // sizes of files written through real FILE objects
    for (VFile* f : S->files)
        if (f->type == V_REG && f->memfd >= 0) {
            struct stat st;
            if (raw_syscall(SYS_fstat, f->memfd, (long)&st) == 0)
                f->size = st.st_size;
        }
}
FILE* fopen(const char* path, const char* mode)
{
    if (lib())
        return v_fopen(path, mode, RPC);
    REAL(FILE*, fopen, const char*, const char*)
    return real_fopen(path, mode);
}
FILE* fopen64(const char* path, const char* mode)
{
    if (lib())
        return v_fopen(path, mode, RPC);
    REAL(FILE*, fopen64, const char*, const char*)
    return real_fopen64(path, mode);
}
size_t fread(void* b, size_t sz, size_t n, FILE* fp)
{
    REAL(size_t, fread, void*, size_t, size_t, FILE*)
    if (lib()) {
        yield_point(Y_SYS, 248, 0, false, RPC);
        if (const FaultSpec* fs = fault("fread", stdio_name(fp))) {
            fp->_flags |= 0x20; // the stream's error indicator
            errno = fs->err;
            return 0;
        }
        OutLib o;
        return real_fread(b, sz, n, fp);
    }
    return real_fread(b, sz, n, fp);
}
size_t fwrite(const void* b, size_t sz, size_t n, FILE* fp)
{
    REAL(size_t, fwrite, const void*, size_t, size_t, FILE*)
    if (lib()) {
        yield_point(Y_SYS, 248, 1, true, RPC);
        if (const FaultSpec* fs = fault("fwrite", stdio_name(fp))) {
            size_t r = 0;
            if (fs->mode == "short" && n > 1) {
                OutLib o;
                r = real_fwrite(b, sz, n / 2, fp);
            }
            fp->_flags |= 0x20;
            errno = fs->err;
            return r;
        }
        auto it = stdio_files.find(fp);
        if (S->disk_free != INT64_MAX && it != stdio_files.end()) {
            int64_t need = (int64_t)(sz * n);
            if (need > S->disk_free) {
                S->st.faults["disk_full"]++;
                fp->_flags |= 0x20;
                errno = ENOSPC;
                return 0;
            }
            S->disk_free -= need;
            it->second->alloc += need;
        }
        OutLib o;
        size_t r = real_fwrite(b, sz, n, fp);
        return r;
    }
    return real_fwrite(b, sz, n, fp);
}
int fflush(FILE* fp)
{
    REAL(int, fflush, FILE*)
    int r = real_fflush(fp);
    if (lib())
        sync_sizes();
    return r;
}
int fclose(FILE* fp)
{
    REAL(int, fclose, FILE*)
    if (lib()) {
        yield_point(Y_SYS, 248, 2, true, RPC);
        int r;
        {
            OutLib o;
            VFile* f = stdio_files.count(fp) ? stdio_files[fp] : nullptr;
            stdio_files.erase(fp);
            bool wr = __fwritable(fp);
            r = real_fclose(fp);
            if (f && wr)
                if (const FaultSpec* fs = fault("fclose", f->name)) { // a delayed write error
                    struct stat st;
                    if (raw_syscall(SYS_fstat, f->memfd, (long)&st) == 0 && st.st_size > 0)
                        raw_syscall(SYS_ftruncate, f->memfd, st.st_size > 4096 ? st.st_size - 4096 : st.st_size / 2);
                    r = EOF;
                    errno = fs->err;
                }
        }
        sync_sizes();
        return r;
    }
    return real_fclose(fp);
}

// ------------------------------------------------------------------ locks
static int do_fcntl(int fd, int cmd, long arg, void* pc)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        switch (cmd) {
        case F_SETLK:
        case F_SETLKW:
        case F_OFD_SETLK:
        case F_OFD_SETLKW: {
            struct flock* fl = (struct flock*)arg;
            VFile* f = d->f;
            sysy(f, 0, true, pc);
            if (const FaultSpec* fs = fault("fcntl", f->name)) { errno = fs->err; return -1; }
            int me = self->proc->id;
            if (fl->l_type == F_UNLCK) {
                if (f->lock_owner == me)
                    f->lock_owner = 0;
                return 0;
            }
            for (;;) {
                if (f->lock_owner == 0 || f->lock_owner == me) {
                    f->lock_owner = me;
                    return 0;
                }
                if (cmd == F_SETLK || cmd == F_OFD_SETLK) { probe("fcntl_lock_conflict"); errno = EAGAIN; return -1; }
                block_on([f] { return f->lock_owner == 0; }, 0, "fcntl lock");
            }
        }
        case F_GETLK: {
            struct flock* fl = (struct flock*)arg;
            if (d->f->lock_owner == 0 || d->f->lock_owner == self->proc->id)
                fl->l_type = F_UNLCK;
            else {
                fl->l_type = F_WRLCK;
                fl->l_pid = 0;
                for (Proc* p : S->procs)
                    if (p->id == d->f->lock_owner)
                        fl->l_pid = p->pid;
            }
            return 0;
        }
        case F_GETFL: return d->flags;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC: return install(d);
        default: return 0;
        }
    }
    return (int)sysret(raw_syscall(SYS_fcntl, fd, cmd, arg));
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return do_fcntl(fd, cmd, a, RPC);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return do_fcntl(fd, cmd, a, RPC);
}
int flock(int fd, int op)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return -1; }
        sysy(d->f, 0, true, RPC);
        if (const FaultSpec* fs = fault("flock", d->f->name)) { errno = fs->err; return -1; }
        int k = op & ~LOCK_NB;
        if (k == LOCK_UN) { d->flock_mode = 0; return 0; }
        int want = k == LOCK_EX ? 2 : 1;
        auto ok = [d, want] {
            for (VDesc* o : all_descs())
                if (o != d && o->refs > 0 && o->f == d->f && o->flock_mode && (want == 2 || o->flock_mode == 2))
                    return false;
            return true;
        };
        d->flock_mode = 0;
        if (!ok()) {
            probe("flock_wait");
            if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
            block_on(ok, 0, "flock");
        }
        d->flock_mode = want;
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_flock, fd, op));
}

// ------------------------------------------------------------------ memory
static void* do_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off, void* pc)
{
    if (lib() && fd >= VFD_BASE) {
        VDesc* d = getd(fd);
        if (!d) { errno = EBADF; return MAP_FAILED; }
        sysy(d->f, off, false, pc);
        if (const FaultSpec* fs = fault("mmap", d->f->name)) { errno = fs->err; return MAP_FAILED; }
        char* r;
        if ((flags & MAP_FIXED) && addr && in_region(addr)) {
            r = (char*)raw_syscall(SYS_mmap, (long)addr, len, prot, flags, d->f->memfd, off);
        } else
            r = v_map(d->f, len, prot, flags, off);
        if ((unsigned long)r > (unsigned long)-4096) { errno = (int)-(long)r; return MAP_FAILED; }
        return r;
    }
    if (lib() && !self->jm && fd == -1 && (flags & MAP_ANONYMOUS) && !addr) {
        // anonymous memory shared between the threads of a memory-only database
        sysy(nullptr, 0, false, pc);
        if (const FaultSpec* fs = fault("mmap", "anon")) { errno = fs->err; return MAP_FAILED; }
        VFile* f = vfs_create("anon", V_ANON);
        raw_syscall(SYS_ftruncate, f->memfd, len);
        f->size = (int64_t)len;
        char* r = v_map(f, len, prot, MAP_SHARED, 0);
        if ((unsigned long)r > (unsigned long)-4096) { errno = (int)-(long)r; return MAP_FAILED; }
        return r;
    }
    return (void*)sysret(raw_syscall(SYS_mmap, (long)addr, len, prot, flags, fd, off));
}
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) { return do_mmap(addr, len, prot, flags, fd, off, RPC); }
void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) { return do_mmap(addr, len, prot, flags, fd, off, RPC); }
int munmap(void* a, size_t len)
{
    if (S && in_region(a)) {
        if (lib())
            yield_point(Y_SYS, 247, 0, false, RPC);
        // keep the addresses reserved so that a use after unmap faults
        raw_syscall(SYS_mmap, (long)a, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_munmap, (long)a, len));
}
int msync(void* a, size_t len, int fl)
{
    if (lib() && in_region(a)) {
        yield_point(Y_SYS, 246, 0, false, RPC);
        if (const FaultSpec* fs = fault("msync", "")) { errno = fs->err; return -1; }
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_msync, (long)a, len, fl));
}
int madvise(void* a, size_t len, int adv)
{
    if (lib() && in_region(a))
        yield_point(Y_SYS, 245, 0, adv == MADV_REMOVE, RPC);
    return (int)sysret(raw_syscall(SYS_madvise, (long)a, len, adv));
}

// ------------------------------------------------------------------ time
static uint64_t mono() { return S->now - S->t0 + 1000000000000ULL; }
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (lib()) {
        uint64_t n = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? S->now : mono();
        ts->tv_sec = n / 1000000000ULL;
        ts->tv_nsec = n % 1000000000ULL;
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_clock_gettime, c, (long)ts));
}
int gettimeofday(struct timeval* tv, void* tz)
{
    if (lib()) {
        tv->tv_sec = S->now / 1000000000ULL;
        tv->tv_usec = S->now % 1000000000ULL / 1000;
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_gettimeofday, (long)tv, (long)tz));
}
time_t time(time_t* t)
{
    time_t v;
    if (lib())
        v = (time_t)(S->now / 1000000000ULL);
    else {
        struct timespec ts;
        raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts);
        v = ts.tv_sec;
    }
    if (t)
        *t = v;
    return v;
}
int nanosleep(const struct timespec* rq, struct timespec* rm)
{
    if (lib()) {
        if (const FaultSpec* fs = fault("nanosleep", "")) {
            if (rm) *rm = *rq;
            errno = fs->err;
            return -1;
        }
        sleep_ns((uint64_t)rq->tv_sec * 1000000000ULL + rq->tv_nsec + 50);
        return 0;
    }
    return (int)sysret(raw_syscall(SYS_nanosleep, (long)rq, (long)rm));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* rq, struct timespec* rm)
{
    if (lib()) {
        uint64_t t = (uint64_t)rq->tv_sec * 1000000000ULL + rq->tv_nsec;
        if (fl & TIMER_ABSTIME) {
            uint64_t n = c == CLOCK_REALTIME ? S->now : mono();
            t = t > n ? t - n : 0;
        }
        sleep_ns(t + 50);
        return 0;
    }
    return (int)-raw_syscall(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm);
}
int usleep(useconds_t us)
{
    if (lib()) {
        sleep_ns((uint64_t)us * 1000 + 50);
        return 0;
    }
    struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
    return (int)sysret(raw_syscall(SYS_nanosleep, (long)&ts, 0));
}
unsigned sleep(unsigned s)
{
    if (lib()) {
        sleep_ns((uint64_t)s * 1000000000ULL);
        return 0;
    }
    struct timespec ts = { (time_t)s, 0 };
    raw_syscall(SYS_nanosleep, (long)&ts, 0);
    return 0;
}
int sched_yield(void)
{
    if (lib()) {
        sleep_ns(50);
        return 0;
    }
    return (int)raw_syscall(SYS_sched_yield);
}
int poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (lib() && n >= 1 && p[0].fd >= VFD_BASE) {
        VDesc* d = getd(p[0].fd);
        if (!d) { p[0].revents = POLLNVAL; return 1; }
        VFile* f = d->f;
        sysy(f, 0, false, RPC);
        if (const FaultSpec* fs = fault("poll", f->name)) { errno = fs->err; return -1; }
        int ev_ = p[0].events;
        int acc = d->flags & O_ACCMODE;
        auto state = [f, d, ev_, acc]() -> int {
            int r = 0;
            if (f->type != V_FIFO)
                return ev_ & (POLLIN | POLLOUT);
            if (f->writers > 0)
                d->off = 1;
            if (acc != O_WRONLY) {
                if (!f->buf.empty())
                    r |= ev_ & POLLIN;
                if (f->writers == 0 && d->off)
                    r |= POLLHUP;
            } else {
                if (f->buf.size() < 65536)
                    r |= ev_ & POLLOUT;
                if (f->readers == 0)
                    r |= POLLERR;
            }
            return r;
        };
        int r = state();
        if (!r && timeout != 0) {
            block_on([state] { return state() != 0; }, timeout < 0 ? 0 : (uint64_t)timeout * 1000000ULL, "poll");
            r = state();
        }
        p[0].revents = (short)r;
        return r ? 1 : 0;
    }
    return (int)sysret(raw_syscall(SYS_poll, (long)p, n, timeout));
}

// ------------------------------------------------------------------ process
pid_t getpid(void)
{
    if (lib() && self->proc)
        return self->proc->pid;
    return (pid_t)raw_syscall(SYS_getpid);
}
pid_t gettid(void)
{
    if (lib() && self->proc)
        return self->proc->pid * 100 + self->id;
    return (pid_t)raw_syscall(SYS_gettid);
}
int kill(pid_t pid, int sig)
{
    if (lib()) {
        yield_point(Y_SYS, 244, 0, false, RPC);
        for (Proc* p : S->procs)
            if (p->pid == pid && p->alive) {
                if (sig != 0)
                    probe("kill_signal_recorded");
                return 0;
            }
        errno = ESRCH;
        return -1;
    }
    return (int)sysret(raw_syscall(SYS_kill, pid, sig));
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (lib()) {
        if (n == SYS_gettid)
            return gettid();
        if (n == SYS_getpid)
            return getpid();
        if (n == SYS_futex) {
            int op = (int)a[1] & 127;
            int* u = (int*)a[0];
            int val = (int)a[2];
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                if (__atomic_load_n(u, __ATOMIC_RELAXED) != val) { errno = EAGAIN; return -1; }
                block_on([u, val] { return __atomic_load_n(u, __ATOMIC_RELAXED) != val; }, 0, "futex");
                return 0;
            }
            return 0;
        }
    }
    return sysret(raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ------------------------------------------------------------------ pthread
#define M_OD 0x40000000
#define M_NR 0x7fffffff
static int m_me() { return 1000 + self->id; }
static int sim_lock(pthread_mutex_t* m, bool timed, uint64_t timeout, bool try_, void* pc)
{
    int f = 0;
    uint64_t off = 0;
    bool shared = in_region(m);
    if (shared)
        region_lookup(m, f, off);
    yield_point(Y_SYNC, shared ? f : 254, off, shared, pc);
    int kind = m->__data.__kind;
    if (m->__data.__lock == m_me()) {
        if ((kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        if ((kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try_) return EBUSY;
    }
    auto free_ = [m] { int l = m->__data.__lock; return l == 0 || l == M_OD || l == M_NR; };
    if (!free_()) {
        if (try_)
            return EBUSY;
        probe("mutex_wait");
        if (timed && timeout == 0)
            return ETIMEDOUT;
        // a mutex that is not process-shared does not wake waiters in other processes
        int ow = m->__data.__lock - 1000;
        bool deaf = shared && !(kind & 128) && ow >= 0 && ow < (int)S->thr.size() && S->thr[ow]->proc != self->proc;
        if (!block_on(deaf ? std::function<bool()>([] { return false; }) : std::function<bool()>(free_), timed ? timeout : 0, "mutex")) {
            probe("mutex_timeout");
            return ETIMEDOUT;
        }
    }
    if (m->__data.__lock == M_NR)
        return ENOTRECOVERABLE;
    bool od = m->__data.__lock == M_OD;
    m->__data.__lock = m_me();
    m->__data.__owner = od ? -1 : m_me(); // -1: inconsistent
    m->__data.__count = 1;
    if (self->proc)
        self->proc->held.insert(m);
    if (od) {
        probe("robust_owner_died");
        return EOWNERDEAD;
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (lib())
        return sim_lock(m, false, 0, false, RPC);
    REAL(int, pthread_mutex_lock, pthread_mutex_t*)
    return real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (lib())
        return sim_lock(m, false, 0, true, RPC);
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
    return real_pthread_mutex_trylock(m);
}
static uint64_t until_(clockid_t c, const struct timespec* ts)
{
    uint64_t t = (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec;
    uint64_t n = c == CLOCK_REALTIME ? S->now : mono();
    return t > n ? t - n : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (lib())
        return sim_lock(m, true, until_(CLOCK_REALTIME, ts), false, RPC);
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*)
    return real_pthread_mutex_timedlock(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
    if (lib())
        return sim_lock(m, true, until_(c, ts), false, RPC);
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*)
    return real_pthread_mutex_clocklock(m, c, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (lib()) {
        int f = 0;
        uint64_t off = 0;
        bool shared = in_region(m);
        if (shared)
            region_lookup(m, f, off);
        yield_point(Y_SYNC, shared ? f : 254, off, shared, RPC);
        int kind = m->__data.__kind;
        if (m->__data.__lock != m_me()) {
            probe("unlock_not_owner");
            if ((kind & 3) == PTHREAD_MUTEX_ERRORCHECK || (kind & 48))
                return EPERM;
            if (m->__data.__lock == 0)
                return 0;
        } else if ((kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1) {
            m->__data.__count--;
            return 0;
        }
        if (self->proc)
            self->proc->held.erase(m);
        bool incons = m->__data.__owner == -1;
        m->__data.__count = 0;
        m->__data.__owner = 0;
        m->__data.__lock = incons ? M_NR : 0;
        return 0;
    }
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
    return real_pthread_mutex_unlock(m);
}
int pthread_mutex_consistent(pthread_mutex_t* m)
{
    if (lib()) {
        if (m->__data.__owner != -1)
            return EINVAL;
        m->__data.__owner = m_me();
        return 0;
    }
    REAL(int, pthread_mutex_consistent, pthread_mutex_t*)
    return real_pthread_mutex_consistent(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (lib())
        return 0;
    REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
    return real_pthread_mutex_destroy(m);
}

struct CV { uint64_t seq = 0; uint64_t wakes = 0; uint64_t waiters = 0; };
static std::map<void*, CV>* cvs;
static CV& cv(void* c)
{
    if (!cvs)
        cvs = new std::map<void*, CV>;
    return (*cvs)[c];
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t to)
{
    CV* v = &cv(c);
    v->waiters++;
    pthread_mutex_unlock(m);
    bool ok = (timed && to == 0) ? false : block_on([v] { return v->wakes > 0; }, timed ? to : 0, "cond");
    if (ok && v->wakes > 0)
        v->wakes--;
    v->waiters--;
    pthread_mutex_lock(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (lib())
        return cv_wait(c, m, false, 0);
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
    return real_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (lib())
        return cv_wait(c, m, true, until_(CLOCK_REALTIME, ts));
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
    return real_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (lib())
        return cv_wait(c, m, true, until_(k, ts));
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
    return real_pthread_cond_clockwait(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (lib()) {
        CV& v = cv(c);
        if (v.wakes < v.waiters)
            v.wakes++;
        return 0;
    }
    REAL(int, pthread_cond_signal, pthread_cond_t*)
    return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (lib()) {
        CV& v = cv(c);
        v.wakes = v.waiters;
        return 0;
    }
    REAL(int, pthread_cond_broadcast, pthread_cond_t*)
    return real_pthread_cond_broadcast(c);
}
// rwlock: private state keyed by address
struct RW { int r = 0; int w = 0; };
static std::map<void*, RW>* rws;
static RW& rwl(void* p)
{
    if (!rws)
        rws = new std::map<void*, RW>;
    return (*rws)[p];
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (lib()) {
        yield_point(Y_SYNC, 253, 0, false, RPC);
        RW* s = &rwl(l);
        block_on([s] { return s->w == 0; }, 0, "rwlock");
        s->r++;
        return 0;
    }
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
    return real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (lib()) {
        yield_point(Y_SYNC, 253, 0, false, RPC);
        RW* s = &rwl(l);
        block_on([s] { return s->w == 0 && s->r == 0; }, 0, "rwlock");
        s->w = 1;
        return 0;
    }
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
    return real_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (lib()) {
        yield_point(Y_SYNC, 253, 0, false, RPC);
        RW& s = rwl(l);
        if (s.w) s.w = 0; else if (s.r) s.r--;
        return 0;
    }
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
    return real_pthread_rwlock_unlock(l);
}
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (lib()) {
        yield_point(Y_SYNC, 252, 0, true, RPC);
        if (const FaultSpec* fs = fault("pthread_create", ""))
            return fs->err;
        Thr* th;
        {
            OutLib o;
            th = spawn(self->proc, [fn, arg] { InLib l; fn(arg); }, true, "libthread");
        }
        *t = th->pt;
        return 0;
    }
    return real_pthread_create(t, at, fn, arg);
}
int pthread_join(pthread_t t, void** rv)
{
    if (lib()) {
        for (Thr* th : S->thr)
            if (pthread_equal(th->pt, t)) {
                block_on([th] { return th->st == T_DONE; }, 0, "join");
                if (rv)
                    *rv = nullptr;
                return 0;
            }
        return ESRCH;
    }
    REAL(int, pthread_join, pthread_t, void**)
    return real_pthread_join(t, rv);
}
int pthread_detach(pthread_t t)
{
    if (lib())
        return 0;
    REAL(int, pthread_detach, pthread_t)
    return real_pthread_detach(t);
}

// ------------------------------------------------------------------ jemalloc
// The real allocator, linked in with its public names prefixed by jx_; calls are
// not preempted because all simulated processes share the one allocator.
void sim_load_jemalloc() {}
#define JE(ret, name, params, args)                                   \
    ret jx_##name params;                                             \
    ret name params                                                   \
    {                                                                 \
        auto f = jx_##name;                                           \
        if (!lib())                                                   \
            return f args;                                            \
        yield_point(Y_SYNC, 243, 0, true, RPC);                       \
        struct G { G() { self->jm++; self->nopre++; } ~G() { self->jm--; self->nopre--; } } g; \
        return f args;                                                \
    }
JE(void*, mallocx, (size_t n, int f_), (n, f_))
JE(void*, rallocx, (void* p, size_t n, int f_), (p, n, f_))
JE(size_t, xallocx, (void* p, size_t n, size_t x, int f_), (p, n, x, f_))
JE(size_t, sallocx, (const void* p, int f_), (p, f_))
JE(size_t, nallocx, (size_t n, int f_), (n, f_))
JE(int, mallctl, (const char* n, void* o, size_t* ol, void* w, size_t wl), (n, o, ol, w, wl))
void jx_dallocx(void* p, int f_);
void dallocx(void* p, int f_)
{
    auto f = jx_dallocx;
    if (!lib()) {
        f(p, f_);
        return;
    }
    yield_point(Y_SYNC, 243, 1, true, RPC);
    self->jm++;
    self->nopre++;
    f(p, f_);
    self->jm--;
    self->nopre--;
}
void sdallocx(void* p, size_t, int f_) { dallocx(p, f_); }
}
