// Small helpers: a scratch database directory, and a child process that is run
// instruction by instruction (ptrace of our own child) so that it can be killed
// or observed at a precise point.
#pragma once
#include "db.h"
#include "mabain_consts.h"
#include "error.h"
#include "mb_data.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <signal.h>
#include <string>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace mabain;
static std::string scratch;
static int bad(const std::string& m)
{
    fprintf(stderr, "DEMO: property broken: %s\n", m.c_str());
    fflush(stderr);
    _exit(1);
}
static void setup(char** argv)
{
    scratch = std::string(argv[1]) + "/db";
    DB::SetLogFile(std::string(argv[1]) + "/log");
    // a scratch directory of its own for the queue files
}
static void fresh()
{
    if (system(("mkdir -p " + scratch + " && find " + scratch + " -mindepth 1 -delete").c_str())) _exit(99);
}
static MBConfig conf(int opts, uint32_t bs = 4u << 20)
{
    MBConfig c;
    memset(&c, 0, sizeof c);
    c.mbdir = scratch.c_str();
    c.options = opts;
    c.block_size_index = bs;
    c.block_size_data = bs;
    c.memcap_index = c.memcap_data = 64 << 20;
    c.max_num_index_block = c.max_num_data_block = 64;
    c.num_entry_per_bucket = 500;
    c.queue_size = 16;
    c.queue_dir = scratch.c_str();
    return c;
}
static int rd_only() { return CONSTS::ACCESS_MODE_READER; }
static int wr() { return CONSTS::ACCESS_MODE_WRITER; }
static std::string get(DB& db, const std::string& k, int* rc = nullptr)
{
    MBData d;
    int r = db.Find(k, d);
    if (rc) *rc = r;
    if (r != MBError::SUCCESS) return r == MBError::NOT_EXIST ? "<absent>" : "<error " + std::to_string(r) + ">";
    return std::string((const char*)d.buff, d.data_len);
}
// Runs fn in a child. The child calls mark() (raises SIGSTOP); from then on it is
// single-stepped and step(n) is called after every instruction until it returns
// false (the child is then killed) or the child exits.  Returns the exit status or -1.
static void mark() { raise(SIGSTOP); }
static int stepped(const std::function<void()>& fn, const std::function<bool(long, pid_t)>& step)
{
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        fn();
        _exit(0);
    }
    int st;
    bool on = false;
    long n = 0;
    while (true) {
        if (waitpid(p, &st, 0) < 0) return -1;
        if (WIFEXITED(st)) return WEXITSTATUS(st);
        if (WIFSIGNALED(st)) return -1;
        int sig = WSTOPSIG(st), fwd = 0;
        if (sig == SIGSTOP && !on) on = true;
        else if (sig == SIGTRAP) {
            if (on && !step(n++, p)) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
        } else fwd = sig;
        ptrace(on ? PTRACE_SINGLESTEP : PTRACE_CONT, p, 0, fwd);
    }
}
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
static std::string file_of(const std::string& d, const char* name) { return d + "/" + name; }
static void copy_db(const std::string& from, const std::string& to)
{
    std::string c = "mkdir -p " + to + " && find " + to + " -mindepth 1 -delete && cp --sparse=always " + from + "/_mabain_[hid]* " + to + "/";
    if (system(c.c_str())) bad("copy failed");
}
// Runs fn in a single-stepped child and hands the state of the database files (what
// remains when the process is killed at that instruction) to check(directory): at every
// change of the database header, or, with every > 0, at every such number of instructions.
static void crash_states(const std::function<void()>& fn, long every, const std::function<void(const std::string&)>& check)
{
    std::string copy = scratch + "_copy";
    char* h = nullptr;
    size_t len = 0;
    std::string last;
    long states = 0;
    stepped(fn, [&](long n, pid_t) {
        if (!h) {
            int fd = open(file_of(scratch, "_mabain_h").c_str(), O_RDONLY);
            struct stat sb;
            if (fd < 0 || fstat(fd, &sb)) bad("no header file");
            len = sb.st_size < 4096 ? sb.st_size : 4096;
            h = (char*)mmap(nullptr, len, PROT_READ, MAP_SHARED, fd, 0);
            close(fd);
        }
        if (every > 0 ? n % every == 0 : memcmp(h, last.data(), len) != 0) {
            last.assign(h, len);
            copy_db(scratch, copy);
            check(copy);
            states++;
        }
        return true;
    });
    fprintf(stderr, "%ld crash states\n", states);
}
