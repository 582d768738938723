#pragma once
#include <pthread.h>
#include <stdint.h>
static inline long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
namespace sim {
int real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
void region_set(char* addr, uint64_t len, int file, uint64_t off);
}
