// Runs a function in a fresh child process (static state as at program start) and brings an array of values back.
#pragma once
#include "engine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <csignal>
#include <unistd.h>
#include <functional>
namespace pbt {
template <class T> struct Shared {
    T* p; size_t n;
    explicit Shared(size_t n): n(n? n: 1) { p = (T*) mmap(nullptr, sizeof(T) * this->n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    ~Shared() { munmap(p, sizeof(T) * n); }
    Shared(const Shared&) = delete;
    T& operator[](size_t i) { return p[i]; }
};
/// exit status of the child as seen by waitpid; 0 when it returned normally
inline int in_child(const std::function<void()>& f) {
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); f(); _exit(0); }
    int st = -1;
    while (waitpid(pid, &st, 0) < 0) {}
    return st;
}
}
