// Fault points: every file-system operation the code under test makes through libc is one numbered step. At a chosen step
// the process dies (after a chosen part of a write reached the file), or the operation fails, once or from then on.
#ifndef VERIF_FAULTS_HPP
#define VERIF_FAULTS_HPP

#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include "mc.hpp"

namespace faults {
    enum Mode { COUNT, CRASH, FAIL_ONCE, DISK_FULL };
    inline bool active = false;
    inline bool reads = false;          // reads are steps as well
    inline Mode mode = COUNT;
    inline long at = 0, step = 0;
    inline int part = 0;                // 0 nothing, 1 one byte, 2 half, 3 all but one byte, 4 all
    inline std::vector<std::pair<std::string, size_t>> log;

    inline void start(Mode m, long a, int p) {
        mode = m;
        at = a;
        part = p;
        step = 0;
        log.clear();
        active = true;
    }

    inline void stop() { active = false; }

    inline size_t torn(size_t n) { return part == 0 ? 0 : part == 1 ? std::min<size_t>(1, n) : part == 2 ? n / 2 : part == 3 ? (n ? n - 1 : 0) : n; }

    // returns true when the operation has to fail; crashes unless it is a write (torn writes are done by the caller)
    inline bool point(const char *what, const char *name, size_t size, bool is_write, bool uses_space) {
        step++;
        if (mode == COUNT) {
            active = false;
            log.push_back({std::string(what) + " " + (name ? name : ""), size});
            active = true;
            return false;
        }
        if (mode == CRASH && step == at) {
            if (!is_write) _exit(77);
            return true;
        }
        if (mode == FAIL_ONCE && step == at) return true;
        if (mode == DISK_FULL && step >= at && uses_space) return true;
        return false;
    }
}

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
    if (faults::active && fd > 2 && faults::point("write", nullptr, n, true, true)) {
        if (faults::mode == faults::CRASH) {
            syscall(SYS_write, fd, b, faults::torn(n));
            _exit(77);
        }
        if (faults::mode == faults::DISK_FULL && faults::step == faults::at) {
            size_t k = faults::torn(n);
            if (k) return syscall(SYS_write, fd, b, k);
        }
        errno = faults::mode == faults::DISK_FULL ? ENOSPC : EIO;
        return -1;
    }
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!faults::active || fd <= 2) return syscall(SYS_writev, fd, v, c);
    std::string all;
    for (int i = 0; i < c; i++) all.append((const char *) v[i].iov_base, v[i].iov_len);
    return write(fd, all.data(), all.size());
}

ssize_t read(int fd, void *b, size_t n) {
    if (faults::active && faults::reads && fd > 2 && faults::point("read", nullptr, n, false, false)) {
        errno = EIO;
        return -1;
    }
    return syscall(SYS_read, fd, b, n);
}

FILE *fopen64(const char *p, const char *m) {
    static auto real = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
    bool w = m[0] != 'r';
    if (faults::active && faults::point(w ? "create" : "open", p, 0, false, w)) {
        errno = w ? ENOSPC : EIO;
        return nullptr;
    }
    return real(p, m);
}

FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }

int rename(const char *a, const char *b) {
    if (faults::active && faults::point("rename", a, 0, false, true)) {
        errno = ENOSPC;
        return -1;
    }
    return syscall(SYS_rename, a, b);
}

int unlink(const char *a) {
    if (faults::active && faults::point("unlink", a, 0, false, false)) {
        errno = EIO;
        return -1;
    }
    return syscall(SYS_unlink, a);
}

int remove(const char *a) {
    if (faults::active && faults::point("remove", a, 0, false, false)) {
        errno = EIO;
        return -1;
    }
    int r = syscall(SYS_unlink, a);
    if (r != 0 && errno == EISDIR) r = syscall(SYS_rmdir, a);
    return r;
}

int unlinkat(int d, const char *a, int f) {
    if (faults::active && faults::point("unlinkat", a, 0, false, false)) {
        errno = EIO;
        return -1;
    }
    return syscall(SYS_unlinkat, d, a, f);
}

int mkdir(const char *a, mode_t m) {
    if (faults::active && faults::point("mkdir", a, 0, false, true)) {
        errno = ENOSPC;
        return -1;
    }
    return syscall(SYS_mkdir, a, m);
}
}

namespace faults {
    // runs f in a forked child with a fault; returns its exit status (77: it was killed at the step), -1 for a signal
    template<class F>
    int in_child(Mode m, long a, int p, F f) {
        pid_t pid = fork();
        if (pid == 0) {
            start(m, a, p);
            int r = f();
            stop();
            _exit(r);
        }
        int w = 0;
        while (waitpid(pid, &w, 0) < 0 && errno == EINTR) {}
        return WIFEXITED(w) ? WEXITSTATUS(w) : -1;
    }
}
#endif
