// Deterministic scheduling of real threads.  The executable interposes the blocking primitives of pthreads and
// of std::future; in controlled mode exactly one thread runs at a time, every primitive is a scheduling point,
// and the choices (who runs next, which waiter is signalled, spurious wake-ups) are taken from a prefix, then by
// a default or random strategy.  Each run happens in a forked child; the parent searches the tree of choices.
#pragma once
#include <algorithm>
#include <atomic>
#include <bits/atomic_futex.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <functional>
#include <future>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sched {
    constexpr int MAXC = 6000, MAXO = 16;
    struct Shm {
        int n;                       // choices taken
        uint8_t chosen[MAXC], count[MAXC], cost[MAXC][MAXO];
        int status;                  // 0 running, 1 finished, 2 stuck, 3 too long, 4 diverged from the prefix
        char stuck[400];
        size_t len;
        char out[1 << 16];
    };
    enum State { RUN, MUTEX, COND, JOIN, FUTEX, RWR, RWW, DONE };
    struct Th {
        int id;
        sem_t sem;
        State st = RUN;
        void* obj = nullptr;
        void* mtx = nullptr;
        unsigned val = 0;
        bool timed = false, timedout = false;
        pthread_t real;
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        Th* target = nullptr;
        bool joined = false;
        bool op = false;             // inside an operation of the client program (for reporting)
    };
    struct Global {
        bool on = false;
        Shm* shm = nullptr;
        std::vector<Th*> th;
        std::map<void*, Th*> owner;           // virtual mutexes
        std::map<void*, int> depth;           // recursive ones
        std::map<void*, std::pair<int, Th*>> rw;
        std::vector<uint8_t> prefix;
        uint64_t rnd = 0;
        bool random = false;
        int spurious = 0;                     // budget
        int nprocs = 1;
        int permille = 0;                     // random strategy: chance to leave a running thread
    };
    inline Global& G() { static Global g; return g; }
    inline Th*& Me() { static thread_local Th* me = nullptr; return me; }
    template <class F> F Real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
#define SCHED_REAL(name) static auto real = sched::Real<decltype(&name)>(#name)

    inline bool On() { return G().on && Me(); }
    inline uint64_t Rand() { auto& r = G().rnd; r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; }

    inline void Log(const char* fmt, ...) {
        Shm* s = G().shm;
        va_list ap;
        va_start(ap, fmt);
        const size_t room = sizeof(s->out) - s->len;
        const int k = vsnprintf(s->out + s->len, room, fmt, ap);
        va_end(ap);
        if (k > 0 && static_cast<size_t>(k) < room) s->len += static_cast<size_t>(k);
    }
    [[noreturn]] inline void Finish(int status) { G().shm->status = status; _exit(0); }

    // costs: what each option adds to the number of preemptions and spurious events
    inline int Choose(const std::vector<int>& cost) {
        const int n = static_cast<int>(std::min<size_t>(cost.size(), MAXO));
        if (n == 1) return 0;
        Shm* s = G().shm;
        if (s->n >= MAXC) Finish(3);
        int c = 0;
        if (s->n < static_cast<int>(G().prefix.size())) {
            c = G().prefix[static_cast<size_t>(s->n)];
            if (c >= n) Finish(4);
        } else if (G().random) {
            if (cost[0] == 0 && cost[1] == 1) { if (static_cast<int>(Rand() % 1000) < G().permille) c = static_cast<int>(Rand() % static_cast<uint64_t>(n)); }
            else c = static_cast<int>(Rand() % static_cast<uint64_t>(n));
        }
        s->chosen[s->n] = static_cast<uint8_t>(c);
        s->count[s->n] = static_cast<uint8_t>(n);
        for (int i = 0; i < n; ++i) s->cost[s->n][i] = static_cast<uint8_t>(cost[static_cast<size_t>(i)]);
        ++s->n;
        return c;
    }

    inline bool Enabled(const Th* t) {
        switch (t->st) {
        case RUN: return true;
        case MUTEX: { auto p = G().owner.find(t->obj); return p == G().owner.end() || !p->second; }
        case JOIN: return t->target->st == DONE;
        case FUTEX: return __atomic_load_n(static_cast<unsigned*>(t->obj), __ATOMIC_SEQ_CST) != t->val;
        case RWR: return !G().rw[t->obj].second;
        case RWW: return !G().rw[t->obj].second && G().rw[t->obj].first == 0;
        default: return false;
        }
    }

    // hand over to some enabled thread; returns when this thread is chosen (never for a finished one)
    inline void Pick() {
        Th* me = Me();
        auto& g = G();
        for (;;) {
            std::vector<Th*> opt;
            std::vector<int> cost, kind;
            const bool cont = me->st != DONE && Enabled(me);
            if (cont) { opt.push_back(me); cost.push_back(0); kind.push_back(0); }
            for (Th* t : g.th)
                if (t != me && Enabled(t)) { opt.push_back(t); cost.push_back(cont ? 1 : 0); kind.push_back(0); }
            for (Th* t : g.th) {
                if (t->st == COND && t->timed) { opt.push_back(t); cost.push_back(opt.size() > 1 ? 1 : 0); kind.push_back(2); }
                else if (t->st == COND && g.spurious > 0 && !opt.empty()) { opt.push_back(t); cost.push_back(1); kind.push_back(1); }
                else if (t->st == FUTEX && t->timed) { opt.push_back(t); cost.push_back(opt.size() > 1 ? 1 : 0); kind.push_back(3); }
            }
            if (opt.empty()) {
                Shm* s = g.shm;
                size_t k = 0;
                for (Th* t : g.th) if (t->st != DONE && k < sizeof(s->stuck) - 24) k += static_cast<size_t>(snprintf(s->stuck + k, sizeof(s->stuck) - k, "%d:%d ", t->id, t->st));
                Finish(2);
            }
            const int c = Choose(cost);
            Th* t = opt[static_cast<size_t>(c)];
            const int kd = kind[static_cast<size_t>(c)];
            if (kd == 1 || kd == 2) {            // woken without a signal
                if (kd == 1) --g.spurious; else t->timedout = true;
                t->st = MUTEX;
                t->obj = t->mtx;
                continue;
            }
            if (kd == 3) { t->timedout = true; t->st = RUN; }
            if (t->st == MUTEX) g.owner[t->obj] = t;
            if (t->st == RWR) ++g.rw[t->obj].first;
            if (t->st == RWW) g.rw[t->obj].second = t;
            t->st = RUN;
            if (t == me) return;
            const bool gone = me->st == DONE;
            sem_post(&t->sem);
            if (gone) return;
            while (sem_wait(&me->sem) != 0) {}
            return;
        }
    }
    // a point where another thread may be scheduled
    inline void Point() { if (On()) Pick(); }
    inline void Block(State s, void* obj) { Th* me = Me(); me->st = s; me->obj = obj; Pick(); }

    inline void* Trampoline(void* p) {
        Th* t = static_cast<Th*>(p);
        Me() = t;
        while (sem_wait(&t->sem) != 0) {}
        void* r = t->fn(t->arg);
        t->st = DONE;
        Pick();
        Me() = nullptr;
        return r;
    }

    inline void Wake(void* c, bool all) {
        auto& g = G();
        std::vector<Th*> w;
        for (Th* t : g.th) if (t->st == COND && t->obj == c) w.push_back(t);
        if (w.empty()) return;
        if (!all) { Th* t = w[static_cast<size_t>(Choose(std::vector<int>(w.size(), 0)))]; w.assign(1, t); }
        for (Th* t : w) { t->st = MUTEX; t->obj = t->mtx; }
    }

    struct Search {
        Shm* shm;
        uint64_t runs = 0;
        Search() {
            shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            G().shm = shm;
        }
        ~Search() { munmap(shm, sizeof(Shm)); }
        // one run in a child; returns the exit status description ("" when it ended by itself)
        std::string Run(const std::function<void()>& body, const std::vector<uint8_t>& prefix, bool random, uint64_t seed, int permille, int spurious) {
            ++runs;
            shm->n = 0;
            shm->status = 0;
            shm->len = 0;
            shm->stuck[0] = 0;
            fflush(stdout);
            const pid_t pid = fork();
            if (pid == 0) {
                struct itimerval tv = {{0, 0}, {60, 0}};
                setitimer(ITIMER_REAL, &tv, nullptr);
                auto& g = G();
                g.prefix = prefix;
                g.random = random;
                g.rnd = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
                for (int i = 0; i < 8; ++i) Rand();
                g.permille = permille;
                g.spurious = spurious;
                Th* t = new Th;
                t->id = 0;
                sem_init(&t->sem, 0, 0);
                g.th.push_back(t);
                Me() = t;
                g.on = true;
                body();
                Finish(1);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "hang" : "crash signal " + std::to_string(WTERMSIG(st));
            if (WEXITSTATUS(st) != 0) return "exit " + std::to_string(WEXITSTATUS(st));
            return "";
        }
        // all schedules with at most `bound` preemptions and spurious wake-ups, up to `limit` runs; f sees each run
        bool Explore(const std::function<void()>& body, int bound, int spurious, uint64_t limit, const std::function<void(const std::string&)>& f) {
            std::vector<uint8_t> prefix;
            for (uint64_t k = 0; k < limit; ++k) {
                const std::string how = Run(body, prefix, false, 1, 0, spurious);
                f(how);
                const int n = std::min(shm->n, MAXC);
                std::vector<int> used(static_cast<size_t>(n) + 1, 0);
                for (int i = 0; i < n; ++i) used[static_cast<size_t>(i) + 1] = used[static_cast<size_t>(i)] + shm->cost[i][shm->chosen[i]];
                int i = n - 1, nxt = -1;
                for (; i >= 0 && nxt < 0; --i)
                    for (int c = shm->chosen[i] + 1; c < shm->count[i]; ++c)
                        if (used[static_cast<size_t>(i)] + shm->cost[i][c] <= bound) { nxt = c; break; }
                if (nxt < 0) return true;
                ++i;
                prefix.assign(shm->chosen, shm->chosen + i);
                prefix.push_back(static_cast<uint8_t>(nxt));
            }
            return false;
        }
    };
}

// ---------------------------------------------------------------------------------------------- interposition
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    SCHED_REAL(pthread_mutex_lock);
    if (!sched::On()) return real(m);
    auto& g = sched::G();
    auto p = g.owner.find(m);
    if (p != g.owner.end() && p->second == sched::Me() && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++g.depth[m]; return 0; }
    sched::Block(sched::MUTEX, m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    SCHED_REAL(pthread_mutex_trylock);
    if (!sched::On()) return real(m);
    sched::Point();
    auto& g = sched::G();
    auto p = g.owner.find(m);
    if (p != g.owner.end() && p->second) {
        if (p->second == sched::Me() && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++g.depth[m]; return 0; }
        return EBUSY;
    }
    g.owner[m] = sched::Me();
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    SCHED_REAL(pthread_mutex_unlock);
    if (!sched::On()) return real(m);
    auto& g = sched::G();
    auto p = g.owner.find(m);
    if (p == g.owner.end() || !p->second) return real(m);
    if (g.depth[m] > 0) { --g.depth[m]; return 0; }
    p->second = nullptr;
    sched::Point();
    return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    sched::Point();                       // a signal may come between the test and the wait, if the lock allows
    auto& g = sched::G();
    g.owner[m] = nullptr;
    sched::Th* me = sched::Me();
    me->mtx = m;
    me->timed = timed;
    me->timedout = false;
    sched::Block(sched::COND, c);
    me->timed = false;
    return me->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    SCHED_REAL(pthread_cond_wait);
    return sched::On() ? CondWait(c, m, false) : real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    SCHED_REAL(pthread_cond_timedwait);
    return sched::On() ? CondWait(c, m, true) : real(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    SCHED_REAL(pthread_cond_clockwait);
    return sched::On() ? CondWait(c, m, true) : real(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
    SCHED_REAL(pthread_cond_signal);
    if (!sched::On()) return real(c);
    sched::Point();
    sched::Wake(c, false);
    sched::Point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    SCHED_REAL(pthread_cond_broadcast);
    if (!sched::On()) return real(c);
    sched::Point();
    sched::Wake(c, true);
    sched::Point();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    SCHED_REAL(pthread_cond_destroy);
    return sched::On() ? 0 : real(c);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    SCHED_REAL(pthread_create);
    if (!sched::On()) return real(t, a, fn, arg);
    auto& g = sched::G();
    sched::Th* th = new sched::Th;
    th->id = static_cast<int>(g.th.size());
    sem_init(&th->sem, 0, 0);
    th->fn = fn;
    th->arg = arg;
    const int r = real(&th->real, a, sched::Trampoline, th);
    if (r != 0) return r;
    *t = th->real;
    g.th.push_back(th);
    sched::Point();
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    SCHED_REAL(pthread_join);
    if (sched::On())
        for (sched::Th* th : sched::G().th)
            if (th->id && !th->joined && pthread_equal(th->real, t)) {
                sched::Me()->target = th;
                sched::Block(sched::JOIN, th);
                th->joined = true;         // its pthread_t may be used again
                break;
            }
    return real(t, ret);
}
int sched_yield() {
    SCHED_REAL(sched_yield);
    if (!sched::On()) return real();
    sched::Point();
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    SCHED_REAL(nanosleep);
    if (!sched::On()) return real(a, b);
    sched::Point();
    return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
    SCHED_REAL(clock_nanosleep);
    if (!sched::On()) return real(k, f, a, b);
    sched::Point();
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    SCHED_REAL(pthread_rwlock_rdlock);
    if (!sched::On()) return real(l);
    sched::Block(sched::RWR, l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    SCHED_REAL(pthread_rwlock_wrlock);
    if (!sched::On()) return real(l);
    sched::Block(sched::RWW, l);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    SCHED_REAL(pthread_rwlock_unlock);
    if (!sched::On()) return real(l);
    auto& p = sched::G().rw[l];
    if (p.second) p.second = nullptr; else --p.first;
    sched::Point();
    return 0;
}
int get_nprocs(void) { return sched::G().nprocs; }
}

namespace std {
    bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool timed, chrono::seconds, chrono::nanoseconds) {
        if (!sched::On()) { while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) usleep(100); return true; }
        sched::Th* me = sched::Me();
        me->val = val;
        me->timed = timed;
        me->timedout = false;
        sched::Block(sched::FUTEX, addr);
        me->timed = false;
        return !me->timedout;
    }
    bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds ns) {
        return _M_futex_wait_until(addr, val, timed, s, ns);
    }
    void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { sched::Point(); }
}
