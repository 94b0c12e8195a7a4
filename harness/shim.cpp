// Link-time interposition (ld --wrap) between the code of /repo and libc.
// Nothing here changes what the server is allowed to observe: virtual time,
// short counts, EINTR, small socket buffers and scheduling delays are all
// behaviours the kernel itself may show.
#include "shm.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <ifaddrs.h>
#include <malloc.h>
#include <net/if.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static std::int64_t g_fallback[YV_WORDS];
static std::int64_t* g_shm = g_fallback;

static inline std::int64_t rd(int w) { return __atomic_load_n(&g_shm[w], __ATOMIC_RELAXED); }
static inline void inc(int w, std::int64_t n = 1) { __atomic_fetch_add(&g_shm[w], n, __ATOMIC_RELAXED); }

__attribute__((constructor(101))) static void yv_init() {
    const char* path = getenv("YV_SHM");
    if( ! path ) return;
    int fd = ::open(path, O_RDWR|O_CLOEXEC);
    if( fd < 0 ) return;
    void* p = ::mmap(nullptr, YV_WORDS*8, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    ::syscall(SYS_close, fd);
    if( p == MAP_FAILED ) return;
    g_shm = (std::int64_t*)p;
}

static std::atomic<unsigned> g_tid{0};
struct rng { std::uint64_t s; };
static thread_local rng t_rng{0};
static thread_local unsigned t_id = 0;
static inline std::uint64_t rnd() {
    if( t_rng.s == 0 ) {
        t_id = g_tid.fetch_add(1) + 1;
        t_rng.s = (std::uint64_t)rd(YV_SEED) * 0x9E3779B97F4A7C15ull + t_id * 0xD1B54A32D192ED03ull + 1;
    }
    std::uint64_t x = t_rng.s;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return t_rng.s = x;
}
static inline bool chance(int w) {
    std::int64_t p = rd(w);
    if( p == 0 ) return false;
    return (std::int64_t)((rnd() >> 20) & 0xffff) < p;
}
static inline void perturb() {
    if( ! chance(YV_P_DELAY) ) return;
    std::int64_t us = rd(YV_DELAY_US);
    inc(YV_N_DELAY);
    std::uint64_t r = rnd();
    int e = errno;
    if( us == 0 || (r & 3) == 0 ) { ::syscall(SYS_sched_yield); errno = e; return; }
    struct timespec ts{0, (long)((r >> 8) % (us*1000+1))};
    ::syscall(SYS_nanosleep, &ts, nullptr);
    errno = e;
}

// With AddressSanitizer: memory after the bytes just received is off limits until the
// thread receives again or does something else, as if the buffer were no larger.
extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
}
static thread_local char* t_poison = nullptr;
static thread_local size_t t_poison_len = 0;
static inline void unpoison() {
    if( t_poison ) {
        __asan_unpoison_memory_region(t_poison, t_poison_len);
        t_poison = nullptr;
    }
}
static inline void poison(void* p, size_t got, size_t n) {
    if( ! __asan_poison_memory_region || n < 4096 || got >= n ) return;
    t_poison = (char*)p + got;
    t_poison_len = n - got;
    __asan_poison_memory_region(t_poison, t_poison_len);
    inc(YV_N_POISON);
}

extern "C" {

time_t __real_time(time_t*);
time_t __wrap_time(time_t* p) {
    inc(YV_N_TIME);
    std::int64_t v = rd(YV_TIME);
    time_t t = v ? (time_t)v : __real_time(nullptr);
    if( p ) *p = t;
    return t;
}

std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    inc(YV_N_STEADY);
    auto t = __real__ZNSt6chrono3_V212steady_clock3nowEv();
    if( std::int64_t ms = rd(YV_STEADY_MS) )
        return std::chrono::steady_clock::time_point(std::chrono::milliseconds(ms));
    std::int64_t x = rd(YV_STEADY_X100);
    if( x == 0 || x == 100 ) return t;
    // scale relative to a fixed origin; monotone as long as x does not change
    auto ns = t.time_since_epoch().count();
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(
        (std::int64_t)((__int128)ns * x / 100)));
}
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
    std::int64_t v = rd(YV_TIME);
    if( v == 0 ) return __real__ZNSt6chrono3_V212system_clock3nowEv();
    return std::chrono::system_clock::from_time_t((time_t)v);
}

int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    std::int64_t d = rd(YV_SLEEP_DIV);
    if( d <= 1 ) return __real_nanosleep(a, b);
    std::int64_t ns = ((std::int64_t)a->tv_sec * 1000000000 + a->tv_nsec) / d;
    struct timespec t{(time_t)(ns / 1000000000), (long)(ns % 1000000000)};
    return __real_nanosleep(&t, b);
}

int __real_epoll_wait(int, struct epoll_event*, int, int);
int __wrap_epoll_wait(int fd, struct epoll_event* ev, int n, int timeout) {
    unpoison();
    inc(YV_N_EPOLL);
    std::int64_t d = rd(YV_EPOLL_DIV);
    if( d > 1 && timeout > 0 ) timeout = std::max<int>(1, timeout / (int)d);
    perturb();
    return __real_epoll_wait(fd, ev, n, timeout);
}

// ---- interfaces ----
struct if_node { struct ifaddrs ifa; struct sockaddr_in sa; char name[8]; };
int __real_getifaddrs(struct ifaddrs**);
void __real_freeifaddrs(struct ifaddrs*);
static if_node* mk(std::uint32_t ip, if_node* next) {
    if_node* n = (if_node*)calloc(1, sizeof(if_node));
    strcpy(n->name, "lo");
    n->sa.sin_family = AF_INET;
    n->sa.sin_addr.s_addr = htonl(ip);
    n->ifa.ifa_name = n->name;
    n->ifa.ifa_flags = IFF_UP|IFF_LOOPBACK|IFF_RUNNING;
    n->ifa.ifa_addr = (struct sockaddr*)&n->sa;
    n->ifa.ifa_next = next ? &next->ifa : nullptr;
    return n;
}
int __wrap_getifaddrs(struct ifaddrs** out) {
    inc(YV_N_IFADDRS);
    if( rd(YV_IFMODE) == 0 ) return __real_getifaddrs(out);
    if_node* n = mk(0x7f000001u, nullptr);
    std::uint32_t vip = (std::uint32_t)rd(YV_VIP_ADDR);
    if( vip ) n = mk(vip, n);
    *out = &n->ifa;
    return 0;
}
void __wrap_freeifaddrs(struct ifaddrs* p) {
    // synthetic nodes start with the ifaddrs member, so the pointer is the node
    if( p && p->ifa_name == ((if_node*)p)->name ) {
        while( p ) { struct ifaddrs* q = p->ifa_next; free(p); p = q; }
        return;
    }
    __real_freeifaddrs(p);
}

// ---- sockets ----
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) {
    if( chance(YV_P_ACCEPTERR) ) {
        // the errors that accept(2) lists for a connection or for a lack of resources
        static const int e[] = {ECONNABORTED, EINTR, EPROTO, ENETDOWN, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH,
                                EOPNOTSUPP, ENETUNREACH, EPERM, ENOBUFS, ENOMEM, EMFILE, ENFILE};
        inc(YV_N_ACCEPTERR);
        errno = e[(rnd() >> 8) % (sizeof(e) / sizeof(e[0]))];
        return -1;
    }
    int s = __real_accept4(fd, a, l, f);
    if( s >= 0 ) {
        inc(YV_N_ACCEPT);
        int v = (int)rd(YV_SNDBUF);
        int e = errno;
        if( v ) setsockopt(s, SOL_SOCKET, SO_SNDBUF, &v, sizeof(v));
        v = (int)rd(YV_RCVBUF);
        if( v ) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof(v));
        errno = e;
    }
    return s;
}
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __wrap_recv(int fd, void* p, size_t n, int f) {
    unpoison();
    perturb();
    if( chance(YV_P_EINTR) ) { inc(YV_N_EINTR); errno = EINTR; return -1; }
    size_t whole = n;
    if( n > 1 && chance(YV_P_SHORT) ) {
        inc(YV_N_SHORT);
        std::uint64_t r = rnd();
        size_t m = (r & 7) ? 1 + (r >> 8) % 40 : 1 + (r >> 8) % n;
        n = std::min(n, m);
    }
    if( chance(YV_P_RECVERR) ) { inc(YV_N_RECVERR); errno = ETIMEDOUT; return -1; }
    ssize_t r = __real_recv(fd, p, n, f);
    inc(YV_N_RECV);
    if( r > 0 ) { inc(YV_N_RECV_BYTES, r); poison(p, r, whole); }
    return r;
}
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_send(int fd, const void* p, size_t n, int f) {
    perturb();
    if( n == 1 && rd(YV_HOLD_SEND1) ) {
        inc(YV_N_HELD);
        struct timespec ts{0, 1000000};
        while( rd(YV_HOLD_SEND1) ) ::syscall(SYS_nanosleep, &ts, nullptr);
    }
    if( chance(YV_P_EINTR) ) { inc(YV_N_EINTR); errno = EINTR; return -1; }
    if( n > 1 && chance(YV_P_SHORT) ) {
        inc(YV_N_SHORT);
        n = 1 + (rnd() >> 8) % n;
    }
    ssize_t r = __real_send(fd, p, n, f|MSG_NOSIGNAL);
    inc(YV_N_SEND);
    if( r > 0 ) inc(YV_N_SEND_BYTES, r);
    else if( r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) ) inc(YV_N_EAGAIN_SEND);
    return r;
}
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
    perturb();
    if( chance(YV_P_EINTR) ) { inc(YV_N_EINTR); errno = EINTR; return -1; }
    ssize_t r;
    if( chance(YV_P_SHORT) ) {
        inc(YV_N_SHORT);
        size_t total = 0;
        for( int i = 0; i < c; ++i ) total += v[i].iov_len;
        size_t want = total > 1 ? 1 + (rnd() >> 8) % total : total;
        struct iovec w[64];
        int k = 0;
        for( int i = 0; i < c && i < 64 && want > 0; ++i ) {
            w[k] = v[i];
            if( w[k].iov_len > want ) w[k].iov_len = want;
            want -= w[k].iov_len;
            ++k;
        }
        r = __real_writev(fd, w, k);
    } else {
        r = __real_writev(fd, v, c);
    }
    inc(YV_N_SEND);
    if( r > 0 ) inc(YV_N_SEND_BYTES, r);
    else if( r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) ) inc(YV_N_EAGAIN_SEND);
    return r;
}

// ---- locks: perturb schedules, and record the order threads get in ----
static inline void note_lock() {
    inc(YV_N_LOCK);
    if( rd(YV_P_DELAY) == 0 ) return;
    if( t_id == 0 ) rnd();
    std::int64_t h = rd(YV_ORDER_HASH);
    __atomic_store_n(&g_shm[YV_ORDER_HASH], (std::int64_t)((std::uint64_t)h * 1099511628211ull + t_id), __ATOMIC_RELAXED);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    perturb();
    int r = __real_pthread_mutex_lock(m);
    note_lock();
    perturb();
    return r;
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    perturb();
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    perturb();
    return __real_pthread_rwlock_rdlock(m);
}
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    int r = __real_pthread_rwlock_unlock(m);
    perturb();
    return r;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* p, size_t n) {
    unpoison();
    ssize_t r = __real_read(fd, p, n);
    if( n == 8 ) { inc(YV_N_EVFD); perturb(); }
    return r;
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    unpoison();
    if( n == 8 ) perturb();
    else if( n > 1 && (rd(YV_P_SHORT) | rd(YV_P_EINTR) | rd(YV_P_DELAY)) && (::fcntl(fd, F_GETFL) & O_APPEND) ) {
        // a log file
        perturb();
        if( chance(YV_P_EINTR) ) { inc(YV_N_EINTR); errno = EINTR; return -1; }
        if( chance(YV_P_SHORT) ) { inc(YV_N_SHORT); n = 1 + (rnd() >> 8) % n; }
    }
    else if( n > 64 && chance(YV_P_SHORT) ) { inc(YV_N_SHORT); n = 1 + (rnd() >> 8) % n; }
    return __real_write(fd, p, n);
}
ssize_t __real_pread64(int, void*, size_t, off_t);
ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t o) {
    if( n > 64 && chance(YV_P_SHORT) ) { inc(YV_N_SHORT); n = 1 + (rnd() >> 8) % n; }
    inc(YV_N_PREAD);
    return __real_pread64(fd, p, n, o);
}
int __real_mkostemp(char*, int);
int __wrap_mkostemp(char* t, int f) {
    if( chance(YV_P_TMPFAIL) ) { inc(YV_N_TMPFAIL); errno = EMFILE; return -1; }
    int r = __real_mkostemp(t, f);
    if( r >= 0 ) inc(YV_N_MKTEMP);
    return r;
}
int __real_mkostemp64(char*, int);
int __wrap_mkostemp64(char* t, int f) {
    if( chance(YV_P_TMPFAIL) ) { inc(YV_N_TMPFAIL); errno = EMFILE; return -1; }
    int r = __real_mkostemp64(t, f);
    if( r >= 0 ) inc(YV_N_MKTEMP);
    return r;
}
int __real_unlink(const char*);
int __wrap_unlink(const char* p) {
    int r = __real_unlink(p);
    if( r == 0 ) inc(YV_N_UNLINK);
    return r;
}
int __real_close(int);
int __wrap_close(int fd) {
    unpoison();
    inc(YV_N_CLOSE);
    int r = __real_close(fd);
    if( r == -1 && errno == EBADF && fd >= 0 ) {
        inc(YV_N_EBADF);
        errno = EBADF;
    }
    return r;
}
// replaced: pinning memory or needing privileges is not what is being checked
int __real_mlockall(int);
int __wrap_mlockall(int) { inc(YV_N_MLOCKALL); return 0; }
int __real_fdatasync(int);
int __wrap_fdatasync(int fd) { inc(YV_N_FSYNC); return __real_fdatasync(fd); }

// ---- released memory must not hold the marker that item data consists of ----
// Buffers of requests on their way in are not item memory: they begin with a request
// (a lower case command or 0x80), or are as large as the receive and send buffers.
static inline void scan(void* p) {
    std::int64_t ml = rd(YV_MARK_LEN);
    if( ml <= 0 || p == nullptr ) return;
    size_t n = malloc_usable_size(p);
    inc(YV_N_FREE_SCANNED);
    if( (std::int64_t)n < ml ) return;
    const char* mark = (const char*)&g_shm[YV_MARK];
    if( ! memmem(p, n, mark, (size_t)ml) ) return;
    unsigned char c = *(unsigned char*)p;
    if( c == 0x80 || (c >= 'a' && c <= 'z') || n >= (1 << 20) ) {
        inc(YV_N_FREE_IO);
    } else {
        inc(YV_N_FREE_DIRTY);
        __atomic_store_n(&g_shm[YV_DIRTY_SIZE], (std::int64_t)n, __ATOMIC_RELAXED);
    }
    memset(p, 0, n);    // so that it is not found again in a block that gets this memory
}
#ifdef YV_SCAN_FREE
// these replace the ones of libc for the whole program, libstdc++ included
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void free(void* p) { scan(p); __libc_free(p); }
void* realloc(void* p, size_t n) {
    // a moving realloc releases the old block; force the move so it is seen
    if( p == nullptr || n == 0 || rd(YV_MARK_LEN) <= 0 ) return __libc_realloc(p, n);
    size_t o = malloc_usable_size(p);
    void* q = __libc_malloc(n);
    if( ! q ) return nullptr;
    memcpy(q, p, std::min(o, n));
    scan(p);
    __libc_free(p);
    return q;
}
#endif

} // extern "C"
