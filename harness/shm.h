// Control/observation block shared between the instrumented server and a driver.
// Every field is a 64-bit little-endian word, so Python can address it by index.
#pragma once
#include <cstdint>
enum yv_word {
    YV_MAGIC = 0,
    YV_TIME,          // value returned by time(); 0 = real time
    YV_STEADY_X100,   // steady clock speed in percent (0 = 100)
    YV_SLEEP_DIV,     // divide sleeps by this (0 = 1)
    YV_EPOLL_DIV,     // divide epoll timeouts by this (0 = 1)
    YV_IFMODE,        // 0 real interfaces, 1 synthetic list
    YV_VIP_ADDR,      // IPv4 (host order) added to the synthetic list; 0 = none
    YV_SNDBUF,        // SO_SNDBUF set on accepted sockets; 0 = leave
    YV_RCVBUF,        // SO_RCVBUF set on accepted sockets; 0 = leave
    YV_P_EINTR,       // probability (per 65536) of EINTR on recv/send/writev
    YV_P_SHORT,       // probability of a short count
    YV_P_DELAY,       // probability of a delay at a sync point / syscall
    YV_DELAY_US,      // maximum delay in microseconds
    YV_SEED,
    YV_MARK_LEN,      // length of the secret marker (0 = scan off)
    YV_P_TMPFAIL,     // probability of mkostemp failing
    YV_P_RECVERR,     // probability of a receive error (ETIMEDOUT) on a connection
    YV_HOLD_SEND1,    // while set, one-byte sends (heartbeats) wait before the system call
    YV_STEADY_MS,     // steady clock in milliseconds, moved by the driver; 0 = off
    YV_P_ACCEPTERR,   // probability of accept failing
    YV_CTL_END = 32,
    // observations
    YV_N_TIME = 32,
    YV_N_STEADY,
    YV_N_RECV,
    YV_N_RECV_BYTES,
    YV_N_SEND,
    YV_N_SEND_BYTES,
    YV_N_EINTR,
    YV_N_SHORT,
    YV_N_DELAY,
    YV_N_LOCK,
    YV_N_EAGAIN_SEND,
    YV_N_IFADDRS,
    YV_N_MKTEMP,
    YV_N_UNLINK,
    YV_N_FREE_SCANNED,
    YV_N_FREE_DIRTY,   // blocks released while still holding the marker
    YV_N_EPOLL,
    YV_N_ACCEPT,
    YV_N_CLOSE,
    YV_DIRTY_SIZE,     // size of the last dirty block
    YV_ORDER_HASH,     // rolling hash of the order in which threads took locks
    YV_N_FSYNC,
    YV_N_MLOCKALL,
    YV_N_TMPFAIL,
    YV_N_EVFD,
    YV_N_RECVERR,
    YV_N_HELD,
    YV_N_PREAD,
    YV_N_FREE_IO,      // buffers of requests released with the marker
    YV_N_POISON,       // receptions after which the rest of the buffer was off limits
    YV_N_ACCEPTERR,
    YV_N_EBADF,        // descriptors closed twice
    YV_OBS_END = 96,
    YV_MARK = 96,      // marker bytes start here (up to 128 bytes)
    YV_WORDS = 128
};
