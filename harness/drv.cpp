// Concurrent client that records a history at the client boundary and checks per key that
// it is linearizable with respect to the specification of the memcache commands.
//
// Output: lines "key=value" with what was observed; exit 0 = linearizable, 1 = violation
// (described on stdout), 3 = inconclusive.
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <set>
#include <string>
#include <sys/socket.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using std::string;
typedef std::uint64_t u64;
typedef std::uint32_t u32;
typedef std::int64_t i64;

static i64 now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(
    std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Rng { u64 s; u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    u64 below(u64 n) { return (next() >> 11) % n; } bool p(int pct) { return below(100) < (u64)pct; } };

enum Kind { SET, ADD, REPLACE, CAS, APPEND, PREPEND, INCR, DECR, DEL, GET, TOUCH, LOCK, UNLOCK, LAG, RAU, UNLOCKALL, RELEASE, NKIND };
static const char* KN[] = {"set","add","replace","cas","append","prepend","incr","decr","delete","get","touch","lock","unlock","lag","rau","unlock_all","(disconnect)"};
enum Res { RES_UNKNOWN, RES_OK, RES_NOTFOUND, RES_EXISTS, RES_NOTSTORED, RES_NONNUM, RES_LOCKED, RES_NOTLOCKED, RES_ERR, RES_SILENTDEL };
static const char* RN[] = {"?","OK","NOT_FOUND","EXISTS","NOT_STORED","NON_NUMERIC","LOCKED","NOT_LOCKED","ERROR","silence"};
static const i64 INF = INT64_MAX;

struct Op {
    int conn = 0, key = 0; Kind kind = GET; bool text = true, quiet = false, wantcas = false, create = false;
    string val; u32 flags = 0; u64 cas = 0, num = 0, initial = 0;
    Res res = RES_UNKNOWN; string rval; u32 rflags = 0; u64 rcas = 0, rnum = 0; bool hasnum = false;
    i64 inv = 0, ret = INF; int seq = 0; u32 opaque = 0;
    bool pending = false; // may never take effect
};

struct Conf { int port = 0, conns = 8, keys = 3, ops = 400, pipe = 4, profile = 0, heap = 1024, resets = 0, seg = 40, limit = 1000000; u64 seed = 1; } C;
static std::atomic<bool> g_stop{false};
static std::mutex g_m;
static string g_error;      // violation found while running
static string g_inconc;
static std::atomic<int> g_ident{0};
static std::vector<Op> g_hist;
static std::vector<std::vector<std::atomic<u64>>*> g_vers; // last observed versions per key

static void fail(const string& s) { std::lock_guard<std::mutex> l(g_m); if( g_error.empty() ) g_error = s; g_stop = true; }
static string keyname(int k) { char b[32]; snprintf(b, sizeof b, "key%d", k); return b; }

struct Closed {}; struct Tmo {};

struct Conn {
    int fd = -1; string buf; size_t pos = 0; i64 last = 0;
    void open() {
        fd = socket(AF_INET, SOCK_STREAM|SOCK_CLOEXEC, 0);
        struct sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(C.port); a.sin_addr.s_addr = htonl(0x7f000001);
        struct timeval tv{60, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
        int v = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, sizeof v);
        if( connect(fd, (struct sockaddr*)&a, sizeof a) != 0 ) throw Closed();
        buf.clear(); pos = 0;
    }
    void send(const string& s) {
        size_t o = 0;
        while( o < s.size() ) { ssize_t n = ::send(fd, s.data()+o, s.size()-o, MSG_NOSIGNAL);
            if( n < 0 ) { if( errno == EINTR ) continue; if( errno == EAGAIN ) throw Tmo(); throw Closed(); } o += n; }
    }
    void more() {
        if( pos > 65536 ) { buf.erase(0, pos); pos = 0; }
        char b[65536]; ssize_t n;
        do n = ::recv(fd, b, sizeof b, 0); while( n < 0 && errno == EINTR );
        last = now();
        if( n < 0 && errno == EAGAIN ) throw Tmo();
        if( n <= 0 ) throw Closed();
        buf.append(b, n);
    }
    string line() { size_t from = pos; for(;;) { size_t i = buf.find('\n', from); if( i != string::npos ) { string r = buf.substr(pos, i+1-pos); pos = i+1; return r; } from = buf.size(); size_t p0 = pos; more(); from -= p0 - pos; } }
    string take(size_t n) { while( buf.size() - pos < n ) more(); string r = buf.substr(pos, n); pos += n; return r; }
    void close(bool rst) { if( fd < 0 ) return; if( rst ) { struct linger l{1,0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); fd = -1; }
};

static void be(string& s, u64 v, int n) { for( int i = n-1; i >= 0; --i ) s.push_back((char)(v >> (8*i))); }
static u64 rbe(const string& s, size_t o, int n) { u64 v = 0; for( int i = 0; i < n; ++i ) v = v << 8 | (unsigned char)s[o+i]; return v; }
static string breq(int op, const string& key, const string& ex, const string& val, u64 cas, u32 opaque) {
    string s; be(s, 0x80, 1); be(s, op, 1); be(s, key.size(), 2); be(s, ex.size(), 1); be(s, 0, 3);
    be(s, key.size()+ex.size()+val.size(), 4); be(s, opaque, 4); be(s, cas, 8); return s + ex + key + val;
}
static int bop(const Op& o) {
    switch( o.kind ) {
    case SET: return o.quiet ? 0x11 : 1; case ADD: return o.quiet ? 0x12 : 2; case REPLACE: return o.quiet ? 0x13 : 3;
    case APPEND: return o.quiet ? 0x19 : 0xe; case PREPEND: return o.quiet ? 0x1a : 0xf; case INCR: return o.quiet ? 0x15 : 5;
    case DECR: return o.quiet ? 0x16 : 6; case DEL: return o.quiet ? 0x14 : 4; case GET: return o.quiet ? 0xd : 0xc;
    case TOUCH: return 0x1c; case LOCK: return o.quiet ? 0x41 : 0x40; case UNLOCK: return o.quiet ? 0x43 : 0x42;
    case LAG: return o.quiet ? 0x49 : 0x48; case RAU: return o.quiet ? 0x4b : 0x4a; case UNLOCKALL: return 0x44; default: abort(); }
}
static string encode(const Op& o) {
    string k = keyname(o.key), nr = o.quiet ? " noreply" : "";
    if( o.text ) {
        string f = std::to_string(o.flags);
        switch( o.kind ) {
        case SET: case ADD: case REPLACE: case APPEND: case PREPEND:
            return string(KN[o.kind]) + " " + k + " " + f + " 0 " + std::to_string(o.val.size()) + nr + "\r\n" + o.val + "\r\n";
        case CAS: return "cas " + k + " " + f + " 0 " + std::to_string(o.val.size()) + " " + std::to_string(o.cas) + nr + "\r\n" + o.val + "\r\n";
        case INCR: case DECR: return string(KN[o.kind]) + " " + k + " " + std::to_string(o.num) + nr + "\r\n";
        case DEL: return "delete " + k + nr + "\r\n";
        case TOUCH: return "touch " + k + " 0" + nr + "\r\n";
        case GET: return (o.wantcas ? "gets " : "get ") + k + "\r\n";
        case LOCK: return "lock " + k + "\r\n"; case UNLOCK: return "unlock " + k + "\r\n"; case UNLOCKALL: return "unlock_all\r\n";
        default: abort(); }
    }
    string ex, v;
    switch( o.kind ) {
    case SET: case ADD: case REPLACE: case RAU: be(ex, o.flags, 4); be(ex, 0, 4); v = o.val; break;
    case APPEND: case PREPEND: v = o.val; break;
    case INCR: case DECR: be(ex, o.num, 8); be(ex, o.initial, 8); be(ex, o.create ? 0 : 0xffffffff, 4); break;
    case TOUCH: be(ex, 0, 4); break;
    default: break; }
    return breq(bop(o), o.kind == UNLOCKALL ? "" : k, ex, v, o.cas, o.opaque);
}
static bool numstr(const string& s, u64& v) { if( s.empty() || s.size() > 20 ) return false; unsigned __int128 x = 0; for( char c : s ) { if( c < '0' || c > '9' ) return false; x = x*10 + (c-'0'); } if( x >> 64 ) return false; v = (u64)x; return true; }

static bool parse_text(Conn& c, Op& o) {  // false: unexpected reply
    string l = c.line(), k = keyname(o.key);
    auto is = [&](const char* s) { return l == string(s) + "\r\n"; };
    if( o.kind == GET ) {
        if( is("END") ) { o.res = RES_NOTFOUND; return true; }
        unsigned long long f, n, cs = 0; char kb[64];
        int got = sscanf(l.c_str(), "VALUE %63s %llu %llu %llu", kb, &f, &n, &cs);
        if( got != (o.wantcas ? 4 : 3) || k != kb || n > (1<<24) ) { fail("unexpected reply to get: " + l); return false; }
        string d = c.take(n+2), e = c.line();
        if( d.substr(n) != "\r\n" || e != "END\r\n" ) { fail("malformed reply to get of " + k); return false; }
        o.res = RES_OK; o.rval = d.substr(0, n); o.rflags = f; o.rcas = cs; return true;
    }
    if( is("STORED") || is("DELETED") || is("OK") || is("TOUCHED") ) o.res = RES_OK;
    else if( is("NOT_STORED") ) o.res = RES_NOTSTORED; else if( is("EXISTS") ) o.res = RES_EXISTS; else if( is("NOT_FOUND") ) o.res = RES_NOTFOUND;
    else if( is("LOCKED") ) o.res = RES_LOCKED;
    else if( l.compare(0, 36, "CLIENT_ERROR cannot increment or dec") == 0 ) o.res = RES_NONNUM;
    else if( l.compare(0, 30, "CLIENT_ERROR object is not loc") == 0 ) o.res = RES_NOTLOCKED;
    else if( (o.kind == INCR || o.kind == DECR) && l.size() > 2 && numstr(l.substr(0, l.size()-2), o.rnum) ) { o.res = RES_OK; o.hasnum = true; }
    else { fail(string("unexpected reply to ") + KN[o.kind] + ": " + l); return false; }
    return true;
}
struct BResp { int op, status; u32 opaque; u64 cas; string ex, key, val; };
static BResp recv_bin(Conn& c) {
    string h = c.take(24); BResp r;
    if( (unsigned char)h[0] != 0x81 ) { fail("bad magic in a binary response"); throw Closed(); }
    r.op = (unsigned char)h[1]; size_t kl = rbe(h,2,2), el = rbe(h,4,1); r.status = rbe(h,6,2); size_t t = rbe(h,8,4); r.opaque = rbe(h,12,4); r.cas = rbe(h,16,8);
    if( t > (1<<24) || kl+el > t ) { fail("bad lengths in a binary response"); throw Closed(); }
    string b = c.take(t); r.ex = b.substr(0, el); r.key = b.substr(el, kl); r.val = b.substr(el+kl); return r;
}
static bool fill_bin(Op& o, const BResp& r) {
    if( r.op != bop(o) ) { fail("binary response for another opcode"); return false; }
    switch( r.status ) { case 0: o.res = RES_OK; break; case 1: o.res = RES_NOTFOUND; break; case 2: o.res = RES_EXISTS; break; case 5: o.res = RES_NOTSTORED; break;
    case 6: o.res = RES_NONNUM; break; case 0x10: o.res = RES_LOCKED; break; case 0x11: o.res = RES_NOTLOCKED; break; default: fail("unexpected status " + std::to_string(r.status)); return false; }
    if( r.status ) return true;
    switch( o.kind ) {
    case GET: case LAG: if( r.ex.size() != 4 || r.key != keyname(o.key) ) { fail("bad get response"); return false; }
        o.rflags = rbe(r.ex,0,4); o.rval = r.val; o.rcas = r.cas; break;
    case INCR: case DECR: if( r.val.size() == 8 ) o.rnum = rbe(r.val,0,8); else if( r.ex.size() == 8 ) o.rnum = rbe(r.ex,0,8); else { fail("bad incr response"); return false; }
        o.hasnum = true; o.rcas = r.cas; break;
    case SET: case ADD: case REPLACE: case APPEND: case PREPEND: case RAU: o.rcas = r.cas; if( r.cas == 0 ) { fail(string("no version in the response to ") + KN[o.kind]); return false; } break;
    default: break; }
    return true;
}

static Op gen(Rng& r, int ident, int& n, const std::set<int>& held) {
    Op o; o.conn = ident; o.key = r.below(C.keys); o.text = r.p(50); o.quiet = r.p(12);
    static const int W[4][16] = {
        // set add rep cas app pre inc dec del get tou loc unl lag rau unlall
        { 10,  6,  5, 10,  6,  4, 12,  5,  8, 24,  2,  0,  0,  0,  0,  0},
        {  6,  4,  3, 34,  3,  2,  5,  2,  5, 34,  1,  0,  0,  0,  0,  0},
        {  6,  4,  3,  5,  3,  2,  6,  3,  4, 14,  2, 14, 13, 10, 10,  1},
        {  3,  2,  2,  2, 14, 14, 20, 10,  3, 30,  0,  0,  0,  0,  0,  0},
    };
    const int* w = W[C.profile & 3]; int t = 0; for( int i = 0; i < 16; ++i ) t += w[i];
    int x = r.below(t), k = 0; while( x >= w[k] ) x -= w[k++];
    o.kind = (Kind)k;
    if( ! held.empty() && r.p(60) ) {   // act on what this connection has locked
        auto it = held.begin(); std::advance(it, r.below(held.size())); o.key = *it;
        static const Kind A[] = {UNLOCK, UNLOCK, UNLOCK, RAU, RAU, SET, GET, APPEND, DEL, INCR, CAS, UNLOCKALL};
        o.kind = A[r.below(12)];
    }
    if( o.kind == CAS ) o.text = true;
    if( o.kind == LAG || o.kind == RAU ) o.text = false;
    if( o.kind == UNLOCKALL ) o.quiet = false;
    if( o.text && (o.kind == GET || o.kind == LOCK || o.kind == UNLOCK) ) o.quiet = false;
    if( ! o.text && o.kind == TOUCH ) o.quiet = false;
    if( C.profile == 1 && o.kind == CAS && r.p(35) ) { o.kind = r.p(60) ? SET : r.p(50) ? DEL : REPLACE; o.text = false; o.cas = 1; }
    if( ! o.text && o.cas == 0 && r.p(20) && (o.kind == SET || o.kind == REPLACE || o.kind == APPEND || o.kind == PREPEND || o.kind == INCR || o.kind == DECR || o.kind == DEL || o.kind == RAU) ) o.cas = 1;
    if( o.kind == CAS || o.cas ) {
        auto& v = *g_vers[o.key]; size_t at = r.p(75) ? 0 : r.below(v.size());
        o.cas = v[at].load(); if( o.cas == 0 ) o.cas = (1ull << 62) + r.below(1000);
    }
    o.wantcas = r.p(60);
    o.flags = r.below(4) ? r.below(16) : 0xffffffffu - r.below(3);
    if( o.kind == INCR || o.kind == DECR ) { o.num = r.p(90) ? 1 + r.below(9) : r.next(); o.initial = r.below(1000); o.create = r.p(60); }
    bool full = o.kind == SET || o.kind == ADD || o.kind == REPLACE || o.kind == CAS || o.kind == RAU;
    if( full && r.p(55) ) o.val = std::to_string(r.below(1000000));
    else { char b[48]; snprintf(b, sizeof b, "c%d.%d;", ident, n++); o.val = b;
        if( full ? r.p(15) : r.p(3) ) { size_t m = full ? C.heap/2 + r.below(C.heap*2) : r.below(C.heap); while( o.val.size() < m ) o.val += b; } }
    if( o.kind == APPEND || o.kind == PREPEND ) o.flags = 0;
    return o;
}

static std::atomic<u64> g_ops{0};
// Quiescent points: every connection has all its answers before any goes on.  They bound what
// overlaps with what, so that the search stays small and a violation is decided rather than given up.
struct Barrier {
    std::mutex m; std::condition_variable cv; int n = 0, in = 0; u64 gen = 0;
    void wait() { std::unique_lock<std::mutex> l(m); u64 g = gen; if( ++in >= n ) { in = 0; ++gen; cv.notify_all(); return; } while( g == gen && ! g_stop ) cv.wait_for(l, std::chrono::milliseconds(50)); }
    void leave() { std::unique_lock<std::mutex> l(m); --n; if( n > 0 && in >= n ) { in = 0; ++gen; cv.notify_all(); } }
} g_bar;
static void worker_(int idx);
static void worker(int idx) { worker_(idx); g_bar.leave(); }
static void worker_(int idx) {
    Rng r{C.seed * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + 77}; for( int i = 0; i < 10; ++i ) r.next();
    std::vector<Op> mine; int segs = 0, done = 0, n = 0, seq = 0, resets = C.resets;
    Conn c; int ident = ++g_ident; u32 opaque = 0;
    std::set<int> held;      // keys this connection has locked, as far as it knows
    std::set<int> touched;   // keys whose lock this connection may hold
    try { c.open(); } catch( ... ) { fail("cannot connect"); return; }
    auto disconnected = [&](i64 at) { for( int k : touched ) { Op o; o.conn = ident; o.key = k; o.kind = RELEASE; o.pending = true; o.res = RES_OK; o.inv = at; o.seq = seq++; mine.push_back(o); } touched.clear(); held.clear(); };
    while( done < C.ops && ! g_stop ) {
        size_t m = 1 + (r.p(40) ? r.below(C.pipe) : 0);
        std::vector<Op> b;
        bool pin = false;
        if( C.seg && done / C.seg != segs ) { segs = done / C.seg; g_bar.wait(); if( idx == segs % C.conns ) { pin = true; m = C.keys; } }
        for( size_t i = 0; i < m; ++i ) {
            Op o = gen(r, ident, n, held);
            if( pin ) { o = Op(); o.conn = ident; o.key = i; o.wantcas = true; } o.seq = seq++; o.opaque = ++opaque;
            if( o.kind == UNLOCKALL ) { for( int k = 0; k < C.keys; ++k ) { Op p = o; p.key = k; b.push_back(p); } }
            else b.push_back(o);
            if( o.kind == LOCK || o.kind == LAG ) touched.insert(o.key);
        }
        // a barrier in the protocol of the last command makes its silence observable
        string data; int lastall = -1;
        for( auto& o : b ) { if( o.kind == UNLOCKALL ) { if( lastall == (int)o.opaque ) continue; lastall = o.opaque; } data += encode(o); }
        bool bar_text = r.p(50); u32 bar = ++opaque;
        data += bar_text ? string("version\r\n") : breq(0xa, "", "", "", 0, bar);
        i64 t = now(); for( auto& o : b ) o.inv = t;
        done += b.size(); g_ops += b.size();
        bool die = resets > 0 && r.below(40) == 0;
        try {
            if( die ) {
                --resets;
                if( r.p(50) ) { // requests in flight
                    c.send(data.substr(0, r.p(50) ? data.size() : r.below(data.size()+1)));
                    for( auto& o : b ) { o.pending = true; mine.push_back(o); }
                } // otherwise nothing was sent
                i64 at = now();
                if( r.p(30) ) usleep(r.below(2000));
                c.close(r.p(60)); disconnected(at); c.open(); ident = ++g_ident; continue;
            }
            c.send(data);
            size_t from = 0, i = 0;      // ops from..i-1 had silent successes
            std::vector<size_t> silent;
            auto settle = [&]() { for( size_t q : silent ) b[q].ret = c.last; silent.clear(); };
            BResp br; bool have = false; (void)from;
            auto nextbin = [&]() -> BResp& { if( ! have ) { br = recv_bin(c); have = true; } return br; };
            lastall = -1;
            for( i = 0; i < b.size() && ! g_stop; ++i ) {
                Op& o = b[i];
                if( o.kind == UNLOCKALL && lastall == (int)o.opaque ) { o.res = b[i-1].res; o.ret = b[i-1].ret; continue; }
                if( o.text ) {
                    if( o.quiet ) { silent.push_back(i); continue; } // result stays unknown
                    if( have ) { fail("binary response where a text reply was due"); break; }
                    if( ! parse_text(c, o) ) break;
                    o.ret = c.last; settle();
                } else if( o.quiet ) {
                    // an answer to this quiet command comes before the next one's; decide by looking at the next bytes
                    // only when the next answer is binary and has this opaque
                    silent.push_back(i); o.res = RES_UNKNOWN;
                    // find out what the next expected reply is
                    bool nexttext = bar_text; for( size_t q = i+1; q < b.size(); ++q ) if( ! (b[q].text && b[q].quiet) && ! ( ! b[q].text && b[q].quiet) ) { nexttext = b[q].text; break; }
                    if( ! have ) {
                        while( c.buf.size() == c.pos ) c.more();
                        if( nexttext && (unsigned char)c.buf[c.pos] != 0x81 ) { o.res = RES_OK; continue; }
                    }
                    if( nextbin().opaque == o.opaque ) { silent.pop_back(); if( ! fill_bin(o, br) ) break; have = false; o.ret = c.last; settle(); }
                    else o.res = RES_OK;
                } else {
                    nextbin(); if( br.opaque != o.opaque ) { fail("response with an unexpected opaque: expected " + std::to_string(o.opaque) + ", got " + std::to_string(br.opaque)); break; }
                    if( ! fill_bin(o, br) ) break;
                    have = false; o.ret = c.last; settle();
                }
                if( o.kind == UNLOCKALL ) lastall = o.opaque;
            }
            if( g_stop && i < b.size() ) { for( auto& o : b ) mine.push_back(o); break; }
            if( bar_text ) { string l = have ? string("(binary)") : c.line(); if( l.compare(0, 8, "VERSION ") != 0 ) { fail("expected VERSION, got " + l); } }
            else { nextbin(); if( br.op != 0xa || br.opaque != bar ) fail("expected the response to noop"); }
            settle();
            for( auto& o : b ) {
                // quiet gets that stay silent found nothing
                if( ! o.text && o.quiet && o.kind == GET && o.res == RES_OK && o.ret != INF && o.rcas == 0 ) o.res = RES_NOTFOUND;
                // silence of DeleteQ: deleted or not found
                if( ! o.text && o.quiet && o.kind == DEL && o.res == RES_OK ) o.res = RES_SILENTDEL;
                if( o.rcas ) { auto& v = *g_vers[o.key]; v[r.p(70) ? 0 : r.below(v.size())].store(o.rcas); }
                if( (o.kind == LOCK || o.kind == LAG) && o.res == RES_OK ) held.insert(o.key);
                if( o.kind == UNLOCK || o.kind == RAU || o.kind == UNLOCKALL || o.kind == DEL || o.res == RES_NOTFOUND ) held.erase(o.key);
                mine.push_back(o);
            }
        } catch( Tmo ) { fail("no answer within 60 s"); for( auto& o : b ) mine.push_back(o); }
        catch( Closed ) { fail("the server closed the connection"); for( auto& o : b ) mine.push_back(o); }
    }
    disconnected(now()); c.close(r.p(50));
    std::lock_guard<std::mutex> l(g_m);
    for( auto& o : mine ) g_hist.push_back(std::move(o));
}

// ---------------------------------------------------------------- checker
struct State { bool present = false; int val = 0; u32 flags = 0; u64 ver = 0; int lock = 0;
    bool operator==(const State& o) const { return present == o.present && val == o.val && flags == o.flags && ver == o.ver && lock == o.lock; } };
static inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct Checker {
    std::vector<Op> ops; std::vector<string> strs; std::unordered_map<string,int> ids; std::unordered_map<u64,int> cat;
    std::vector<int> opval, oprval; std::vector<int> prev; // previous op of the same connection
    u64 explored = 0, maxdepth = 0; size_t overlap = 0; std::vector<size_t> best; State beststate;
    int intern(const string& s) { auto it = ids.find(s); if( it != ids.end() ) return it->second; ids[s] = strs.size(); strs.push_back(s); return strs.size()-1; }
    int concat(int a, int b) { u64 k = (u64)a << 32 | (u32)b; auto it = cat.find(k); if( it != cat.end() ) return it->second; string s = strs[a] + strs[b]; return cat[k] = intern(s); }
    bool numeric(int v, u64& out) const {
        const string& s = strs[v]; if( s.size() > (size_t)C.heap ) return false;
        size_t i = 0; unsigned __int128 x = 0; while( i < s.size() && s[i] >= '0' && s[i] <= '9' ) { x = x*10 + (s[i]-'0'); if( x >> 64 ) return false; ++i; }
        if( i == 0 ) return false; out = (u64)x; return true;
    }
    void init() {
        intern("");
        std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.inv != b.inv ? a.inv < b.inv : a.conn != b.conn ? a.conn < b.conn : a.seq < b.seq; });
        std::unordered_map<int,int> lastof; prev.assign(ops.size(), -1);
        for( size_t i = 0; i < ops.size(); ++i ) {
            opval.push_back(intern(ops[i].val)); oprval.push_back(intern(ops[i].rval));
            auto it = lastof.find(ops[i].conn); if( it != lastof.end() ) prev[i] = it->second; lastof[ops[i].conn] = i;
        }
        // real concurrency that was observed
        i64 mx = 0; for( auto& o : ops ) { if( o.inv < mx ) ++overlap; if( o.ret != INF ) mx = std::max(mx, o.ret); }
    }
    // number of uses of each version among the linearized operations
    std::unordered_map<u64,int> used;
    bool bind(const State& s, u64 num, State& n, bool fresh) {
        // the version of n is reported as num
        if( num == 0 ) return true;
        if( ! fresh && n.ver ) return n.ver == num;
        auto it = used.find(num);
        if( it != used.end() && it->second > 0 ) return false;   // already the number of an older version
        n.ver = num; return true;
    }
    bool apply(const State& s, size_t i, State& n) {
        const Op& o = ops[i]; n = s; bool unk = o.res == RES_UNKNOWN; auto is = [&](Res r) { return unk || o.res == r || (o.res == RES_SILENTDEL && (r == RES_OK || r == RES_NOTFOUND)); };
        bool other = s.present && s.lock && s.lock != o.conn; Res nf_store = o.text ? RES_NOTSTORED : RES_NOTFOUND;
        bool casok = o.cas == 0 || s.ver == o.cas;   // an unreported version is not one a client can name
        auto write = [&](int v, u32 f) { n.present = true; n.val = v; n.flags = f; n.ver = 0; if( ! s.present ) n.lock = 0; return bind(s, o.rcas, n, true); };
        switch( o.kind ) {
        case RELEASE: if( s.lock != o.conn ) return false; n.lock = 0; return true;
        case UNLOCKALL: if( s.lock == o.conn ) n.lock = 0; return is(RES_OK);
        case GET: if( ! s.present ) return is(RES_NOTFOUND); if( unk ) return true;
            return o.res == RES_OK && oprval[i] == s.val && o.rflags == s.flags && bind(s, o.rcas, n, false);
        case LAG: if( ! s.present ) return is(RES_NOTFOUND); if( s.lock ) return is(RES_LOCKED);
            if( ! is(RES_OK) ) return false; n.lock = o.conn; if( unk ) return true;
            // silence of LaGKQ is not success: a value is always reported
            return oprval[i] == s.val && o.rflags == s.flags && bind(s, o.rcas, n, false);
        case TOUCH: return is(s.present ? RES_OK : RES_NOTFOUND);
        case LOCK: if( ! s.present ) return is(RES_NOTFOUND); if( s.lock ) return is(RES_LOCKED); n.lock = o.conn; return is(RES_OK);
        case UNLOCK: if( ! s.present || s.lock != o.conn ) return is(o.text || s.present ? RES_NOTLOCKED : RES_NOTFOUND); n.lock = 0; return is(RES_OK);
        case RAU: if( ! s.present ) return is(RES_NOTFOUND); if( s.lock != o.conn ) return is(RES_NOTLOCKED); if( ! casok ) return is(RES_EXISTS);
            if( ! is(RES_OK) ) return false; if( ! write(opval[i], o.flags) ) return false; n.lock = 0; return true;
        default: break; }
        if( other ) return is(RES_LOCKED);
        switch( o.kind ) {
        case SET: if( o.cas && ! s.present ) return is(RES_NOTFOUND); if( ! casok ) return is(RES_EXISTS); return is(RES_OK) && write(opval[i], o.flags);
        case ADD: if( s.present ) return is(o.text ? RES_NOTSTORED : RES_EXISTS); return is(RES_OK) && write(opval[i], o.flags);
        case REPLACE: if( ! s.present ) return is(nf_store); if( ! casok ) return is(RES_EXISTS); return is(RES_OK) && write(opval[i], o.flags);
        case CAS: if( ! s.present ) return is(RES_NOTFOUND); if( s.ver != o.cas ) return is(RES_EXISTS); return is(RES_OK) && write(opval[i], o.flags);
        case APPEND: case PREPEND: if( ! s.present ) return is(nf_store); if( ! casok ) return is(RES_EXISTS);
            return is(RES_OK) && write(o.kind == APPEND ? concat(s.val, opval[i]) : concat(opval[i], s.val), s.flags);
        case INCR: case DECR: {
            if( ! s.present ) {
                if( o.text || ! o.create ) return is(RES_NOTFOUND);
                if( ! is(RES_OK) || (o.hasnum && o.rnum != o.initial) ) return false; return write(intern(std::to_string(o.initial)), 0);
            }
            if( ! casok ) return is(RES_EXISTS);
            u64 v; if( ! numeric(s.val, v) ) return is(RES_NONNUM);
            v = o.kind == INCR ? v + o.num : (v > o.num ? v - o.num : 0);
            if( ! is(RES_OK) || (o.hasnum && o.rnum != v) ) return false; return write(intern(std::to_string(v)), s.flags); }
        case DEL: if( ! s.present ) return is(RES_NOTFOUND); if( ! casok ) return is(RES_EXISTS); if( ! is(RES_OK) ) return false; n = State(); return true;
        default: abort(); }
    }
    static u64 opnum(const Op& o) { return o.rcas ? o.rcas : 0; }
    // 0 ok, 1 not linearizable, 2 gave up
    int run(State init, u64 limit) {
        size_t N = ops.size(); std::vector<char> lin(N, 0); size_t start = 0, left = 0;
        for( auto& o : ops ) if( ! o.pending ) ++left;
        struct Frame { size_t op; State before; std::vector<size_t> cand; size_t next; };
        std::vector<Frame> st; State s = init;
        struct H { size_t operator()(const std::pair<u64,u64>& p) const { return p.first ^ p.second * 31; } };
        std::unordered_set<std::pair<u64,u64>,H> memo; u64 h1 = 0, h2 = 0;
        auto zob = [&](size_t i, u64& a, u64& b) { a = mix(i*2+1); b = mix(i*2+0x1234567); };
        auto candidates = [&](std::vector<size_t>& out) {
            while( start < N && (lin[start] ) ) ++start;
            i64 minret = INF; out.clear();
            for( size_t i = start; i < N && ops[i].inv <= minret; ++i ) {
                if( lin[i] ) continue; if( ! ops[i].pending ) minret = std::min(minret, ops[i].ret);
            }
            for( size_t i = start; i < N && ops[i].inv <= minret; ++i ) {
                if( lin[i] ) continue;
                int p = prev[i]; bool blocked = false; while( p >= 0 && ! lin[p] ) { if( ! ops[p].pending ) { blocked = true; break; } p = prev[p]; }
                if( ! blocked ) out.push_back(i);
            }
            std::sort(out.begin(), out.end(), [&](size_t a, size_t b) { return ops[a].ret < ops[b].ret; });
        };
        std::vector<size_t> cand; candidates(cand); size_t next = 0; u64 depth = 0;
        for(;;) {
            if( left == 0 ) return 0;
            bool moved = false;
            while( next < cand.size() ) {
                size_t i = cand[next++]; State n;
                if( ! apply(s, i, n) ) continue;
                if( ops[i].pending && n == s ) continue;
                u64 a, b; zob(i, a, b); u64 k1 = h1 ^ a, k2 = h2 ^ b;
                u64 sh = mix(n.val * 4ull + n.present) ^ mix(n.ver * 3 + 7) ^ mix(((u64)n.flags << 32 | (u32)n.lock) + 99);
                if( ! memo.insert({k1 ^ sh, k2 ^ mix(sh + 5)}).second ) continue;
                if( ++explored > limit ) return 2;
                st.push_back(Frame{i, s, std::move(cand), next});
                lin[i] = 1; h1 = k1; h2 = k2; if( ! ops[i].pending ) --left; s = n;
                // numbers of versions that are known once this operation is in the past
                if( ops[i].rcas ) ++used[ops[i].rcas];
                if( ++depth > maxdepth ) { maxdepth = depth; best.clear(); for( auto& f : st ) best.push_back(f.op); beststate = s; }
                size_t ss = start; candidates(cand); (void)ss; next = 0; moved = true; break;
            }
            if( moved ) continue;
            if( st.empty() ) return 1;
            Frame& f = st.back(); size_t i = f.op; lin[i] = 0; u64 a, b; zob(i, a, b); h1 ^= a; h2 ^= b; if( ! ops[i].pending ) ++left;
            if( ops[i].rcas ) --used[ops[i].rcas];
            if( i < start ) start = i;
            s = f.before; cand = std::move(f.cand); next = f.next; st.pop_back(); --depth;
        }
    }
    string show(const Op& o, i64 t0) {
        char b[400]; auto sh = [](const string& s) { return s.size() <= 40 ? s : s.substr(0, 30) + "..(" + std::to_string(s.size()) + ")"; };
        snprintf(b, sizeof b, "[%9.3f,%9.3f] conn%d #%d %s%s %s%s val=%s flags=%u cas=%llu num=%llu%s -> %s", (o.inv-t0)/1e6, o.ret == INF ? -1.0 : (o.ret-t0)/1e6, o.conn, o.seq,
            o.text ? "t:" : "b:", KN[o.kind], keyname(o.key).c_str(), o.quiet ? " quiet" : "", sh(o.val).c_str(), o.flags, (unsigned long long)o.cas, (unsigned long long)o.num, o.create ? " create" : "", RN[o.res]);
        string s = b; if( o.rcas ) s += " cas=" + std::to_string(o.rcas); if( o.hasnum ) s += " num=" + std::to_string(o.rnum); if( ! o.rval.empty() ) s += " value=" + sh(o.rval) + " flags=" + std::to_string(o.rflags); if( o.pending ) s += " (pending)"; return s;
    }
};

int main(int argc, char** argv) {
    for( int i = 1; i+1 < argc; i += 2 ) {
        string a = argv[i]; long long v = atoll(argv[i+1]);
        if( a == "port" ) C.port = v; else if( a == "conns" ) C.conns = v; else if( a == "keys" ) C.keys = v; else if( a == "ops" ) C.ops = v; else if( a == "pipe" ) C.pipe = v;
        else if( a == "profile" ) C.profile = v; else if( a == "heap" ) C.heap = v; else if( a == "resets" ) C.resets = v; else if( a == "seed" ) C.seed = v; else if( a == "seg" ) C.seg = v; else if( a == "limit" ) C.limit = v; else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
    }
    for( int k = 0; k < C.keys; ++k ) g_vers.push_back(new std::vector<std::atomic<u64>>(4));
    g_bar.n = C.conns;
    std::vector<std::thread> ts; for( int i = 0; i < C.conns; ++i ) ts.emplace_back(worker, i);
    for( auto& t : ts ) t.join();
    i64 t0 = INF; for( auto& o : g_hist ) t0 = std::min(t0, o.inv);
    if( ! g_error.empty() ) { printf("violation: %s\n", g_error.c_str()); return 1; }
    // every connection is gone: each lock must be released, and what is there must be consistent
    if( C.profile == 2 ) {
        try {
            Conn c; c.open();
            for( int k = 0; k < C.keys; ++k ) {
                i64 end = now() + 30000000000ll; string l;
                for(;;) { c.send("lock " + keyname(k) + "\r\n"); l = c.line(); if( l != "LOCKED\r\n" ) break; if( now() > end ) { printf("violation: %s is still locked 30 s after its owner disconnected\n", keyname(k).c_str()); return 1; } usleep(1000); }
                if( l == "OK\r\n" ) { c.send("unlock " + keyname(k) + "\r\n"); if( c.line() != "OK\r\n" ) { printf("violation: owner cannot unlock\n"); return 1; } }
                else if( l != "NOT_FOUND\r\n" ) { printf("violation: reply to lock: %s\n", l.c_str()); return 1; }
            }
            c.close(false);
        } catch( ... ) { printf("violation: no service after the run\n"); return 1; }
    }
    u64 ops = 0, explored = 0, overlap = 0, unk = 0, pend = 0; std::map<string,u64> outc; std::set<u64> sigs;
    for( int k = 0; k < C.keys; ++k ) {
        Checker ch; for( auto& o : g_hist ) if( o.key == k ) ch.ops.push_back(o);
        ch.init(); ops += ch.ops.size(); overlap += ch.overlap;
        std::vector<std::pair<i64,size_t>> byret; for( size_t i = 0; i < ch.ops.size(); ++i ) { auto& o = ch.ops[i]; ++outc[string(KN[o.kind]) + ":" + RN[o.res]]; if( o.res == RES_UNKNOWN ) ++unk; if( o.pending ) ++pend; byret.push_back({o.ret, i}); }
        // distinct local interleavings: kinds and outcomes of four successive completions and whether they overlapped
        std::sort(byret.begin(), byret.end());
        for( size_t i = 3; i < byret.size(); ++i ) { u64 h = 17; for( int j = 3; j >= 0; --j ) { auto& o = ch.ops[byret[i-j].second]; h = mix(h*131 + o.kind*16 + o.res*2 + (j < 3 && o.inv < ch.ops[byret[i-j-1].second].ret)); } sigs.insert(h); }
        int rc = ch.run(State(), C.limit);
        explored += ch.explored;
        if( rc == 2 ) { printf("inconclusive: search for %s exceeded its limit\n", keyname(k).c_str()); return 3; }
        if( rc == 1 ) {
            printf("violation: the history of %s is not linearizable (%zu operations, longest prefix %zu)\n", keyname(k).c_str(), ch.ops.size(), (size_t)ch.maxdepth);
            std::set<size_t> done(ch.best.begin(), ch.best.end());
            printf("state after it: present=%d value=%.60s flags=%u version=%llu lock=%d\nlast linearized:\n", ch.beststate.present, ch.strs[ch.beststate.val].c_str(), ch.beststate.flags, (unsigned long long)ch.beststate.ver, ch.beststate.lock);
            for( size_t i = ch.best.size() > 25 ? ch.best.size()-25 : 0; i < ch.best.size(); ++i ) printf("  %s\n", ch.show(ch.ops[ch.best[i]], t0).c_str());
            printf("not linearized:\n"); int n = 0; for( size_t i = 0; i < ch.ops.size() && n < 20; ++i ) if( ! done.count(i) && ! ch.ops[i].pending ) { printf("  %s\n", ch.show(ch.ops[i], t0).c_str()); ++n; }
            return 1;
        }
    }
    printf("ops=%llu\nexplored=%llu\noverlapping=%llu\nunknown=%llu\npending=%llu\ninterleavings=%zu\n", (unsigned long long)ops, (unsigned long long)explored, (unsigned long long)overlap, (unsigned long long)unk, (unsigned long long)pend, sigs.size());
    string x; for( auto& p : outc ) x += p.first + "=" + std::to_string(p.second) + ","; printf("outcomes %s\n", x.c_str());
    printf("sigs"); for( u64 h : sigs ) printf(" %llx", (unsigned long long)(h >> 16)); printf("\n");
    return 0;
}
