// Concurrent counter clients: records a history at the client boundary and checks per counter that
// it is linearizable: consumption = sum of what the connections hold, grants respect the maximum.
//
// exit 0 = linearizable, 1 = violation (on stdout), 3 = inconclusive.
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <set>
#include <string>
#include <sys/socket.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>
using std::string;
typedef std::uint64_t u64; typedef std::uint32_t u32; typedef std::int64_t i64;
static i64 now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Rng { u64 s; u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } u64 below(u64 n) { return (next() >> 11) % n; } bool p(int pct) { return below(100) < (u64)pct; } };
static const i64 INF = INT64_MAX;
enum Kind { ACQ, REL, GET, ALL, NKIND };
static const char* KN[] = {"acquire","release","get","(disconnect)"};
enum Res { UNK, OK, NOTFOUND, NA, NOTACQ, INVALID };
static const char* RN[] = {"?","OK","NOT_FOUND","NOT_AVAILABLE","NOT_ACQUIRED","INVALID"};
struct Op { int conn = 0, key = 0; Kind kind = GET; u32 n = 0, mx = 0; Res res = UNK; u32 val = 0; i64 inv = 0, ret = INF; int seq = 0; bool pending = false, dump = false; };
struct Conf { int port = 0, conns = 6, keys = 2, ops = 400, pipe = 3, resets = 0, seg = 40, limit = 1000000, big = 0, moving = 0; u64 seed = 1; } C;
static std::atomic<bool> g_stop{false}; static std::mutex g_m; static string g_error; static std::atomic<int> g_ident{0}; static std::vector<Op> g_hist; static std::atomic<u64> g_dumps{0};
static void fail(const string& s) { std::lock_guard<std::mutex> l(g_m); if( g_error.empty() ) g_error = s; g_stop = true; }
static string name(int k) { string s = "counter" + std::to_string(k) + "." + std::to_string(C.seed); if( k == 1 ) s += string(300, 'n'); return s; }
struct Closed {}; struct Tmo {};
static void be(string& s, u64 v, int n) { for( int i = n-1; i >= 0; --i ) s.push_back((char)(v >> (8*i))); }
static u64 rbe(const string& s, size_t o, int n) { u64 v = 0; for( int i = 0; i < n; ++i ) v = v << 8 | (unsigned char)s[o+i]; return v; }
static string req(int op, const string& body, u32 opaque) { string s; be(s, 0x90, 1); be(s, op, 1); be(s, 0, 2); be(s, body.size(), 4); be(s, opaque, 4); return s + body; }
struct Conn {
    int fd = -1; string buf; size_t pos = 0; i64 last = 0;
    void open() {
        fd = socket(AF_INET, SOCK_STREAM|SOCK_CLOEXEC, 0); struct sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(C.port); a.sin_addr.s_addr = htonl(0x7f000001);
        struct timeval tv{60, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); int v = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, sizeof v);
        if( connect(fd, (struct sockaddr*)&a, sizeof a) != 0 ) throw Closed(); buf.clear(); pos = 0;
    }
    void send(const string& s) { size_t o = 0; while( o < s.size() ) { ssize_t n = ::send(fd, s.data()+o, s.size()-o, MSG_NOSIGNAL); if( n < 0 ) { if( errno == EINTR ) continue; throw Closed(); } o += n; } }
    void more() { char b[65536]; ssize_t n; if( pos > 65536 ) { buf.erase(0, pos); pos = 0; } do n = ::recv(fd, b, sizeof b, 0); while( n < 0 && errno == EINTR ); last = now(); if( n < 0 && errno == EAGAIN ) throw Tmo(); if( n <= 0 ) throw Closed(); buf.append(b, n); }
    string take(size_t n) { while( buf.size() - pos < n ) more(); string r = buf.substr(pos, n); pos += n; return r; }
    void close(bool rst) { if( fd < 0 ) return; if( rst ) { struct linger l{1,0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); fd = -1; }
};
struct Resp { int op, status; u32 opaque; string body; };
static Resp recv_(Conn& c) {
    string h = c.take(12); Resp r; if( (unsigned char)h[0] != 0x91 ) { fail("bad magic in a response"); throw Closed(); }
    r.op = (unsigned char)h[1]; r.status = (unsigned char)h[2]; size_t n = rbe(h,4,4); r.opaque = rbe(h,8,4); if( n > (1<<24) ) { fail("absurd length in a response"); throw Closed(); } r.body = c.take(n); return r;
}
struct Barrier { std::mutex m; std::condition_variable cv; int n = 0, in = 0; u64 gen = 0;
    void wait() { std::unique_lock<std::mutex> l(m); u64 g = gen; if( ++in >= n ) { in = 0; ++gen; cv.notify_all(); return; } while( g == gen && ! g_stop ) cv.wait_for(l, std::chrono::milliseconds(50)); }
    void leave() { std::unique_lock<std::mutex> l(m); --n; if( n > 0 && in >= n ) { in = 0; ++gen; cv.notify_all(); } } } g_bar;
static void worker_(int idx) {
    Rng r{C.seed * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + 77}; for( int i = 0; i < 10; ++i ) r.next();
    std::vector<Op> mine; int done = 0, seq = 0, resets = C.resets, segs = 0; u32 opaque = 0; Conn c; int ident = ++g_ident;
    std::vector<u64> held(C.keys, 0);       // by the answers received
    try { c.open(); } catch( ... ) { fail("cannot connect"); return; }
    auto gone = [&](i64 at) { for( int k = 0; k < C.keys; ++k ) { Op o; o.conn = ident; o.key = k; o.kind = ALL; o.pending = true; o.res = OK; o.inv = at; o.seq = seq++; mine.push_back(o); } held.assign(C.keys, 0); };
    while( done < C.ops && ! g_stop ) {
        size_t m = 1 + (r.p(40) ? r.below(C.pipe) : 0); std::vector<Op> b; string data; u32 first = opaque + 1; bool dump = false, pin = false;
        if( done / C.seg != segs ) { segs = done / C.seg; g_bar.wait(); if( idx == segs % C.conns ) { pin = true; m = C.keys; } }
        for( size_t i = 0; i < m; ++i ) {
            Op o; o.conn = ident; o.key = r.below(C.keys); o.seq = seq++; int x = r.below(100); u64 h = held[o.key];
            if( pin ) { o.key = i; o.kind = GET; }
            else if( x < 45 ) { o.kind = ACQ; o.n = r.p(90) ? 1 + r.below(4) : 1 + r.below(12); o.mx = o.n + r.below(r.p(70) ? 10 : 3);
                if( C.big && r.p(60) ) { o.n = r.p(50) ? 0x40000000u + r.below(3) : 0xfffffff0u + r.below(16); o.mx = std::max<u64>(o.n, 0xffffffffu - r.below(20)); } }
            else if( x < 80 ) { o.kind = REL; o.n = h && r.p(85) ? (r.p(50) ? h : 1 + r.below(h)) : 1 + r.below(4); }
            else o.kind = GET;
            string body, nm = name(o.key);
            if( o.kind == ACQ ) { be(body, o.n, 4); be(body, o.mx, 4); be(body, nm.size(), 2); data += req(2, body + nm, ++opaque); }
            else if( o.kind == REL ) { be(body, o.n, 4); be(body, nm.size(), 2); data += req(3, body + nm, ++opaque); }
            else { be(body, nm.size(), 2); data += req(1, body + nm, ++opaque); }
            b.push_back(o);
        }
        if( r.p(4) ) { dump = true; data += req(0x11, "", ++opaque); }
        i64 t = now(); for( auto& o : b ) o.inv = t;
        done += b.size();
        bool die = resets > 0 && r.below(30) == 0;
        try {
            if( die ) {
                --resets;
                if( r.p(60) ) { c.send(data.substr(0, r.p(50) ? data.size() : r.below(data.size()+1))); for( auto& o : b ) { o.pending = true; mine.push_back(o); } }
                i64 at = now(); if( r.p(30) ) usleep(r.below(2000));
                if( r.p(15) ) { shutdown(c.fd, SHUT_WR); usleep(r.below(3000)); }
                c.close(r.p(60)); gone(at); c.open(); ident = ++g_ident; continue;
            }
            c.send(data); u32 q = first;
            for( auto& o : b ) {
                Resp x = recv_(c); static const int BO[] = {2, 3, 1};
                if( x.opaque != q++ || x.op != BO[o.kind] ) { fail("response out of order: opcode " + std::to_string(x.op) + " opaque " + std::to_string(x.opaque)); break; }
                o.ret = c.last;
                switch( x.status ) { case 0: o.res = OK; break; case 1: o.res = NOTFOUND; break; case 0x21: o.res = NA; break; case 0x22: o.res = NOTACQ; break; default: fail("unexpected status " + std::to_string(x.status)); }
                if( o.res == OK && o.kind != REL ) { if( x.body.size() != 4 ) fail("bad body length"); else o.val = rbe(x.body,0,4); if( o.kind == ACQ && o.val != o.n ) fail("acquire reports another amount"); }
                if( o.res == OK && o.kind == ACQ ) held[o.key] += o.n;
                if( o.kind == REL ) {   // fully determined by this connection's own past
                    if( o.res == OK && o.n > held[o.key] ) fail("released " + std::to_string(o.n) + " while holding " + std::to_string(held[o.key]));
                    if( o.res != OK && o.n <= held[o.key] ) fail(string("release of held resources refused: ") + RN[o.res]);
                    if( o.res == OK ) held[o.key] -= o.n;
                }
            }
            if( dump && ! g_stop ) {
                std::map<string, u32> d; for(;;) { Resp x = recv_(c); if( x.opaque != q || x.op != 0x11 || x.status != 0 ) { fail("bad response to dump"); break; } if( x.body.empty() ) break;
                    if( x.body.size() < 10 || 10 + rbe(x.body,8,2) != x.body.size() ) { fail("malformed dump entry"); break; } string nm = x.body.substr(10); u32 cons = rbe(x.body,0,4), mx = rbe(x.body,4,4);
                    if( mx < cons ) { fail("dump: maximum below the consumption"); break; } if( ! d.emplace(nm, cons).second ) { fail("dump lists a counter twice"); break; } }
                for( int k = 0; k < C.keys; ++k ) { Op o; o.conn = ident; o.key = k; o.kind = GET; o.dump = true; o.seq = seq++; o.inv = t; o.ret = c.last; auto it = d.find(name(k)); if( it == d.end() ) o.res = NOTFOUND; else { o.res = OK; o.val = it->second; } b.push_back(o); }
                ++g_dumps;
            }
            for( auto& o : b ) mine.push_back(o);
        } catch( Tmo ) { fail("no answer within 60 s"); } catch( Closed ) { fail("the server closed the connection"); }
    }
    gone(now()); c.close(r.p(50));
    std::lock_guard<std::mutex> l(g_m); for( auto& o : mine ) g_hist.push_back(o);
}
static void worker(int i) { worker_(i); g_bar.leave(); }

struct State { u64 cons = 0; bool present = false; std::vector<u32> held; };
static inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct Checker {
    std::vector<Op> ops; std::vector<int> prev; u64 explored = 0, maxdepth = 0, overlap = 0; std::vector<size_t> best; u64 bestcons = 0;
    void init() {
        std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.inv != b.inv ? a.inv < b.inv : a.conn != b.conn ? a.conn < b.conn : a.seq < b.seq; });
        std::map<int,int> lastof; prev.assign(ops.size(), -1); i64 mx = 0;
        for( size_t i = 0; i < ops.size(); ++i ) { auto it = lastof.find(ops[i].conn); if( it != lastof.end() ) prev[i] = it->second; if( ! ops[i].dump ) lastof[ops[i].conn] = i; if( ops[i].inv < mx ) ++overlap; if( ops[i].ret != INF ) mx = std::max(mx, ops[i].ret); }
    }
    bool apply(const State& s, size_t i, State& n) {
        const Op& o = ops[i]; bool unk = o.res == UNK; bool maybe_gone = s.cons == 0 && C.moving; u32 h = s.held[o.conn];
        switch( o.kind ) {
        case GET: if( unk ) { n = s; return true; } if( o.res == NOTFOUND ) { if( s.present && ! maybe_gone ) return false; n = s; n.present = false; return true; } if( ! s.present || o.val != s.cons ) return false; n = s; return true;
        case ACQ: { bool grant = s.cons + o.n <= o.mx; if( ! s.present ) grant = true; if( ! unk && o.res != (grant ? OK : NA) ) return false; n = s; if( grant ) { n.present = true; n.cons += o.n; n.held[o.conn] += o.n; } return true; }
        case REL: if( o.res == NOTFOUND ) { if( s.present && ! maybe_gone ) return false; n = s; n.present = false; return true; }
            if( ! s.present ) { if( ! unk ) return false; n = s; return true; }
            if( o.n > h ) { if( ! unk && o.res != NOTACQ ) return false; n = s; return true; }
            if( ! unk && o.res != OK ) return false; n = s; n.cons -= o.n; n.held[o.conn] -= o.n; return true;
        case ALL: if( ! h ) return false; n = s; n.cons -= h; n.held[o.conn] = 0; return true;
        default: abort(); }
    }
    int run(u64 limit) {
        int mx = 0; for( auto& o : ops ) mx = std::max(mx, o.conn); State s; s.held.assign(mx+1, 0);
        size_t N = ops.size(); std::vector<char> lin(N, 0); size_t start = 0, left = 0; for( auto& o : ops ) if( ! o.pending ) ++left;
        struct Frame { size_t op; State before; std::vector<size_t> cand; size_t next; }; std::vector<Frame> st;
        struct H { size_t operator()(const std::pair<u64,u64>& p) const { return p.first ^ p.second * 31; } }; std::unordered_set<std::pair<u64,u64>,H> memo; u64 h1 = 0, h2 = 0;
        auto candidates = [&](std::vector<size_t>& out) {
            while( start < N && lin[start] ) ++start;
            i64 minret = INF; out.clear();
            for( size_t i = start; i < N && ops[i].inv <= minret; ++i ) if( ! lin[i] && ! ops[i].pending ) minret = std::min(minret, ops[i].ret);
            for( size_t i = start; i < N && ops[i].inv <= minret; ++i ) { if( lin[i] ) continue; int p = prev[i]; bool bl = false; if( ! ops[i].dump ) while( p >= 0 && ! lin[p] ) { if( ! ops[p].pending ) { bl = true; break; } p = prev[p]; } if( ! bl ) out.push_back(i); }
            std::sort(out.begin(), out.end(), [&](size_t a, size_t b) { return ops[a].ret < ops[b].ret; });
        };
        std::vector<size_t> cand; candidates(cand); size_t next = 0; u64 depth = 0;
        for(;;) {
            if( left == 0 ) return 0;
            bool moved = false;
            while( next < cand.size() ) {
                size_t i = cand[next++]; State n; if( ! apply(s, i, n) ) continue;
                if( ops[i].pending && n.cons == s.cons && n.present == s.present ) continue;
                u64 k1 = h1 ^ mix(i*2+1), k2 = h2 ^ mix(i*2+0x1234567), sh = mix(n.cons * 2 + n.present); for( size_t j = 0; j < n.held.size(); ++j ) if( n.held[j] ) sh ^= mix(((u64)j << 32 | n.held[j]) * 7 + 3);
                if( ! memo.insert({k1 ^ sh, k2 ^ mix(sh + 5)}).second ) continue;
                if( ++explored > limit ) return 2;
                st.push_back(Frame{i, s, std::move(cand), next}); lin[i] = 1; h1 = k1; h2 = k2; if( ! ops[i].pending ) --left; s = n;
                if( ++depth > maxdepth ) { maxdepth = depth; best.clear(); for( auto& f : st ) best.push_back(f.op); bestcons = s.cons; }
                candidates(cand); next = 0; moved = true; break;
            }
            if( moved ) continue;
            if( st.empty() ) return 1;
            Frame& f = st.back(); size_t i = f.op; lin[i] = 0; h1 ^= mix(i*2+1); h2 ^= mix(i*2+0x1234567); if( ! ops[i].pending ) ++left; if( i < start ) start = i; s = f.before; cand = std::move(f.cand); next = f.next; st.pop_back(); --depth;
        }
    }
    string show(const Op& o, i64 t0) { char b[300]; snprintf(b, sizeof b, "[%9.3f,%9.3f] conn%d #%d %s%s counter%d n=%u max=%u -> %s %u%s", (o.inv-t0)/1e6, o.ret == INF ? -1. : (o.ret-t0)/1e6, o.conn, o.seq, KN[o.kind], o.dump ? " (dump)" : "", o.key, o.n, o.mx, RN[o.res], o.val, o.pending ? " (pending)" : ""); return b; }
};
int main(int argc, char** argv) {
    for( int i = 1; i+1 < argc; i += 2 ) { string a = argv[i]; long long v = atoll(argv[i+1]);
        if( a == "port" ) C.port = v; else if( a == "conns" ) C.conns = v; else if( a == "keys" ) C.keys = v; else if( a == "ops" ) C.ops = v; else if( a == "pipe" ) C.pipe = v; else if( a == "resets" ) C.resets = v; else if( a == "seed" ) C.seed = v; else if( a == "seg" ) C.seg = v; else if( a == "limit" ) C.limit = v; else if( a == "big" ) C.big = v; else if( a == "moving" ) C.moving = v; else return 2; }
    g_bar.n = C.conns; std::vector<std::thread> ts; for( int i = 0; i < C.conns; ++i ) ts.emplace_back(worker, i); for( auto& t : ts ) t.join();
    if( ! g_error.empty() ) { printf("violation: %s\n", g_error.c_str()); return 1; }
    // everything is returned after everybody left, exactly once: consumption comes to 0 and stays there
    try {
        Conn c; c.open(); i64 end = now() + 30000000000ll;
        for( int k = 0; k < C.keys; ++k ) { int zeros = 0; for(;;) { string b, nm = name(k); be(b, nm.size(), 2); c.send(req(1, b + nm, 7)); Resp x = recv_(c); u32 v = x.status == 1 ? 0 : x.body.size() == 4 ? rbe(x.body,0,4) : 999;
            if( v == 0 && ++zeros >= 5 ) break; if( v && zeros ) { printf("violation: consumption of counter%d came back after everything was returned: %u\n", k, v); return 1; }
            if( now() > end ) { printf("violation: counter%d is still consumed (%u) 30 s after all connections ended\n", k, v); return 1; } usleep(1000); } }
        c.close(true);
    } catch( ... ) { printf("violation: no service after the run\n"); return 1; }
    i64 t0 = INF; for( auto& o : g_hist ) t0 = std::min(t0, o.inv);
    u64 ops = 0, explored = 0, overlap = 0, pend = 0; std::map<string,u64> outc; std::set<u64> sigs;
    for( int k = 0; k < C.keys; ++k ) {
        Checker ch; for( auto& o : g_hist ) if( o.key == k ) ch.ops.push_back(o); ch.init(); ops += ch.ops.size(); overlap += ch.overlap;
        std::vector<std::pair<i64,size_t>> br; for( size_t i = 0; i < ch.ops.size(); ++i ) { auto& o = ch.ops[i]; ++outc[string(KN[o.kind]) + ":" + RN[o.res]]; if( o.pending ) ++pend; br.push_back({o.ret, i}); }
        std::sort(br.begin(), br.end()); for( size_t i = 3; i < br.size(); ++i ) { u64 h = 17; for( int j = 3; j >= 0; --j ) { auto& o = ch.ops[br[i-j].second]; h = mix(h*131 + o.kind*16 + o.res*2 + (j < 3 && o.inv < ch.ops[br[i-j-1].second].ret)) + o.val % 7; } sigs.insert(h); }
        int rc = ch.run(C.limit); explored += ch.explored;
        if( rc == 2 ) { printf("inconclusive: search exceeded its limit\n"); return 3; }
        if( rc == 1 ) {
            printf("violation: the history of counter%d is not linearizable (%zu operations, longest prefix %llu, consumption after it %llu)\nlast linearized:\n", k, ch.ops.size(), (unsigned long long)ch.maxdepth, (unsigned long long)ch.bestcons);
            std::set<size_t> done(ch.best.begin(), ch.best.end()); for( size_t i = ch.best.size() > 25 ? ch.best.size()-25 : 0; i < ch.best.size(); ++i ) printf("  %s\n", ch.show(ch.ops[ch.best[i]], t0).c_str());
            printf("not linearized:\n"); int n = 0; for( size_t i = 0; i < ch.ops.size() && n < 20; ++i ) if( ! done.count(i) && ! ch.ops[i].pending ) { printf("  %s\n", ch.show(ch.ops[i], t0).c_str()); ++n; }
            return 1;
        }
    }
    printf("ops=%llu\nexplored=%llu\noverlapping=%llu\npending=%llu\ndumps=%llu\n", (unsigned long long)ops, (unsigned long long)explored, (unsigned long long)overlap, (unsigned long long)pend, (unsigned long long)g_dumps);
    string x; for( auto& p : outc ) x += p.first + "=" + std::to_string(p.second) + ","; printf("outcomes %s\n", x.c_str());
    printf("sigs"); for( u64 h : sigs ) printf(" %llx", (unsigned long long)(h >> 16)); printf("\n");
    return 0;
}
