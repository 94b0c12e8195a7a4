// The request parsers on input of every shape, in buffers that end where the input ends.
#include <src/config.hpp>
#include <src/global.hpp>
#include <src/memcache/memcache.hpp>
#include <src/memcache/object.hpp>
#include <src/memcache/replication.hpp>
#include <src/counter/counter.hpp>
#include <cybozu/logger.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <set>
#include <string>
#include <vector>

namespace mc = yrmcds::memcache;
namespace ct = yrmcds::counter;
typedef std::mt19937_64 rng_t;
static rng_t R;
static unsigned rnd(unsigned n) { return n ? R() % n : 0; }
static volatile unsigned char g_sink;
static void touch(const char* p, std::size_t n) { for( std::size_t i = 0; i < n; ++i ) g_sink = p[i]; }
static std::set<std::string> g_sigs;
static std::string g_last;
static unsigned long g_parses = 0;

static std::string hex(const std::string& s) {
    std::string o;
    char b[4];
    for( unsigned char c: s ) { snprintf(b, sizeof b, "%02x", c); o += b; }
    return o;
}
static void sig(const char* what, int cmd, int valid, std::size_t n, std::size_t len) {
    char b[100];
    snprintf(b, sizeof b, "%s/%d/%d/%d", what, cmd, valid, n == 0 ? 0 : n == len ? 1 : 2);
    g_sigs.insert(b);
}
[[noreturn]] static void bad(const char* what) {
    printf("BAD %s: input %s\n", what, hex(g_last).c_str());
    fflush(stdout);
    _exit(1);
}

// one pass of the loop over received data, every request parsed in a block of exactly its own size
static void memcache(const std::string& in) {
    std::size_t off = 0;
    while( off < in.size() ) {
        g_last = in.substr(off);
        std::size_t len = g_last.size();
        std::vector<char> buf(g_last.begin(), g_last.end());
        buf.shrink_to_fit();
        std::size_t n;
        ++g_parses;
        if( mc::is_binary_request(buf.data()) ) {
            mc::binary_request q(buf.data(), len);
            n = q.length();
            sig("bin", n ? (unsigned char)q.opcode() : -1, (int)q.status(), n, len);
            if( n > len ) bad("a request longer than the data");
            if( n ) {
                const char* p; std::size_t l;
                std::tie(p, l) = q.key();
                if( l ) touch(p, l);
                std::tie(p, l) = q.data();
                if( l ) touch(p, l);
                touch(q.opaque(), 4);
            }
        } else {
            mc::text_request q(buf.data(), len);
            n = q.length();
            sig("text", (int)q.command(), q.valid(), n, len);
            if( n > len ) bad("a request longer than the data");
            if( n && q.valid() ) {
                const char* p; std::size_t l;
                std::tie(p, l) = q.key();
                if( l ) touch(p, l);
                std::tie(p, l) = q.data();
                if( l ) touch(p, l);
                if( q.command() == mc::text_command::GET || q.command() == mc::text_command::GETS ) {
                    unsigned k = 0;
                    for( mc::item i = q.first_key(); i != mc::text_request::eos; i = mc::text_request::next_key(i) ) {
                        std::tie(p, l) = i;
                        touch(p, l);
                        if( ++k > len ) bad("endless keys");
                    }
                }
            }
        }
        if( n == 0 ) break;
        off += n;
    }
}
static void counter(const std::string& in) {
    std::size_t off = 0;
    while( off < in.size() ) {
        g_last = in.substr(off);
        std::size_t len = g_last.size();
        std::vector<char> buf(g_last.begin(), g_last.end());
        buf.shrink_to_fit();
        ++g_parses;
        ct::request q(buf.data(), len);
        std::size_t n = q.length();
        sig("ctr", n ? (unsigned char)q.opcode() : -1, (int)q.status(), n, len);
        if( n > len ) bad("a request longer than the data");
        if( n == 0 ) break;
        if( q.name().len ) touch(q.name().p, q.name().len);
        touch(q.opaque(), 4);
        off += n;
    }
}

// ---- generators ----
static std::string num() {
    static const char* x[] = {"0", "1", "5", "10", "250", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616",
        "99999999999999999999999", "-1", "+1", "0x5", "1e5", "", " ", "7x", "00000000000000000000000000000005", "\xff", "1048576", "-9223372036854775808"};
    if( rnd(3) == 0 ) return std::to_string(rnd(300));
    return x[rnd(sizeof x / sizeof *x)];
}
static std::string word() {
    static const char* x[] = {"set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr", "decr", "touch", "lock", "unlock",
        "unlock_all", "slabs", "automove", "reassign", "stats", "settings", "items", "sizes", "ops", "reset", "flush_all", "version", "verbosity", "quit", "keys", "noreply", "error",
        "warning", "info", "debug", "k", "key", "s", "g", "ge", "unlock_al", "unlock_alll", "f", "\xff"};
    return x[rnd(sizeof x / sizeof *x)];
}
static std::string bytes(unsigned n) {
    std::string s;
    while( n-- ) s += (char)(rnd(4) ? 'a' + rnd(26) : rnd(256));
    return s;
}
static std::string sep() { return rnd(8) ? " " : std::string(rnd(4), ' '); }
static std::string eol() {
    switch( rnd(12) ) { case 0: return "\n"; case 1: return "\r"; case 2: return ""; case 3: return " \r\n"; case 4: return "\r\r\n"; default: return "\r\n"; }
}
static std::string text() {
    std::string s;
    if( rnd(3) == 0 ) {
        // a storage command whose data block may or may not fit
        unsigned n = rnd(4) ? rnd(40) : rnd(3000);
        s = word() + sep() + (rnd(20) ? bytes(1 + rnd(20)) : bytes(249 + rnd(4))) + sep() + num() + sep() + num() + sep() + (rnd(5) ? std::to_string(n) : num());
        if( rnd(4) == 0 ) s += sep() + num();
        if( rnd(4) == 0 ) s += sep() + "noreply";
        s += eol() + bytes(rnd(6) ? n : rnd(50)) + (rnd(6) ? "\r\n" : eol());
        return s;
    }
    s = word();
    for( unsigned i = rnd(6); i; --i ) s += sep() + (rnd(2) ? num() : rnd(3) ? word() : bytes(rnd(rnd(10) ? 10 : 300)));
    return s + eol();
}
static void be(std::string& s, std::uint64_t v, int n) { while( n-- ) s += (char)(v >> (8*n)); }
static std::string binary() {
    static const unsigned ops[] = {0,1,2,3,4,5,6,7,8,9,0xa,0xb,0xc,0xd,0xe,0xf,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1c,0x1d,0x1e,0x23,0x24,
        0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x50};
    unsigned op = rnd(8) ? ops[rnd(sizeof ops / sizeof *ops)] : rnd(256);
    static const unsigned el[] = {0, 4, 8, 20, 1, 255};
    unsigned e = el[rnd(rnd(4) ? 4 : 6)], k = rnd(4) ? 1 + rnd(12) : rnd(10) ? 0 : 248 + rnd(6), d = rnd(3) ? rnd(30) : 0;
    std::uint32_t total = e + k + d;
    unsigned ke = k, ee = e;
    if( rnd(5) == 0 ) total = rnd(2) ? rnd(40) : (std::uint32_t)R();
    if( rnd(8) == 0 ) ke = rnd(2) ? rnd(300) : rnd(65536);
    if( rnd(8) == 0 ) ee = rnd(256);
    std::string s = "\x80";
    s += (char)op;
    be(s, ke, 2); s += (char)ee; s += (char)(rnd(10) ? 0 : rnd(256)); be(s, rnd(10) ? 0 : rnd(65536), 2); be(s, total, 4); be(s, R(), 4); be(s, rnd(2) ? 0 : R(), 8);
    std::string body = bytes(e + k + d);
    if( rnd(4) == 0 ) { static const char* st[] = {"settings", "items", "sizes", "ops", "setting", "op"}; body = st[rnd(6)]; if( rnd(2) ) { s[2] = 0; s[3] = body.size(); s[4] = 0; s[8] = s[9] = s[10] = 0; s[11] = body.size(); } }
    return s + body;
}
static std::string count_req() {
    static const unsigned ops[] = {0, 1, 2, 3, 0x10, 0x11};
    unsigned op = rnd(6) ? ops[rnd(6)] : rnd(256);
    std::string name = bytes(rnd(10) ? rnd(12) : rnd(400)), body;
    if( op == 2 ) { be(body, rnd(3) ? rnd(5) : R(), 4); be(body, rnd(3) ? rnd(50) : R(), 4); }
    if( op == 3 ) be(body, rnd(3) ? rnd(5) : R(), 4);
    if( op < 0x10 && op ) be(body, rnd(5) ? name.size() : rnd(2) ? rnd(30) : rnd(65536), 2);
    body += name;
    if( rnd(5) == 0 ) body.resize(rnd(16));
    std::string s;
    s += (char)(rnd(20) ? 0x90 : rnd(256)); s += (char)op; s += (char)rnd(256); s += (char)rnd(256);
    be(s, rnd(6) ? body.size() : rnd(2) ? rnd(40) : R(), 4); be(s, R(), 4);
    return s + body;
}
static void mutate(std::string& s) {
    for( unsigned i = rnd(4); i && ! s.empty(); --i )
        switch( rnd(5) ) {
        case 0: s[rnd(s.size())] = (char)rnd(256); break;
        case 1: s.erase(rnd(s.size()), 1 + rnd(3)); break;
        case 2: s.insert(rnd(s.size() + 1), bytes(1 + rnd(3))); break;
        case 3: s.resize(rnd(s.size() + 1)); break;
        case 4: { unsigned a = rnd(s.size()), b = rnd(s.size()); std::swap(s[a], s[b]); }
        }
}
// what a master sends, cut anywhere
static std::string repl() {
    std::string s;
    for( unsigned i = 1 + rnd(6); i; --i ) {
        std::string key = bytes(1 + rnd(20)), data = bytes(rnd(3) ? rnd(50) : rnd(3000)), q = "\x80";
        unsigned op = (const unsigned[]){0x11, 0x11, 0x1c, 0x14, 0x18}[rnd(5)], e = op == 0x11 ? 8 : op == 0x1c ? 4 : 0;
        if( op != 0x11 ) data.clear();
        if( op == 0x18 ) key.clear();
        q += (char)op; be(q, key.size(), 2); q += (char)e; q += '\0'; be(q, 0, 2); be(q, key.size() + e + data.size(), 4); be(q, 0, 4); be(q, 0, 8);
        be(q, R(), e == 8 ? 4 : 0); if( e ) be(q, rnd(2) ? 0 : R(), 4);
        s += q + key + data;
    }
    return s;
}

int main(int argc, char** argv) {
    R.seed(atoll(argv[1]));
    unsigned long n = atol(argv[2]);
    cybozu::logger::set_threshold(cybozu::severity::error);
    yrmcds::g_current_time.store(1700000000);
    cybozu::hash_map<mc::object> hash(101);
    unsigned long cuts = 0;
    for( unsigned long i = 0; i < n; ++i ) {
        std::string s;
        for( unsigned k = 1 + rnd(3); k; --k ) s += rnd(2) ? text() : binary();
        if( rnd(2) ) mutate(s);
        if( ! s.empty() ) memcache(s);
        if( rnd(10) == 0 && s.size() < 200 )
            for( std::size_t c = 1; c < s.size(); ++c, ++cuts ) memcache(s.substr(0, c));
        s.clear();
        for( unsigned k = 1 + rnd(3); k; --k ) s += count_req();
        if( rnd(2) ) mutate(s);
        if( ! s.empty() ) counter(s);
        if( rnd(10) == 0 && s.size() < 200 )
            for( std::size_t c = 1; c < s.size(); ++c, ++cuts ) counter(s.substr(0, c));
        if( i % 4 == 0 ) {
            s = repl();
            g_last = s;
            std::string rest = s;
            while( ! rest.empty() ) {
                std::size_t c = rnd(2) ? rest.size() : 1 + rnd(rest.size());
                std::vector<char> buf(rest.begin(), rest.begin() + c);
                buf.shrink_to_fit();
                std::size_t used = mc::repl_recv(buf.data(), c, hash);
                if( used > c ) bad("a slave consumed more than it received");
                rest.erase(0, used);
                if( c == rest.size() + used && used == 0 && c == s.size() ) bad("a slave does not consume whole requests");
                if( c == rest.size() && used == 0 ) break;
                ++g_parses;
            }
        }
    }
    printf("parses=%lu cuts=%lu sigs=%zu\n", g_parses, cuts, g_sigs.size());
    for( auto& s: g_sigs ) printf("S %s\n", s.c_str());
    fflush(stdout);
    _exit(0);
}
