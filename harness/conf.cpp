// What configuration files are read as: one file per line of standard input, one line of result each.
#include <src/config.hpp>
#include <cstdio>
#include <exception>
#include <iostream>
#include <string>

static std::string hex(const std::string& s) {
    std::string o = "x";
    char b[4];
    for( unsigned char c: s ) { snprintf(b, sizeof b, "%02x", c); o += b; }
    return o;
}

int main() {
    for( std::string path; std::getline(std::cin, path); ) {
        try {
            yrmcds::config c;
            c.load(path);
            std::string bind;
            for( auto& a: c.bind_ip() ) bind += a.str() + ",";
            const auto& n = c.counter();
            std::cout << "ok virtual_ip=" << c.vip().str() << " port=" << c.port() << " repl_port=" << c.repl_port()
                      << " bind_ip=" << bind << " max_connections=" << c.max_connections()
                      << " temp_dir=" << hex(c.tempdir()) << " user=" << hex(c.user()) << " group=" << hex(c.group())
                      << " log.threshold=" << (c.threshold() == cybozu::severity::error ? "error" :
                                               c.threshold() == cybozu::severity::warning ? "warning" :
                                               c.threshold() == cybozu::severity::info ? "info" :
                                               c.threshold() == cybozu::severity::debug ? "debug" : "?")
                      << " log.file=" << hex(c.logfile()) << " buckets=" << c.buckets()
                      << " max_data_size=" << c.max_data_size() << " heap_data_limit=" << c.heap_data_limit()
                      << " memory_limit=" << c.memory_limit() << " repl_buffer_size=" << c.repl_bufsize()
                      << " initial_repl_sleep_delay_usec=" << c.initial_repl_sleep_delay_usec()
                      << " secure_erase=" << c.secure_erase() << " lock_memory=" << c.lock_memory()
                      << " workers=" << c.workers() << " gc_interval=" << c.gc_interval()
                      << " slave_timeout=" << c.slave_timeout() << " counter.enable=" << n.enable()
                      << " counter.port=" << n.port() << " counter.max_connections=" << n.max_connections()
                      << " counter.buckets=" << n.buckets() << " counter.stat_interval=" << n.stat_interval() << std::endl;
        } catch( const std::exception& e ) {
            std::cout << "error " << hex(e.what()) << std::endl;
        }
    }
}
