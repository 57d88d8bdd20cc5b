// Simulated operating system, CPU, network and disk: state the scenarios configure, and what they may observe.
#pragma once
#include "rt.h"
#include <map>
#include <set>
namespace simos {
// entropy devices. Every failure decision is a fault choice of the run.
struct Entropy {
	uint32_t csp_acquire_fail = 0, csp_gen_fail = 0, csp_partial = 0;  // x/16 per call
	uint32_t rd_fail = 0;            // x/16 per rdrand/rdseed step: transient carry-clear
	bool rd_dead = false;            // rdrand/rdseed always report failure
	bool os_info_fail = false;       // every system information call fails
	uint64_t stream = 0;             // selects the entropy bytes the devices return
	uint64_t csp_bytes = 0, rd_words = 0, csp_calls = 0, csp_failures = 0, rd_failures = 0; // observed
	bool csp_stuck = false, rd_stuck = false; // the device answers every request with the same bytes
	std::vector<uint8_t> delivered;  // what the CSP actually delivered
	std::vector<uint64_t> rd_delivered;
	std::vector<uint8_t> script; size_t script_pos = 0;        // when not empty: the bytes the CSP delivers
	std::vector<uint64_t> rd_script; size_t rd_script_pos = 0; // and the words of the processor
};
Entropy &entropy();
struct Mem { uint32_t lock_fail = 0, alloc_fail = 0; uint64_t locks = 0, unlocks = 0, allocs = 0, frees = 0, locked_now = 0, dirty = 0; }; // dirty: regions given back with data in them
Mem &mem();
void reset();

// ---- network
namespace net {
struct Config {
	uint64_t lat_min = 20000, lat_jitter = 200000;  // ns
	uint32_t short_read = 0, short_write = 0;       // x/16 per call
	uint32_t seg_split = 0;                         // x/16: a send arrives in several segments
	uint32_t reset = 0;                             // x/256 per send: connection reset
	uint32_t stall = 0;                             // x/32 per segment: a long delay
	uint32_t refuse = 0;                            // x/16 per connect
	uint32_t intr = 0;                              // x/16 per blocking call: interrupted
	uint32_t fail_socket = 0;                       // x/16
	uint32_t rcvbuf = 65536;
	uint32_t partition = 0;                         // x/256 per packet: nothing arrives for up to some seconds
	bool reuse = false;                             // a new socket gets the handle that was closed last, as real systems do
    uint8_t local[16] = {0}; bool local_set = false; // the address clients connect from, loopback if not set
};
Config &config();
void heal();                                        // no further faults
size_t open_sockets();
void first_port(uint16_t p); bool take_port(uint16_t p); // ports given to clients; take: was given, and not taken before
uint64_t bytes_sent();
struct Use { uint64_t calls = 0, on_closed = 0, faults = 0; }; // faults: calls that failed because a fault was injected
Use &use();                                         // calls on handles that are closed
}
// ---- disk
namespace disk {
struct Config { uint32_t read_err = 0, read_short = 0, write_err = 0, write_short = 0, seek_err = 0, open_err = 0, close_err = 0; int64_t capacity = -1; };
Config &config();
bool exists(const std::string &path);
std::vector<uint8_t> content(const std::string &path);   // what a process that opens the file now would read
void put(const std::string &path, const std::vector<uint8_t> &v);
void remove_all();
unsigned open_handles();
uint64_t faults_fired();                                 // I/O faults injected so far in this run
}
}
