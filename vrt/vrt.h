// vrt - a controlled execution runtime.
//
// The sources of /repo are compiled with -fsanitize=thread (so that every atomic operation
// becomes a call of __tsan_atomicN_*), but are linked without the sanitizer's library:
// vrt.cpp defines these functions, and the pthread, clock, poll and socket functions used
// by the code. Threads run one at a time; before every such operation the runtime may
// switch to another thread, as chosen by a seeded strategy. Time is virtual: it moves only
// when every thread is blocked, or when the strategy or a driver says so.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <poll.h>
#include <sys/socket.h>
#include <netdb.h>

namespace vrt {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1);
	uint64_t next();
	uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } // inclusive
};

struct Cfg {
	uint64_t seed = 1;
	bool tickable = false;   // the strategy may move the clock forward spontaneously
	bool spurious = true;    // spurious condition variable wakeups
	bool plainYield = true;  // allow preemption at plain memory accesses (some strategies)
	uint32_t maxSteps = 400000;
	// Real milliseconds to wait for kernel events once all threads are blocked and at
	// least one of them waits for a descriptor.
	uint32_t graceMs = 0;
	// Force a given strategy (see vrt.cpp), -1 = derived from the seed.
	int strategy = -1;
	// Run in a process of its own, which ends with the body: threads may be left running.
	bool forked = false;
};

// Execute a scenario under control. Returns when it and all its threads ended.
// If the run cannot end (deadlock, crash, endless run) the trace is flushed with a final
// event and the process exits with a special code.
void run(const Cfg& cfg, const std::function<void()>& body);

bool active();
int self();                 // index of the calling controlled thread
Rng& rng();                 // random stream for scenario decisions made at run time
uint64_t nowMs();           // virtual time, relative to the start of the run
uint64_t baseMs();          // absolute virtual time of the start of the run
void advanceMs(uint64_t d); // move the clock
void yield();
void stall();               // go on only when no other thread can

int spawn(const std::function<void()>& fn);
void join(int id);

// Block until every other thread is blocked. If full, then let time jump until nothing but
// a new stimulus can make any thread runnable. Returns false if the wait gave up.
void waitIdle(bool full);

// No thread switches while an object of this class exists (must not block meanwhile).
struct Quiet { Quiet(); ~Quiet(); };

// Atomically (no thread switch) take a flag: returns its old value and clears it.
bool take(bool& f);

// Block the calling thread until cond() is true (checked by the scheduler itself).
void waitUntil(const std::function<bool()>& cond);

// Trace. One JSON object per event; the text is the inside of the braces.
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string takeTrace();

// What to do with the trace if the run can't finish: called with a final status.
extern void (*onFatal)(const char* kind);

uint64_t stepCount();
uint64_t switchCount();
uint64_t threadsNow();

// Memory checks: an access to released memory is reported as a trace event "uaf".
bool isFreed(const void* p);
uint64_t liveBytes();       // bytes allocated by operator new and not freed, in the arena
uint64_t liveBlocks();
void leakOk();              // the memory left by this run is not reachable any more

// Hooks for descriptors. If set they are called instead of the real functions.
extern void (*hookClock)(timespec*);
extern ssize_t (*hookSendmsg)(int, const msghdr*, int);
extern ssize_t (*hookRecvmsg)(int, msghdr*, int);
extern int (*hookConnect)(int, const sockaddr*, socklen_t);
extern int (*hookAccept4)(int, sockaddr*, socklen_t*, int);
extern int (*hookGetaddrinfo)(const char*, const char*, const addrinfo*, addrinfo**);
extern void (*hookFreeaddrinfo)(addrinfo*);
extern void (*hookClose)(int);
extern int (*hookSocket)(int, int, int);
extern int (*hookShutdown)(int, int);

// A stand-in for the kernel's descriptors. If set, then all the functions below work with it:
// those creating a descriptor always, the others if it owns the descriptor.
struct Sys {
	virtual ~Sys() {}
	virtual bool owns(int fd) = 0;
	virtual unsigned mask(int fd) = 0; // what poll() would tell now
	virtual int socket(int, int, int) = 0;
	virtual int bind(int, const sockaddr*, socklen_t) = 0;
	virtual int listen(int, int) = 0;
	virtual int accept4(int, sockaddr*, socklen_t*, int) = 0;
	virtual int connect(int, const sockaddr*, socklen_t) = 0;
	virtual ssize_t sendmsg(int, const msghdr*, int) = 0;
	virtual ssize_t recvmsg(int, msghdr*, int) = 0;
	virtual int shutdown(int, int) = 0;
	virtual int close(int) = 0;
	virtual int getsockopt(int, int, int, void*, socklen_t*) = 0;
	virtual int setsockopt(int, int, int, const void*, socklen_t) = 0;
	virtual int getsockname(int, sockaddr*, socklen_t*) = 0;
	virtual int getpeername(int, sockaddr*, socklen_t*) = 0;
	virtual int fcntl(int, int, long) = 0;
	virtual int eventfd(unsigned, int) = 0;
	virtual ssize_t read(int, void*, size_t) = 0;
	virtual ssize_t write(int, const void*, size_t) = 0;
	virtual int epollCreate() = 0;
	virtual int epollCtl(int, int, int, void*) = 0;
	virtual int epollWait(int, void*, int) = 0; // doesn't wait
};
extern Sys* sys;
void sysChanged(); // the result of mask() might have changed
ssize_t realSendmsg(int, const msghdr*, int);
ssize_t realRecvmsg(int, msghdr*, int);
int realConnect(int, const sockaddr*, socklen_t);
int realAccept4(int, sockaddr*, socklen_t*, int);
int realClose(int);
int realSocket(int, int, int);
int realShutdown(int, int);
int realPoll(pollfd*, nfds_t, int);

// Driver main loop: parses the command line, runs scenarios, writes deduplicated traces.
struct Scenario {
	std::string cfgJson; // goes to the trace line as "cfg"
	Cfg cfg;
	std::function<void()> body;
};
using MakeScenario = std::function<Scenario(uint64_t seed, const std::vector<std::string>& args)>;
int driverMain(int argc, char** argv, const MakeScenario& make);

}
