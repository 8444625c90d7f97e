#include "vrt.h"
#include <sys/wait.h>

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <csignal>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ctime>
#include <unistd.h>
#include <unordered_set>

#define VRT_MAXT 64

namespace vrt {

//////////////////////////////////////////////////////////////////////////////////////////
// Real functions.

#define REAL(name) ((decltype(&name))realSym(#name))

static void* realSym(const char* name)
{
	void* p = dlsym(RTLD_NEXT, name);
	if (!p) {
		fprintf(stderr, "vrt: no symbol %s\n", name);
		_exit(3);
	}
	return p;
}

Rng::Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567)
{
	next(); next();
}

uint64_t Rng::next()
{
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

//////////////////////////////////////////////////////////////////////////////////////////
// Arena with quarantine. operator new/delete go here while a run is active.

static char* arBase = nullptr;
static uint8_t* arShadow = nullptr; // one byte per 16 bytes: 0 never used, 1 live, 2 freed
static constexpr size_t arSize = 1ull << 30;
static size_t arPos = 0, arPeak = 0;
static std::atomic_flag arLock = ATOMIC_FLAG_INIT;
static uint64_t arLiveBytes = 0, arLiveBlocks = 0;
static bool arOn = false;
static uint64_t statLeft = 0;

struct ArHdr { uint64_t size; uint64_t magic; };
static constexpr uint64_t arMagic = 0xA110C8EDA110C8EDull;

struct ArGuard {
	ArGuard() { while (__atomic_test_and_set(&arLock, __ATOMIC_ACQUIRE)) {} }
	~ArGuard() { __atomic_clear(&arLock, __ATOMIC_RELEASE); }
};

static void arInit()
{
	if (arBase) return;
	arBase = (char*)mmap(nullptr, arSize, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	arShadow = (uint8_t*)mmap(nullptr, arSize / 16, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static inline bool inArena(const void* p)
{
	return (const char*)p >= arBase && (const char*)p < arBase + arSize && arBase;
}

[[noreturn]] static void fatal(const char* kind);
static void noteUaf(const void* p, const char* what);

static void* arAlloc(size_t n)
{
	ArGuard g;
	size_t need = (n + 15) / 16 * 16 + 16 + 16; // header + redzone
	if (arPos + need > arSize) return nullptr;
	ArHdr* h = (ArHdr*)(arBase + arPos);
	h->size = n;
	h->magic = arMagic;
	char* res = (char*)(h + 1);
	arPos += need;
	if (arPos > arPeak) arPeak = arPos;
	size_t g0 = (res - arBase) / 16;
	memset(arShadow + g0, 1, (n + 15) / 16);
	memset(res, 0xCD, n);
	arLiveBytes += n;
	++arLiveBlocks;
	return res;
}

static void arFree(void* p)
{
	ArHdr* h = (ArHdr*)p - 1;
	size_t g0 = ((char*)p - arBase) / 16;
	{
		ArGuard g;
		if (h->magic == arMagic && arShadow[g0] != 2) {
			arLiveBytes -= h->size;
			--arLiveBlocks;
			memset(arShadow + g0, 2, (h->size + 15) / 16);
			if (h->size == 0) arShadow[g0] = 2;
			memset(p, 0xDB, h->size);
			return;
		}
	}
	noteUaf(p, "dfree");
}

// Returns the number of corrupted freed bytes, and resets the arena if nothing is live.
static bool arVerify()
{
	ArGuard g;
	size_t pos = 0;
	bool ok = true;
	while (pos < arPos) {
		ArHdr* h = (ArHdr*)(arBase + pos);
		if (h->magic != arMagic) return false;
		char* p = (char*)(h + 1);
		if (arShadow[(p - arBase) / 16] == 2) {
			for (size_t i = 0; i < h->size; ++i)
				if ((uint8_t)p[i] != 0xDB) { ok = false; break; }
		}
		pos += (h->size + 15) / 16 * 16 + 32;
	}
	return ok;
}

static bool arDrop = false;
void leakOk() { arDrop = true; }
static void arReset()
{
	ArGuard g;
	if (arDrop) { arLiveBlocks = 0; arLiveBytes = 0; arDrop = false; }
	statLeft = arLiveBlocks;
	if (arLiveBlocks == 0) {
		memset(arShadow, 0, arPos / 16 + 1);
		arPos = 0;
	}
}

bool isFreed(const void* p)
{
	if (!inArena(p)) return false;
	return arShadow[((const char*)p - arBase) / 16] == 2;
}
uint64_t liveBytes() { return arLiveBytes; }
uint64_t liveBlocks() { return arLiveBlocks; }

//////////////////////////////////////////////////////////////////////////////////////////
// Threads.

enum St { ST_FREE, ST_RUN, ST_MUTEX, ST_COND, ST_JOIN, ST_POLL, ST_SLEEP, ST_IDLE, ST_IDLEFULL, ST_UNTIL, ST_STALL, ST_DONE };

struct Thr {
	St st = ST_FREE;
	uint32_t fut = 0;
	void* obj = nullptr;      // mutex or cond
	void* mtx = nullptr;      // mutex to re-acquire after a cond wait
	bool timedOut = false;
	bool signaled = false;
	uint64_t deadline = UINT64_MAX; // ns
	int joinId = -1;
	pollfd* fds = nullptr;
	nfds_t nfds = 0;
	int pollRc = 0;
	uint64_t prio = 0;
	pthread_t real{};
	bool hasReal = false;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	void* ret = nullptr;
	const std::function<bool()>* cond = nullptr;
	int dtorRounds = 0;
	uint64_t stallAt = 0, stallFor = 2000;
	// The last atomic accesses.
	const volatile void* acc[4] = {};
	uint64_t accAt[4] = {};
	uint32_t accN = 0;
};

static Thr T[VRT_MAXT];
static int nT = 0;
static volatile int cur = -1;
static volatile bool isActive = false;
static thread_local int me = -1;
static Cfg C;
static Rng schedRng(1), progRng(1);
static uint64_t nowNs = 0, startNs = 0;
static uint64_t steps = 0, switches = 0;
// Not a std::string: the runtime's own memory must not come from the arena.
struct TraceBuf {
	char* p = nullptr;
	size_t n = 0, cap = 0;
	size_t size() const { return n; }
	bool empty() const { return n == 0; }
	void clear() { n = 0; }
	void resize(size_t s) { n = s; }
	void append(const char* s, size_t len)
	{
		if (n + len + 1 > cap) {
			cap = (n + len + 1) * 2 + 4096;
			p = (char*)realloc(p, cap);
		}
		memcpy(p + n, s, len);
		n += len;
		p[n] = 0;
	}
};
static TraceBuf trace;
static pthread_key_t theKey;
static bool pollDirty = true;
static uint64_t lastPollStep = 0;
static bool inRuntime = false; // guard against recursion from hooks

// strategy
static int strat = 0;
static uint32_t pSwitchNum = 1, pSwitchDen = 1;
static uint64_t changePts[8], stallPts[4];
static int nStall = 0;
static int nChange = 0;
static uint64_t lowPrio = 0;
static uint32_t plainEvery = 0, plainCnt = 0;
static uint32_t tickDen = 0;
// Writes of what has been accessed recently are delayed with this probability.
static uint32_t winDen = 0;
static uint64_t avgSteps = 400;

void (*onFatal)(const char*) = nullptr;

struct MEnt { void* addr = nullptr; int owner = -1; int count = 0; };
static constexpr size_t mCap = 1 << 15;
static MEnt M[mCap];
static uint32_t mUsed[mCap];
static size_t mUsedN = 0;

static MEnt* mfind(void* a, bool create)
{
	size_t h = ((uintptr_t)a >> 4) * 0x9E3779B97F4A7C15ull >> 49;
	for (size_t i = 0; i < mCap && mUsedN < mCap - 100; ++i) {
		MEnt* e = &M[(h + i) & (mCap - 1)];
		if (e->addr == a) return e;
		if (e->addr == nullptr) {
			if (!create) return nullptr;
			e->addr = a; e->owner = -1; e->count = 0;
			mUsed[mUsedN++] = (uint32_t)(e - M);
			return e;
		}
	}
	fatal("mutexes");
	_exit(3);
}

static bool mfree(void* a)
{
	MEnt* e = mfind(a, false);
	return e == nullptr || e->owner < 0;
}

bool active() { return isActive && me >= 0; }
int self() { return me; }
Rng& rng() { return progRng; }
uint64_t nowMs() { return (nowNs - startNs) / 1000000; }
uint64_t baseMs() { return startNs / 1000000; }
uint64_t stepCount() { return steps; }
uint64_t switchCount() { return switches; }
uint64_t threadsNow() { int n = 0; for (int i = 0; i < nT; ++i) n += T[i].st != ST_DONE && T[i].st != ST_FREE; return n; }

static void futexWait(uint32_t* a, uint32_t v)
{
	syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void futexWake(uint32_t* a)
{
	syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void ev(const char* fmt, ...)
{
	// One thread at a time runs.
	static char buf[1 << 17];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
	if (!trace.empty()) trace.append(",", 1);
	trace.append("{", 1);
	trace.append(buf, n);
	trace.append("}", 1);
}

static size_t jumpBeg = 0, jumpEnd = SIZE_MAX;
static uint64_t jumpFrom = 0;
static const char* jumpKind = "";
static void timeEvent(uint64_t to, const char* kind)
{
	if (jumpEnd == trace.size() && jumpEnd != 0 && jumpKind == kind) trace.resize(jumpBeg);
	else { jumpBeg = trace.size(); jumpFrom = nowMs(); }
	jumpKind = kind;
	ev("\"e\":\"%s\",\"t\":%llu,\"to\":%llu", kind, (unsigned long long)jumpFrom, (unsigned long long)to);
	jumpEnd = trace.size();
}

std::string takeTrace() { std::string r(trace.p ? trace.p : "", trace.n); trace.n = 0; return r; }

static bool fatalDone = false;
static void fatal(const char* kind)
{
	if (fatalDone) _exit(41);
	fatalDone = true;
	isActive = false;
	if (onFatal) onFatal(kind);
	_exit(42);
}

static int uafNoted = 0;
static void noteUaf(const void* p, const char* what)
{
	if (uafNoted++) return;
	(void)p;
	ev("\"e\":\"uaf\",\"w\":\"%s\"", what);
}

static int pollNow(pollfd* fds, nfds_t n)
{
	if (sys) {
		bool all = true;
		for (nfds_t i = 0; i < n; ++i) all = all && sys->owns(fds[i].fd);
		if (all) {
			int rc = 0;
			for (nfds_t i = 0; i < n; ++i) {
				fds[i].revents = (short)(sys->mask(fds[i].fd) & (unsigned)(fds[i].events | POLLERR | POLLHUP));
				rc += fds[i].revents != 0;
			}
			return rc;
		}
	}
	static auto rp = REAL(poll);
	return rp(fds, n, 0);
}

static bool pollReady(Thr& t)
{
	int rc = pollNow(t.fds, t.nfds);
	if (rc != 0) { t.pollRc = rc; return true; }
	return false;
}

static bool runnable(int i)
{
	Thr& t = T[i];
	switch (t.st) {
	case ST_RUN: return true;
	case ST_MUTEX: return mfree(t.mtx);
	case ST_COND:
		if (t.signaled) return mfree(t.mtx);
		if (nowNs >= t.deadline) return mfree(t.mtx);
		return false;
	case ST_JOIN: return T[t.joinId].st == ST_DONE;
	case ST_POLL:
		if (nowNs >= t.deadline) return true;
		if (!pollDirty) return false;
		return pollReady(t);
	case ST_SLEEP: return nowNs >= t.deadline;
	case ST_UNTIL: return (*t.cond)();
	case ST_STALL: return steps - t.stallAt > t.stallFor; // fairness
	default: return false;
	}
}

// Some other thread could become runnable.
static bool schedDirty = true;

static int nUntil = 0;
static int nQuiet = 0;
static bool inCond = false;
static int collect(int* out)
{
	int n = 0;
	if (steps - lastPollStep > 40) { pollDirty = true; lastPollStep = steps; }
	++nQuiet; // conditions are checked by functions
	inCond = true;
	for (int i = 0; i < nT; ++i)
		if (runnable(i)) out[n++] = i;
	inCond = false;
	--nQuiet;
	pollDirty = false;
	schedDirty = false;
	return n;
}

static void newPrio(int i)
{
	T[i].prio = 1000 + schedRng.below(1000000);
}

// The switch is already decided.
static bool forced = false;

static int choose(int* r, int n)
{
	if (n == 1) return r[0];
	bool curOk = false;
	for (int i = 0; i < n; ++i) curOk |= r[i] == me;
	switch (strat) {
	case 1: // PCT-like: strict priorities with change points, fair after a while
		if (steps < avgSteps * 6 + 2000) {
			for (int i = 0; i < nChange; ++i)
				if (changePts[i] == steps && me >= 0)
					T[me].prio = 1 + schedRng.below(900);
			int best = r[0];
			for (int i = 1; i < n; ++i)
				if (T[r[i]].prio > T[best].prio) best = r[i];
			return best;
		}
		return r[schedRng.below(n)];
	case 2: // long stalls: the current thread goes on unless a rare event happens
		if (curOk && !forced && !schedRng.chance(pSwitchNum, pSwitchDen)) return me;
		{
			// priorities re-drawn at each switch
			for (int i = 0; i < n; ++i) newPrio(r[i]);
			int best = r[0];
			for (int i = 1; i < n; ++i)
				if (T[r[i]].prio > T[best].prio) best = r[i];
			return best;
		}
	default:
		if (curOk && !forced && !schedRng.chance(pSwitchNum, pSwitchDen)) return me;
		return r[schedRng.below(n)];
	}
}

static uint64_t minDeadline()
{
	uint64_t d = UINT64_MAX;
	for (int i = 0; i < nT; ++i) {
		St s = T[i].st;
		if (s == ST_COND || s == ST_POLL || s == ST_SLEEP)
			if (T[i].deadline < d) d = T[i].deadline;
	}
	return d;
}

static bool anyPoll()
{
	for (int i = 0; i < nT; ++i) if (T[i].st == ST_POLL) return true;
	return false;
}

// Consecutive jumps make one event.
static void jumpEvent(uint64_t to) { timeEvent(to, "jump"); }

// Choose the next thread to run. The caller's state is already set.
static int pick()
{
	int r[VRT_MAXT];
	while (true) {
		int n = collect(r);
		if (n > 0) return choose(r, n);
		// Stalled threads go on when nobody else can.
		n = 0;
		for (int i = 0; i < nT; ++i) if (T[i].st == ST_STALL) r[n++] = i;
		if (n > 0) return r[schedRng.below(n)];
		// Everybody is blocked. Kernel events may still be under way.
		if (anyPoll()) {
			pollDirty = true;
			n = collect(r);
			if (n > 0) return choose(r, n);
			if (C.graceMs != 0) {
				static auto rp = REAL(poll);
				pollfd all[256];
				nfds_t cnt = 0;
				for (int i = 0; i < nT; ++i)
					if (T[i].st == ST_POLL)
						for (nfds_t k = 0; k < T[i].nfds && cnt < 256; ++k) all[cnt++] = T[i].fds[k];
				if (rp(all, cnt, (int)C.graceMs) > 0) { pollDirty = true; n = collect(r); if (n > 0) return choose(r, n); }
			}
		}
		// An idle waiter which doesn't want time jumps has priority.
		for (int i = 0; i < nT; ++i)
			if (T[i].st == ST_IDLE) return i;
		uint64_t d = minDeadline();
		if (d != UINT64_MAX) {
			jumpEvent((d - startNs + 999999) / 1000000);
			nowNs = startNs + (d - startNs + 999999) / 1000000 * 1000000;
			continue;
		}
		for (int i = 0; i < nT; ++i)
			if (T[i].st == ST_IDLEFULL) return i;
		fatal("deadlock");
	}
}

static void finishWait(Thr& t)
{
	switch (t.st) {
	case ST_COND:
		t.timedOut = !t.signaled;
		break;
	default: break;
	}
	t.st = ST_RUN;
}

static void switchTo(int next)
{
	if (next != me) {
		++switches;
		int mine = me;
		cur = next;
		__atomic_store_n(&T[next].fut, 1, __ATOMIC_RELEASE);
		futexWake(&T[next].fut);
		if (mine >= 0 && T[mine].st != ST_DONE) {
			while (__atomic_exchange_n(&T[mine].fut, 0, __ATOMIC_ACQUIRE) == 0)
				futexWait(&T[mine].fut, 0);
		}
	}
	if (me >= 0 && T[me].st != ST_DONE)
		finishWait(T[me]);
}

static void stepCheck()
{
	if (++steps > C.maxSteps) fatal("livelock");
	if (tickDen && schedRng.chance(1, tickDen)) {
		uint64_t d = 1 + schedRng.below(3);
		timeEvent(nowMs() + d, "tick");
		nowNs += d * 1000000;
		schedDirty = true;
	}
}

// The current thread stays runnable, maybe another one runs.
Quiet::Quiet() { ++nQuiet; }
Quiet::~Quiet() { --nQuiet; }

static void yieldPoint()
{
	if (!isActive || me < 0 || inRuntime || nQuiet) return;
	stepCheck();
	for (int i = 0; i < nStall; ++i) {
		if (stallPts[i] == steps) {
			T[me].st = ST_STALL; T[me].stallAt = steps; T[me].stallFor = 2000;
			int n = pick();
			switchTo(n);
			return;
		}
	}
	// Cheap decisions first.
	if (strat == 1 && steps < avgSteps * 6 + 2000) {
		bool change = false;
		for (int i = 0; i < nChange; ++i) change |= changePts[i] == steps;
		if (!change && !schedDirty && nUntil == 0 && nStall == 0 && steps - lastPollStep <= 40) return;
	} else if (strat != 1) {
		if (!schedRng.chance(pSwitchNum, pSwitchDen)) return;
		forced = true;
	}
	int n = pick();
	forced = false;
	switchTo(n);
}

// The current thread has set its blocking state.
static void block()
{
	stepCheck();
	int n = pick();
	switchTo(n);
}

void yield() { yieldPoint(); }
void stall() { T[me].st = ST_STALL; T[me].stallAt = steps; T[me].stallFor = 2000; block(); }
bool take(bool& f) { bool r = f; f = false; return r; }
void advanceMs(uint64_t d) { timeEvent(nowMs() + d, "tick"); nowNs += d * 1000000; schedDirty = true; }

void waitIdle(bool full)
{
	T[me].st = full ? ST_IDLEFULL : ST_IDLE;
	block();
}

void waitUntil(const std::function<bool()>& cond)
{
	T[me].cond = &cond;
	T[me].st = ST_UNTIL;
	++nUntil;
	block();
	--nUntil;
}

static void keyDtor(void*)
{
	if (me < 0) return;
	if (++T[me].dtorRounds < 3) { pthread_setspecific(theKey, (void*)1); return; }
	// The last thing done by a controlled thread.
	T[me].st = ST_DONE;
	int mine = me;
	(void)mine;
	++steps;
	int n = pick();
	me = -1;
	cur = n;
	++switches;
	__atomic_store_n(&T[n].fut, 1, __ATOMIC_RELEASE);
	futexWake(&T[n].fut);
}

static void* trampoline(void* a)
{
	int id = (int)(intptr_t)a;
	while (__atomic_exchange_n(&T[id].fut, 0, __ATOMIC_ACQUIRE) == 0)
		futexWait(&T[id].fut, 0);
	me = id;
	pthread_setspecific(theKey, (void*)1);
	T[id].st = ST_RUN;
	T[id].ret = T[id].fn(T[id].arg);
	return T[id].ret;
}

static int newThread(void* (*fn)(void*), void* arg, const pthread_attr_t* at)
{
	static auto rc = REAL(pthread_create);
	if (nT >= VRT_MAXT) { fprintf(stderr, "vrt: too many threads\n"); _exit(3); }
	int id = nT;
	T[id] = Thr();
	T[id].fn = fn;
	T[id].arg = arg;
	T[id].st = ST_RUN;
	newPrio(id);
	++nT;
	schedDirty = true;
	if (rc(&T[id].real, at, trampoline, (void*)(intptr_t)id) != 0) { fprintf(stderr, "vrt: pthread_create\n"); _exit(3); }
	T[id].hasReal = true;
	return id;
}

static void* spawnFn(void* a)
{
	std::function<void()>* f = (std::function<void()>*)a;
	(*f)();
	delete f;
	return nullptr;
}

int spawn(const std::function<void()>& fn)
{
	int id = newThread(spawnFn, new std::function<void()>(fn), nullptr);
	yieldPoint();
	return id;
}

void join(int id)
{
	static auto rj = REAL(pthread_join);
	if (T[id].st != ST_DONE) {
		T[me].st = ST_JOIN;
		T[me].joinId = id;
		block();
	}
	if (T[id].hasReal) { T[id].hasReal = false; rj(T[id].real, nullptr); }
}

static void (*onForkedEnd)(const char*) = nullptr;

void run(const Cfg& cfg, const std::function<void()>& body)
{
	static bool inited = false;
	if (!inited) {
		inited = true;
		pthread_key_create(&theKey, keyDtor);
		arInit();
	}
	C = cfg;
	schedRng = Rng(cfg.seed * 2 + 1);
	progRng = Rng(cfg.seed * 2 + 77777);
	nowNs = startNs = 1000000ull * 1000000; // 1000 s
	steps = switches = 0;
	uafNoted = 0;
	trace.clear();
	jumpEnd = SIZE_MAX;
	while (mUsedN > 0) M[mUsed[--mUsedN]] = MEnt();
	pollDirty = true; lastPollStep = 0;
	// Strategy.
	uint64_t k = cfg.strategy >= 0 ? (uint64_t)cfg.strategy : schedRng.below(10);
	static const uint32_t dens[] = {1, 2, 4, 8, 16, 30, 60};
	if (k < 4) { strat = 0; pSwitchNum = 1; pSwitchDen = dens[schedRng.below(7)]; }
	else if (k < 8) {
		strat = 1;
		nChange = 1 + (int)schedRng.below(5);
		uint64_t span = (avgSteps + avgSteps / 4) >> schedRng.below(5);
		for (int i = 0; i < nChange; ++i) changePts[i] = 1 + schedRng.below(span + 20);
		lowPrio = 1;
	}
	else { strat = 2; pSwitchNum = 1; pSwitchDen = 10 + (uint32_t)schedRng.below(100); }
	nStall = schedRng.chance(1, 2) ? (int)schedRng.below(4) : 0;
	for (int i = 0; i < nStall; ++i) stallPts[i] = 1 + schedRng.below(((avgSteps * 3 / 2) >> schedRng.below(5)) + 20);
	plainEvery = 0;
	if (cfg.plainYield && schedRng.chance(1, 2)) plainEvery = 1 + (uint32_t)schedRng.below(20);
	plainCnt = plainEvery;
	static const uint32_t wins[] = {1, 2, 4, 16, 64};
	winDen = schedRng.chance(1, 3) ? wins[schedRng.below(5)] : 0;
	tickDen = cfg.tickable && schedRng.chance(1, 2) ? 20 + (uint32_t)schedRng.below(200) : 0;
	nT = 0;
	nUntil = 0;
	schedDirty = true;
	T[0] = Thr();
	T[0].st = ST_RUN;
	newPrio(0);
	nT = 1;
	me = 0;
	cur = 0;
	arOn = true;
	isActive = true;
	{
		body();
		if (cfg.forked && onForkedEnd) onForkedEnd("");
		// All the threads must end.
		static auto rj = REAL(pthread_join);
		for (int i = 1; i < nT; ++i) {
			if (T[i].st != ST_DONE) {
				T[0].st = ST_JOIN;
				T[0].joinId = i;
				block();
			}
			if (T[i].hasReal) { T[i].hasReal = false; rj(T[i].real, nullptr); }
		}
	}
	isActive = false;
	me = -1;
	arOn = false;
	if (!arVerify()) noteUaf(nullptr, "wfree");
	avgSteps = (avgSteps * 7 + (steps < 4000 ? steps : 4000)) / 8 + 1;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Hooks used by the interposed functions.

void (*hookClock)(timespec*) = nullptr;
ssize_t (*hookSendmsg)(int, const msghdr*, int) = nullptr;
ssize_t (*hookRecvmsg)(int, msghdr*, int) = nullptr;
int (*hookConnect)(int, const sockaddr*, socklen_t) = nullptr;
int (*hookAccept4)(int, sockaddr*, socklen_t*, int) = nullptr;
int (*hookGetaddrinfo)(const char*, const char*, const addrinfo*, addrinfo**) = nullptr;
void (*hookFreeaddrinfo)(addrinfo*) = nullptr;
void (*hookClose)(int) = nullptr;
int (*hookSocket)(int, int, int) = nullptr;
int (*hookShutdown)(int, int) = nullptr;

static void dirty() { pollDirty = true; schedDirty = true; }
Sys* sys = nullptr;
void sysChanged() { dirty(); }

ssize_t realSendmsg(int a, const msghdr* b, int c) { static auto f = REAL(sendmsg); return f(a, b, c); }
ssize_t realRecvmsg(int a, msghdr* b, int c) { static auto f = REAL(recvmsg); return f(a, b, c); }
int realConnect(int a, const sockaddr* b, socklen_t c) { static auto f = REAL(connect); return f(a, b, c); }
int realAccept4(int a, sockaddr* b, socklen_t* c, int d) { static auto f = REAL(accept4); return f(a, b, c, d); }
int realClose(int a) { static auto f = REAL(close); return f(a); }
int realSocket(int a, int b, int c) { static auto f = REAL(socket); return f(a, b, c); }
int realShutdown(int a, int b) { static auto f = REAL(shutdown); return f(a, b); }
int realPoll(pollfd* a, nfds_t b, int c) { static auto f = REAL(poll); return f(a, b, c); }

//////////////////////////////////////////////////////////////////////////////////////////
// Initialization of function-local static objects. The library would wait in the kernel.
// The thread which initializes is not switched out: another one could need the object in
// a section which must not wait.

extern "C" int __cxa_guard_acquire(uint64_t* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	while (true) {
		if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
		uint8_t old = 0;
		if (__atomic_compare_exchange_n(&b[1], &old, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
			if (isActive && me >= 0) { ++nQuiet; b[2] = 1; }
			return 1;
		}
		if (isActive && me >= 0 && !inRuntime && !inCond) waitUntil([b]() { return b[0] || !b[1]; });
		else sched_yield();
	}
}
extern "C" void __cxa_guard_release(uint64_t* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	if (b[2]) { --nQuiet; b[2] = 0; }
	__atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
	__atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
	dirty();
}
extern "C" void __cxa_guard_abort(uint64_t* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	if (b[2]) { --nQuiet; b[2] = 0; }
	__atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
	dirty();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Driver main.

static std::string outPath, curCfg;
static FILE* outF = nullptr;
static uint64_t curSeed = 0;
static uint64_t statRuns = 0, statUnique = 0, statSteps = 0, statSwitches = 0;
static std::unordered_set<uint64_t>* seen = nullptr;

static uint64_t fnv(const std::string& s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

static void writeStats(uint64_t nextSeed)
{
	std::string p = outPath + ".stat";
	FILE* f = fopen(p.c_str(), "w");
	fprintf(f, "{\"next\":%llu,\"runs\":%llu,\"unique\":%llu,\"steps\":%llu,\"switches\":%llu,\"left\":%llu}\n",
		(unsigned long long)nextSeed, (unsigned long long)statRuns, (unsigned long long)statUnique,
		(unsigned long long)statSteps, (unsigned long long)statSwitches, (unsigned long long)statLeft);
	fclose(f);
}

static uint64_t avgUsed = 400;
static void emitTrace(const std::string& tr)
{
	++statRuns;
	statSteps += steps;
	statSwitches += switches;
	uint64_t h = fnv(curCfg + "|" + tr);
	if (!seen->insert(h).second) return;
	++statUnique;
	fprintf(outF, "{\"seed\":\"%llu:%llu\",\"cfg\":%s,\"ev\":[%s]}\n", (unsigned long long)curSeed,
		(unsigned long long)avgUsed, curCfg.c_str(), tr.c_str());
}

static void fatalWrite(const char* kind)
{
	ev("\"e\":\"fatal\",\"w\":\"%s\"", kind);
	emitTrace(takeTrace());
	fflush(outF);
	writeStats(curSeed + 1);
}

// In a child process: pass the trace to the parent and end.
static int forkedFd = -1;
static void forkedEnd(const char* kind)
{
	isActive = false;
	me = -1;
	arOn = false;
	if (kind[0] != 0) ev("\"e\":\"fatal\",\"w\":\"%s\"", kind);
	else if (!arVerify()) noteUaf(nullptr, "wfree");
	uint64_t head[3] = {steps, switches, trace.size()};
	std::string all((const char*)head, sizeof(head));
	all += takeTrace();
	for (size_t at = 0; at < all.size();) {
		ssize_t k = write(forkedFd, all.data() + at, all.size() - at);
		if (k <= 0) break;
		at += (size_t)k;
	}
	_exit(0);
}

static std::string runForked(const Cfg& cfg, const std::function<void()>& body)
{
	int fds[2];
	if (pipe(fds) != 0) { perror("pipe"); _exit(3); }
	fflush(outF);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(3); }
	if (pid == 0) {
		realClose(fds[0]);
		forkedFd = fds[1];
		onForkedEnd = forkedEnd;
		onFatal = forkedEnd;
		run(cfg, body);
		_exit(3);
	}
	realClose(fds[1]);
	std::string all;
	char buf[65536];
	ssize_t k;
	while ((k = read(fds[0], buf, sizeof(buf))) > 0 || (k < 0 && errno == EINTR)) if (k > 0) all.append(buf, (size_t)k);
	realClose(fds[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	uint64_t head[3];
	if (all.size() < sizeof(head)) { steps = switches = 0; return "{\"e\":\"fatal\",\"w\":\"lost\"}"; }
	memcpy(head, all.data(), sizeof(head));
	steps = head[0];
	switches = head[1];
	avgSteps = (avgSteps * 7 + (steps < 4000 ? steps : 4000)) / 8 + 1;
	return all.substr(sizeof(head));
}

static void sigHandler(int s)
{
	char b[32];
	snprintf(b, sizeof(b), "crash%d", s);
	fatal(b);
}

int driverMain(int argc, char** argv, const MakeScenario& make)
{
	uint64_t seed0 = 1, n = UINT64_MAX, ms = 3000, maxUnique = UINT64_MAX;
	std::vector<std::string> args;
	bool print = false, warm = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--seed") seed0 = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--n") n = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--ms") ms = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--unique") maxUnique = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--out") outPath = val();
		else if (a == "--print") print = true;
		else if (a == "--warm") warm = true;
		else if (a == "--avg") avgSteps = strtoull(val().c_str(), nullptr, 10);
		else args.push_back(a);
	}
	if (outPath.empty()) outPath = "/dev/stdout";
	outF = fopen(outPath.c_str(), "w");
	if (!outF) { perror("out"); return 3; }
	if (outPath == "/dev/stdout") outPath = "/dev/null";
	seen = new std::unordered_set<uint64_t>();
	onFatal = fatalWrite;
	stack_t ss;
	ss.ss_sp = malloc(1 << 16);
	ss.ss_size = 1 << 16;
	ss.ss_flags = 0;
	sigaltstack(&ss, nullptr);
	signal(SIGPIPE, SIG_IGN);
	for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) {
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sa.sa_handler = sigHandler;
		sigaction(s, &sa, nullptr);
	}
	timespec t0, t1;
	static auto rc = REAL(clock_gettime);
	rc(CLOCK_MONOTONIC, &t0);
	uint64_t i = 0;
	for (; i < n && statUnique < maxUnique; ++i) {
		curSeed = seed0 + i;
		Scenario sc = make(curSeed, args);
		curCfg = sc.cfgJson.empty() ? "{}" : sc.cfgJson;
		sc.cfg.seed = curSeed;
		avgUsed = avgSteps;
		if (sc.cfg.forked) {
			std::string tr = runForked(sc.cfg, sc.body);
			emitTrace(tr);
			if ((i & 7) == 7 || print) {
				rc(CLOCK_MONOTONIC, &t1);
				if ((uint64_t)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000) >= ms) { ++i; break; }
			}
			continue;
		}
		if (warm) {
			// What is initialized by the first run of a process takes other steps then.
			run(sc.cfg, sc.body);
			takeTrace();
			arReset();
			avgSteps = avgUsed;
			sc = make(curSeed, args);
			sc.cfg.seed = curSeed;
		}
		run(sc.cfg, sc.body);
		sc.body = nullptr;
		std::string tr = takeTrace();
		arReset();
		emitTrace(tr);
		if ((i & 7) == 7 || print) {
			rc(CLOCK_MONOTONIC, &t1);
			if ((uint64_t)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000) >= ms) { ++i; break; }
		}
	}
	fclose(outF);
	if (outPath != "/dev/null") writeStats(seed0 + i);
	return 0;
}

} // namespace vrt

using namespace vrt;

//////////////////////////////////////////////////////////////////////////////////////////
// Memory.

static inline void memCheck(const void* p, const char* what)
{
	if (inArena(p) && arShadow[((const char*)p - arBase) / 16] == 2 && isActive) noteUaf(p, what);
}

static inline void plainAccess(const void* p)
{
	if (!isActive || me < 0) return;
	memCheck(p, "plain");
	if (plainEvery && --plainCnt == 0) { plainCnt = plainEvery; yieldPoint(); }
}

static void* xalloc(size_t n)
{
	if (arOn && (me >= 0)) {
		void* p = arAlloc(n);
		if (p) return p;
	}
	void* p = malloc(n ? n : 1);
	return p;
}
static void xfree(void* p)
{
	if (!p) return;
	if (inArena(p)) arFree(p);
	else free(p);
}
void* operator new(size_t n) { return xalloc(n); }
void* operator new[](size_t n) { return xalloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xalloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xalloc(n); }
void operator delete(void* p) noexcept { xfree(p); }
void operator delete[](void* p) noexcept { xfree(p); }
void operator delete(void* p, size_t) noexcept { xfree(p); }
void operator delete[](void* p, size_t) noexcept { xfree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { xfree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { xfree(p); }

//////////////////////////////////////////////////////////////////////////////////////////
// TSan entry points.

static void atomicWindow(const volatile void* p, bool write)
{
	if (!isActive || me < 0 || inRuntime || nQuiet) return;
	Thr& t = T[me];
	if (write) {
		bool recent = false;
		for (int i = 0; i < 4; ++i) recent |= t.acc[i] == p && steps - t.accAt[i] <= 60;
		if (schedRng.chance(1, recent ? winDen : winDen * 20)) {
			t.st = ST_STALL;
			t.stallAt = steps;
			t.stallFor = 10ull << schedRng.below(8);
			block();
		}
	}
	t.acc[t.accN & 3] = p;
	t.accAt[t.accN++ & 3] = steps;
}
static inline void atomicAccess(const volatile void* p, bool write = true)
{
	yieldPoint();
	if (winDen) atomicWindow(p, write);
	memCheck((const void*)p, "atomic");
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PL(n) void __tsan_read##n(void* p) { plainAccess(p); } void __tsan_write##n(void* p) { plainAccess(p); } \
	void __tsan_unaligned_read##n(void* p) { plainAccess(p); } void __tsan_unaligned_write##n(void* p) { plainAccess(p); } \
	void __tsan_read##n##_pc(void* p, void*) { plainAccess(p); } void __tsan_write##n##_pc(void* p, void*) { plainAccess(p); } \
	void __tsan_volatile_read##n(void* p) { plainAccess(p); } void __tsan_volatile_write##n(void* p) { plainAccess(p); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void __tsan_read_range(void* p, size_t) { plainAccess(p); }
void __tsan_write_range(void* p, size_t) { plainAccess(p); }
void __tsan_vptr_update(void** p, void*) { plainAccess(p); }
void __tsan_vptr_read(void** p) { plainAccess(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { plainAccess(d); plainAccess(s); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { plainAccess(d); plainAccess(s); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) plainAccess(d); return memset(d, c, n); }

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { atomicAccess(a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomicAccess(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomicAccess(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomicAccess(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomicAccess(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomicAccess(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomicAccess(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomicAccess(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomicAccess(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomicAccess(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomicAccess(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomicAccess(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yieldPoint(); }
void __tsan_atomic_signal_fence(int) {}

//////////////////////////////////////////////////////////////////////////////////////////
// pthread.

int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active()) { static auto f = REAL(pthread_mutex_lock); return f(m); }
	yieldPoint();
	memCheck(m, "mutex");
	MEnt* e = mfind(m, true);
	if (e->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++e->count; return 0; }
	if (e->owner >= 0) {
		T[me].st = ST_MUTEX;
		T[me].mtx = m;
		block();
		e = mfind(m, true);
	}
	e->owner = me;
	e->count = 1;
	return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active()) { static auto f = REAL(pthread_mutex_trylock); return f(m); }
	yieldPoint();
	memCheck(m, "mutex");
	MEnt* e = mfind(m, true);
	if (e->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++e->count; return 0; }
	if (e->owner >= 0) return EBUSY;
	e->owner = me;
	e->count = 1;
	return 0;
}

static void mrelease(pthread_mutex_t* m)
{
	MEnt* e = mfind(m, true);
	if (e->owner != me) noteUaf(m, "unlock");
	if (--e->count > 0) return;
	e->owner = -1;
	e->count = 0;
	schedDirty = true;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!active()) { static auto f = REAL(pthread_mutex_unlock); return f(m); }
	yieldPoint();
	memCheck(m, "mutex");
	mrelease(m);
	return 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadlineNs)
{
	yieldPoint();
	memCheck(c, "cond");
	mrelease(m);
	Thr& t = T[me];
	t.st = ST_COND;
	t.obj = c;
	t.mtx = m;
	t.deadline = deadlineNs;
	// A spurious wakeup is possible at any moment.
	t.signaled = C.spurious && schedRng.chance(1, 40);
	t.timedOut = false;
	block();
	t.deadline = UINT64_MAX;
	MEnt* e = mfind(m, true);
	e->owner = me;
	e->count = 1;
	return t.timedOut ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!active()) { static auto f = REAL(pthread_cond_wait); return f(c, m); }
	return condWait(c, m, UINT64_MAX);
}
static uint64_t tsNs(const timespec* t)
{
	if (t->tv_sec < 0) return 0;
	if ((uint64_t)t->tv_sec > UINT64_MAX / 4 / 1000000000) return UINT64_MAX / 4;
	return (uint64_t)t->tv_sec * 1000000000 + t->tv_nsec;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
	if (!active()) { static auto f = REAL(pthread_cond_timedwait); return f(c, m, t); }
	return condWait(c, m, tsNs(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t)
{
	if (!active()) { static auto f = REAL(pthread_cond_clockwait); return f(c, m, CLOCK_MONOTONIC, t); }
	return condWait(c, m, tsNs(t));
}
int pthread_cond_signal(pthread_cond_t* c)
{
	if (!active()) { static auto f = REAL(pthread_cond_signal); return f(c); }
	yieldPoint();
	memCheck(c, "cond");
	int w[VRT_MAXT], n = 0;
	for (int i = 0; i < nT; ++i)
		if (T[i].st == ST_COND && T[i].obj == c && !T[i].signaled) w[n++] = i;
	if (n) T[w[schedRng.below(n)]].signaled = true;
	schedDirty = true;
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!active()) { static auto f = REAL(pthread_cond_broadcast); return f(c); }
	yieldPoint();
	memCheck(c, "cond");
	for (int i = 0; i < nT; ++i)
		if (T[i].st == ST_COND && T[i].obj == c) T[i].signaled = true;
	schedDirty = true;
	return 0;
}

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
	if (!active()) { static auto f = REAL(pthread_create); return f(th, at, fn, arg); }
	yieldPoint();
	int id = newThread(fn, arg, at);
	*th = T[id].real;
	yieldPoint();
	return 0;
}
int pthread_join(pthread_t th, void** ret)
{
	static auto f = REAL(pthread_join);
	if (!active()) return f(th, ret);
	yieldPoint();
	for (int i = 0; i < nT; ++i) {
		if (T[i].hasReal && pthread_equal(T[i].real, th)) {
			if (T[i].st != ST_DONE) {
				T[me].st = ST_JOIN;
				T[me].joinId = i;
				block();
			}
			T[i].hasReal = false;
			return f(th, ret);
		}
	}
	return f(th, ret);
}
int sched_yield()
{
	if (!active()) { static auto f = REAL(sched_yield); return f(); }
	yieldPoint();
	return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Time.

int clock_gettime(clockid_t c, timespec* t) noexcept
{
	if (!active()) { static auto f = REAL(clock_gettime); return f(c, t); }
	yieldPoint();
	if (hookClock) { hookClock(t); return 0; }
	t->tv_sec = nowNs / 1000000000;
	t->tv_nsec = nowNs % 1000000000;
	return 0;
}
static void vsleep(uint64_t ns)
{
	T[me].st = ST_SLEEP;
	T[me].deadline = nowNs + ns;
	block();
	T[me].deadline = UINT64_MAX;
}
int usleep(useconds_t us)
{
	if (!active()) { static auto f = REAL(usleep); return f(us); }
	vsleep((uint64_t)us * 1000);
	return 0;
}
unsigned sleep(unsigned s)
{
	if (!active()) { static auto f = REAL(sleep); return f(s); }
	vsleep((uint64_t)s * 1000000000);
	return 0;
}
int nanosleep(const timespec* a, timespec* b)
{
	if (!active()) { static auto f = REAL(nanosleep); return f(a, b); }
	vsleep(tsNs(a));
	return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b)
{
	if (!active()) { static auto f = REAL(clock_nanosleep); return f(c, fl, a, b); }
	uint64_t ns = tsNs(a);
	if (fl & TIMER_ABSTIME) ns = ns > nowNs ? ns - nowNs : 0;
	vsleep(ns);
	return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Descriptors.

static inline bool own(int fd) { return active() && vrt::sys != nullptr && vrt::sys->owns(fd); }

int poll(pollfd* fds, nfds_t n, int timeout)
{
	static auto f = REAL(poll);
	if (!active()) return f(fds, n, timeout);
	yieldPoint();
	int rc = pollNow(fds, n);
	if (rc != 0 || timeout == 0) return rc;
	Thr& t = T[me];
	t.st = ST_POLL;
	t.fds = fds;
	t.nfds = n;
	t.deadline = timeout < 0 ? UINT64_MAX : nowNs + (uint64_t)timeout * 1000000;
	pollDirty = true;
	block();
	t.deadline = UINT64_MAX;
	dirty();
	return pollNow(fds, n);
}
static int epollNow(int ep, epoll_event* evs, int n)
{
	static auto f = REAL(epoll_wait);
	return own(ep) ? vrt::sys->epollWait(ep, evs, n) : f(ep, evs, n, 0);
}
int epoll_wait(int ep, epoll_event* evs, int n, int timeout)
{
	static auto f = REAL(epoll_wait);
	if (!active()) return f(ep, evs, n, timeout);
	yieldPoint();
	int rc = epollNow(ep, evs, n);
	if (rc != 0 || timeout == 0) return rc;
	pollfd p;
	p.fd = ep;
	p.events = POLLIN;
	p.revents = 0;
	if (poll(&p, 1, timeout) <= 0) return 0;
	return epollNow(ep, evs, n);
}
int epoll_create1(int fl) noexcept
{
	static auto f = REAL(epoll_create1);
	if (active() && vrt::sys) { yieldPoint(); return vrt::sys->epollCreate(); }
	return f(fl);
}
int epoll_ctl(int a, int b, int c, epoll_event* e) noexcept
{
	static auto f = REAL(epoll_ctl);
	if (active()) { yieldPoint(); dirty(); }
	if (own(a)) return vrt::sys->epollCtl(a, b, c, e);
	return f(a, b, c, e);
}
int eventfd(unsigned v, int fl) noexcept
{
	static auto f = REAL(eventfd);
	if (active() && vrt::sys) { yieldPoint(); return vrt::sys->eventfd(v, fl); }
	return f(v, fl);
}
int eventfd_write(int fd, eventfd_t v)
{
	static auto f = REAL(eventfd_write);
	if (active()) { yieldPoint(); dirty(); }
	if (own(fd)) return vrt::sys->write(fd, &v, sizeof(v)) == sizeof(v) ? 0 : -1;
	return f(fd, v);
}
ssize_t read(int fd, void* b, size_t n)
{
	static auto f = REAL(read);
	if (active()) { yieldPoint(); dirty(); }
	if (own(fd)) return vrt::sys->read(fd, b, n);
	return f(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
	static auto f = REAL(write);
	if (active()) { dirty(); }
	if (own(fd)) return vrt::sys->write(fd, b, n);
	return f(fd, b, n);
}
int close(int fd)
{
	if (active()) { yieldPoint(); dirty(); }
	if (active() && hookClose) hookClose(fd);
	if (own(fd)) return vrt::sys->close(fd);
	return realClose(fd);
}
int socket(int a, int b, int c) noexcept
{
	if (active()) { yieldPoint(); if (hookSocket) return hookSocket(a, b, c); if (vrt::sys) return vrt::sys->socket(a, b, c); }
	return realSocket(a, b, c);
}
int bind(int fd, const sockaddr* a, socklen_t n) noexcept
{
	static auto f = REAL(bind);
	if (own(fd)) { yieldPoint(); return vrt::sys->bind(fd, a, n); }
	return f(fd, a, n);
}
int listen(int fd, int n) noexcept
{
	static auto f = REAL(listen);
	if (own(fd)) { yieldPoint(); dirty(); return vrt::sys->listen(fd, n); }
	return f(fd, n);
}
int getsockopt(int fd, int a, int b, void* v, socklen_t* n) noexcept
{
	static auto f = REAL(getsockopt);
	if (own(fd)) { yieldPoint(); dirty(); return vrt::sys->getsockopt(fd, a, b, v, n); }
	return f(fd, a, b, v, n);
}
int setsockopt(int fd, int a, int b, const void* v, socklen_t n) noexcept
{
	static auto f = REAL(setsockopt);
	if (own(fd)) { yieldPoint(); return vrt::sys->setsockopt(fd, a, b, v, n); }
	return f(fd, a, b, v, n);
}
int getsockname(int fd, sockaddr* a, socklen_t* n) noexcept
{
	static auto f = REAL(getsockname);
	if (own(fd)) { yieldPoint(); return vrt::sys->getsockname(fd, a, n); }
	return f(fd, a, n);
}
int getpeername(int fd, sockaddr* a, socklen_t* n) noexcept
{
	static auto f = REAL(getpeername);
	if (own(fd)) { yieldPoint(); return vrt::sys->getpeername(fd, a, n); }
	return f(fd, a, n);
}
static int fcntlAny(int fd, int op, long arg, bool is64)
{
	static auto f = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl");
	static auto f64 = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl64");
	if (own(fd)) { yieldPoint(); return vrt::sys->fcntl(fd, op, arg); }
	return is64 && f64 ? f64(fd, op, arg) : f(fd, op, arg);
}
int fcntl(int fd, int op, ...)
{
	va_list va;
	va_start(va, op);
	long arg = va_arg(va, long);
	va_end(va);
	return fcntlAny(fd, op, arg, false);
}
int fcntl64(int fd, int op, ...)
{
	va_list va;
	va_start(va, op);
	long arg = va_arg(va, long);
	va_end(va);
	return fcntlAny(fd, op, arg, true);
}
int shutdown(int fd, int how) noexcept
{
	if (active()) { yieldPoint(); dirty(); if (hookShutdown) return hookShutdown(fd, how); if (own(fd)) return vrt::sys->shutdown(fd, how); }
	return realShutdown(fd, how);
}
ssize_t sendmsg(int fd, const msghdr* m, int fl)
{
	if (active()) { yieldPoint(); dirty(); if (hookSendmsg) return hookSendmsg(fd, m, fl); if (own(fd)) return vrt::sys->sendmsg(fd, m, fl); }
	return realSendmsg(fd, m, fl);
}
ssize_t recvmsg(int fd, msghdr* m, int fl)
{
	if (active()) { yieldPoint(); dirty(); if (hookRecvmsg) return hookRecvmsg(fd, m, fl); if (own(fd)) return vrt::sys->recvmsg(fd, m, fl); }
	return realRecvmsg(fd, m, fl);
}
int connect(int fd, const sockaddr* a, socklen_t n)
{
	if (active()) { yieldPoint(); dirty(); if (hookConnect) return hookConnect(fd, a, n); if (own(fd)) return vrt::sys->connect(fd, a, n); }
	return realConnect(fd, a, n);
}
int accept4(int fd, sockaddr* a, socklen_t* n, int fl)
{
	if (active()) { yieldPoint(); dirty(); if (hookAccept4) return hookAccept4(fd, a, n, fl); if (own(fd)) return vrt::sys->accept4(fd, a, n, fl); }
	return realAccept4(fd, a, n, fl);
}
int accept(int fd, sockaddr* a, socklen_t* n) { return accept4(fd, a, n, 0); }
int getaddrinfo(const char* a, const char* b, const addrinfo* c, addrinfo** d)
{
	static auto f = REAL(getaddrinfo);
	if (active()) { yieldPoint(); if (hookGetaddrinfo) return hookGetaddrinfo(a, b, c, d); }
	return f(a, b, c, d);
}
void freeaddrinfo(addrinfo* a) noexcept
{
	static auto f = REAL(freeaddrinfo);
	if (active() && hookFreeaddrinfo) { hookFreeaddrinfo(a); return; }
	f(a);
}
} // extern "C"
