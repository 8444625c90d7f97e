// Driver of the task scheduler. Events: see spec/sch/SchedTrace.tla.
#include "vrt.h"
#include "mg/sch/TaskScheduler.h"
#include "mg/box/Time.h"
#include <algorithm>
#include <memory>

using namespace mg::sch;
using mg::box::TimeLimit;
using mg::box::TimeDuration;

static constexpr long long INF = 1000000000;

struct TaskCtx {
	Task* t = nullptr;
	int kind = 0;      // 0 normal, 1 deletes itself at the end, 2 deletes itself on a signal, 3 one-shot
	int left = 0;      // executions with a re-post
	bool free = true;  // in user's hands
	bool dead = false;
	int inst = 0;
	int sigDebt = 0;   // signals to be sent by posters for kind 2
};

static TaskScheduler* sched;
static std::vector<TaskCtx> tasks;
static bool closing, ticks, burst;
static int active;

static long long rel(uint64_t d)
{
	if (d == 0) return 0;
	if (d == MG_TIME_INFINITE) return INF;
	long long r = (long long)(d - vrt::baseMs());
	return r < 1 ? 1 : r;
}

static void doPost(int k, int how, int delay)
{
	TaskCtx& c = tasks[k];
	Task* t = c.t;
	c.free = false;
	int n = ++c.inst;
	int th = vrt::self();
	if (how == 5 && ticks) how = 1;
	if (how == 6 && ticks) how = 3;
	long long d = 0;
	uint64_t lo = vrt::nowMs();
	switch (how) {
	case 0: d = 0; break;
	case 1: t->SetDelay(delay); break;
	case 2: t->SetDeadline(vrt::baseMs() + vrt::nowMs() + delay - 3); break;
	case 3: t->SetWait(); break;
	case 4: t->SetWait(); t->AdjustDelay(delay); break;
	case 7: t->SetDelay(delay); t->AdjustDeadline(MG_TIME_INFINITE); t->AdjustDelay(delay + 5); break;
	default: break;
	}
	if (how == 1 || how == 4 || how == 7)
		vrt::ev("\"e\":\"ds\",\"lo\":%lld,\"hi\":%lld,\"v\":%lld", (long long)lo + delay,
			(long long)vrt::nowMs() + delay, rel(t->GetDeadline()));
	if (how == 5) d = (long long)vrt::nowMs() + delay;
	else if (how == 6) d = INF;
	else if (how == 8) d = (long long)vrt::nowMs() + delay;
	else d = rel(t->GetDeadline());
	if (how == 8 && ticks) { how = 0; d = rel(t->GetDeadline()); }
	vrt::ev("\"e\":\"pc\",\"k\":%d,\"n\":%d,\"d\":%lld,\"t\":%llu,\"h\":%d", k + 1, n, d, (unsigned long long)vrt::nowMs(), th);
	switch (how) {
	case 5: sched->PostDelay(t, delay); break;
	case 6: sched->PostWait(t); break;
	case 8: sched->PostDeadline(t, vrt::baseMs() + vrt::nowMs() + delay); break;
	default: sched->Post(t); break;
	}
	vrt::ev("\"e\":\"pr\",\"k\":%d,\"n\":%d", k + 1, n);
}

static void doWake(int k)
{
	int th = vrt::self();
	vrt::ev("\"e\":\"wc\",\"k\":%d,\"h\":%d", k + 1, th);
	tasks[k].t->PostWakeup();
	vrt::ev("\"e\":\"wr\",\"k\":%d,\"h\":%d", k + 1, th);
}

static void doSignal(int k)
{
	int th = vrt::self();
	vrt::ev("\"e\":\"sc\",\"k\":%d,\"h\":%d", k + 1, th);
	tasks[k].t->PostSignal();
	vrt::ev("\"e\":\"sr\",\"k\":%d,\"h\":%d", k + 1, th);
}

static bool doReceive(int k)
{
	int th = vrt::self();
	vrt::ev("\"e\":\"rc\",\"k\":%d,\"h\":%d", k + 1, th);
	bool v = tasks[k].t->ReceiveSignal();
	vrt::ev("\"e\":\"rr\",\"k\":%d,\"h\":%d,\"v\":%d", k + 1, th, (int)v);
	return v;
}

static void doIsSig(int k)
{
	int th = vrt::self();
	vrt::ev("\"e\":\"ic\",\"k\":%d,\"h\":%d", k + 1, th);
	bool v = tasks[k].t->IsSignaled();
	vrt::ev("\"e\":\"ir\",\"k\":%d,\"h\":%d,\"v\":%d", k + 1, th, (int)v);
}

static int pickHow(vrt::Rng& r)
{
	static const int hs[] = {0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8};
	return hs[r.below(sizeof(hs) / sizeof(hs[0]))];
}

// A task which can be woken up or signaled by anybody at any moment.
static int pickLong(vrt::Rng& r)
{
	std::vector<int> v;
	for (size_t i = 0; i < tasks.size(); ++i) if (tasks[i].kind == 0) v.push_back((int)i);
	if (v.empty()) return -1;
	return v[r.below(v.size())];
}

static void sideOp(vrt::Rng& r)
{
	int k = pickLong(r);
	if (k < 0) return;
	if (r.chance(1, 2)) doWake(k); else doSignal(k);
}

static void finish(int k, Task* t, bool del)
{
	TaskCtx& c = tasks[k];
	if (del) {
		c.dead = true;
		c.t = nullptr;
		vrt::ev("\"e\":\"del\",\"k\":%d", k + 1);
		delete t;
	} else {
		vrt::ev("\"e\":\"xe\",\"k\":%d", k + 1);
		c.free = true;
	}
}

static void body(int k, Task* t)
{
	vrt::Rng& r = vrt::rng();
	TaskCtx& c = tasks[k];
	bool exp = t ? t->IsExpired() : true;
	vrt::ev("\"e\":\"xb\",\"k\":%d,\"x\":%d,\"t\":%llu", k + 1, (int)exp, (unsigned long long)vrt::nowMs());
	++active;
	if (burst && k == 0) {
		burst = false;
		for (size_t i = 1; i < tasks.size(); ++i)
			if (tasks[i].kind == 0 && r.chance(1, 2)) { if (r.chance(2, 3)) doWake((int)i); else doSignal((int)i); }
		vrt::advanceMs(3 + r.below(8));
	}
	if (r.chance(1, 8)) vrt::yield();
	if (r.chance(1, 12)) vrt::stall();
	if (ticks && r.chance(1, 6)) vrt::advanceMs(1 + r.below(6));
	if (c.kind == 3) {
		c.dead = true;
		vrt::ev("\"e\":\"del\",\"k\":%d", k + 1);
	} else if (c.kind == 2) {
		if (doReceive(k)) finish(k, t, true);
		else { if (r.chance(1, 6)) vrt::yield(); doPost(k, r.chance(1, 2) ? 3 : pickHow(r), 1 + (int)r.below(9)); }
	} else {
		if (r.chance(1, 10)) doIsSig(k);
		bool got = r.chance(3, 4) ? doReceive(k) : false;
		(void)got;
		if (c.kind == 0 && r.chance(1, 8)) sideOp(r);
		if (c.kind == 0 && r.chance(1, 8)) { if (r.chance(1, 2)) doWake(k); else doSignal(k); }
		bool sig = t->IsSignaled();
		if (closing) {
			if (sig) { doReceive(k); }
			finish(k, t, false);
		} else if (c.left > 0) {
			--c.left;
			doPost(k, pickHow(r), (int)r.below(12));
		} else finish(k, t, c.kind == 1);
	}
	vrt::ev("\"e\":\"ce\"");
	--active;
}

static void start(int n)
{
	vrt::ev("\"e\":\"gs\",\"n\":%d", n);
	sched->Start(n);
}

static void stop()
{
	vrt::ev("\"e\":\"tc\"");
	sched->Stop();
	vrt::ev("\"e\":\"tr\"");
}

static bool waitEmpty(long long lim)
{
	int th = vrt::self();
	vrt::ev("\"e\":\"ec\",\"h\":%d,\"t\":%llu,\"lim\":%lld", th, (unsigned long long)vrt::nowMs(), lim);
	bool v = lim == -2 ? sched->IsEmpty() : lim < 0 ? sched->WaitEmpty() : sched->WaitEmpty(TimeDuration((uint64_t)lim));
	vrt::ev("\"e\":\"er\",\"h\":%d,\"v\":%d,\"t\":%llu", th, (int)v, (unsigned long long)vrt::nowMs());
	return v;
}

static void poster(int me, int np, int nops)
{
	vrt::Rng& r = vrt::rng();
	std::vector<int> mine;
	for (size_t i = 0; i < tasks.size(); ++i) if ((int)i % np == me) mine.push_back((int)i);
	for (int i = 0; i < nops || !mine.empty(); ++i) {
		uint64_t a = r.below(10);
		if (a < 5 && !mine.empty()) {
			size_t x = r.below(mine.size());
			int k = mine[x];
			mine.erase(mine.begin() + x);
			TaskCtx& c = tasks[k];
			if (!vrt::take(c.free)) continue;
			if (c.kind == 3) {
				int n = ++c.inst;
				vrt::ev("\"e\":\"pc\",\"k\":%d,\"n\":%d,\"d\":0,\"t\":%llu,\"h\":%d", k + 1, n, (unsigned long long)vrt::nowMs(), vrt::self());
				sched->PostOneShot([k]() { body(k, nullptr); });
				vrt::ev("\"e\":\"pr\",\"k\":%d,\"n\":%d", k + 1, n);
			} else {
				doPost(k, pickHow(r), (int)r.below(12));
				if (c.kind == 2) {
					if (r.chance(1, 3)) vrt::yield();
					if (r.chance(1, 4)) mg::box::Sleep(1 + r.below(8));
					doSignal(k);
				}
			}
		} else if (a < 8) sideOp(r);
		else if (a == 8) { if (r.chance(1, 3)) mg::box::Sleep(1 + r.below(10)); else vrt::yield(); }
		else if (a == 9) {
			// Post again something finished.
			for (size_t k = 0; k < tasks.size(); ++k)
				if (tasks[k].kind == 0 && vrt::take(tasks[k].free) && !closing) {
					if (tasks[k].inst == 0) { tasks[k].free = true; continue; }
					doPost((int)k, pickHow(r), (int)r.below(12));
					break;
				}
		}
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>& args)
{
	vrt::Rng g(seed * 31 + 5);
	int W = g.range(1, 3);
	static const int subs[] = {1, 2, 2, 3, 4, 100};
	int sub = subs[g.below(6)];
	int N = g.range(1, 5);
	int np = g.range(1, 2);
	int nops = g.range(1, 5);
	int mode = g.range(0, 7); // bit0: wait empty in the middle, 1: restart
	bool onlyImm = false;
	(void)onlyImm;
	bool tk = g.chance(1, 4);
	// A part of the scenarios is very small: rare orders of few steps are more likely there.
	bool tiny = g.chance(1, 4) || (!args.empty() && args[0] == "tiny");
	if (tiny) { W = 2; N = g.range(1, 2); np = 1; nops = 1; tk = false; mode = g.range(4, 6); }
	// Many tasks become due together while the workers are busy, some of them are woken up before that.
	bool bst = !tiny && g.chance(1, 6);
	if (bst) { W = g.range(1, 2); N = g.range(3, 7); np = 0; tk = true; mode = 0; sub = g.range(1, 2); }
	std::vector<int> kinds, left;
	for (int i = 0; i < N; ++i) {
		static const int ks[] = {0, 0, 0, 0, 1, 2, 3};
		kinds.push_back(ks[g.below(7)]);
		left.push_back((int)g.below(4));
		if (bst) { kinds[i] = i > 0 && g.chance(1, 3) ? 1 : 0; left[i] = i == 0 ? 0 : (int)g.below(3); }
		if (tiny) { kinds[i] = 0; left[i] = (int)g.below(2); }
	}
	vrt::Scenario s;
	s.cfg.tickable = tk;
	s.cfgJson = "{\"n\":" + std::to_string(N) + ",\"tk\":" + (tk ? "1" : "0") + "}";
	s.body = [=]() {
		vrt::advanceMs(100);
		closing = false;
		ticks = tk;
		burst = bst;
		active = 0;
		tasks.clear();
		tasks.resize(N);
		TaskScheduler sc("s", sub);
		sched = &sc;
		for (int i = 0; i < N; ++i) {
			tasks[i].kind = kinds[i];
			tasks[i].left = left[i];
			if (kinds[i] != 3) tasks[i].t = new Task([i](Task* t) { body(i, t); });
		}
		bool early = bst || vrt::rng().chance(3, 4);
		if (early) start(W);
		std::vector<int> ths;
		for (int p = 0; p < np; ++p) ths.push_back(vrt::spawn([=]() { poster(p, np, nops); }));
		if (!early) start(W);
		if (bst) {
			for (int k = 1; k < N; ++k) doPost(k, 1, 2 + (int)vrt::rng().below(3));
			vrt::waitIdle(false);
			for (int k = 1; k < N; ++k) {
				if (tasks[k].kind == 0 && vrt::rng().chance(1, 8)) doWake(k);
			}
			doPost(0, 0, 0);
		}
		bool inf = true;
		for (auto& c : tasks) inf = inf && c.kind != 2;
		if (mode == 1 || mode == 3) {
			if (vrt::rng().chance(1, 2)) waitEmpty((long long)vrt::rng().below(25)); else waitEmpty(-1);
		}
		if (mode == 4 || mode == 5) {
			int n = vrt::rng().range(1, 6);
			if (tiny && early) {
				if (vrt::rng().chance(1, 2)) vrt::waitIdle(true);
				for (int k = 0; k < N; ++k)
					if (vrt::take(tasks[k].free)) doPost(k, 0, 0);
			}
			for (int i = 0; i < n; ++i) { waitEmpty(-2); if (vrt::rng().chance(1, 2)) vrt::yield(); }
		}
		if (mode == 2 || mode == 3) {
			if (vrt::rng().chance(1, 3)) vrt::yield();
			stop();
			if (vrt::rng().chance(1, 3)) mg::box::Sleep(vrt::rng().below(15));
			start(vrt::rng().range(1, 3));
		}
		for (int t : ths) vrt::join(t);
		vrt::waitIdle(true);
		vrt::ev("\"e\":\"idle\"");
		closing = true;
		for (int k = 0; k < N; ++k)
			if (!tasks[k].dead) doWake(k);
		waitEmpty(-1);
		if (vrt::rng().chance(1, 2)) stop();
		else if (vrt::rng().chance(1, 2)) {
			// One more round after the drain.
			stop();
			start(vrt::rng().range(1, 2));
			for (int k = 0; k < N; ++k)
				if (!tasks[k].dead && tasks[k].free) doPost(k, 0, 0);
			waitEmpty(-1);
			stop();
		}
		for (int k = 0; k < N; ++k) {
			if (!tasks[k].dead) {
				if (!tasks[k].free) vrt::ev("\"e\":\"leak\",\"k\":%d", k + 1);
				else delete tasks[k].t;
			}
		}
		std::vector<TaskCtx>().swap(tasks);
	};
	return s;
}

int main(int argc, char** argv)
{
	return vrt::driverMain(argc, argv, make);
}
