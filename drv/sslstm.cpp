// Driver of encrypted streams: pairs of streams connected by a wire which delivers the bytes in
// any pieces, maybe damaged. Events: see spec/net/StmTrace.tla.
#include "vrt.h"
#include "certs.h"
#include "mg/net/Buffer.h"
#include "mg/net/SSLContext.h"
#include "mg/net/SSLStream.h"
#include <cstring>
#include <map>
#include <memory>
#include <openssl/rand.h>
#include <openssl/ssl.h>

using namespace mg::net;
typedef std::vector<uint8_t> Bytes;

static vrt::Rng* rnd;
static int rndBytes(unsigned char* b, int n)
{
	static vrt::Rng dflt(1);
	vrt::Rng& r = rnd ? *rnd : dflt;
	for (int i = 0; i < n; ++i) b[i] = (unsigned char)(r.next() >> 13);
	return 1;
}
static int rndStatus() { return 1; }
static RAND_METHOD rndMethod = {nullptr, rndBytes, nullptr, nullptr, rndBytes, rndStatus};

static const SSLVersion vers[] = {SSL_VERSION_TLSv1_2, SSL_VERSION_TLSv1_3};

// lo and hi are 2 or 3; the client may demand a trusted certificate, which is not there.
static SSLContext* context(bool server, int lo, int hi, bool strict)
{
	static std::map<int, SSLContext::Ptr> all;
	int key = server * 1000 + lo * 100 + hi * 10 + strict;
	SSLContext::Ptr& p = all[key];
	if (!p.IsSet()) {
		p = SSLContext::NewShared(server);
		p->SetTrust(strict && !server ? SSL_TRUST_STRICT : SSL_TRUST_BYPASS_VERIFICATION);
		if (server) p->AddLocalCert(theCert, sizeof(theCert), theKey, sizeof(theKey));
		p->SetMinVersion(vers[lo - 2]);
		p->SetMaxVersion(vers[hi - 2]);
	}
	return p.GetPointer();
}

static uint8_t content(int pair, int dir, uint64_t pos)
{
	uint64_t x = pos * 0x9E3779B97F4A7C15ull + pair * 77777 + dir * 1234567 + 99;
	x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
	return (uint8_t)x;
}

struct Side {
	std::unique_ptr<SSLStream> s;
	bool server = false;
	uint64_t given = 0;   // application bytes given to the stream
	uint64_t clear = 0;   // ... before it was connected
	uint64_t got = 0;     // bytes of the peer received
	uint64_t outNet = 0;  // bytes taken for the network
	uint64_t inNet = 0;   // bytes fed
	Bytes wire;           // from this side to the other one, not delivered
	std::vector<Bytes> secrets;
	bool conn = false, stop = false;
	bool evConn = false;
};

static void state(int p, int i, Side& x, const char* what)
{
	vrt::ev("%s,\"p\":%d,\"s\":%d,\"en\":%d,\"co\":%d,\"cg\":%d,\"cd\":%d,\"er\":%d", what, p + 1, i + 1, (int)x.s->IsEncrypted(),
		(int)x.s->IsConnected(), (int)x.s->IsClosingOrClosed(), (int)x.s->IsClosed(), (int)(x.s->HasError() || x.s->GetError() != 0));
	if (x.s->IsConnected() && !x.evConn) {
		x.evConn = true;
		int v = x.s->GetVersion();
		vrt::ev("\"e\":\"ver\",\"p\":%d,\"s\":%d,\"v\":%d,\"c\":%d", p + 1, i + 1, v == SSL_VERSION_TLSv1_2 ? 2 : v == SSL_VERSION_TLSv1_3 ? 3 : 0,
			(int)(x.s->GetCipher() != SSL_CIPHER_NONE));
	}
}

static Bytes flat(const Buffer* b)
{
	Bytes r;
	for (; b; b = b->myNext.GetPointer()) r.insert(r.end(), b->myRData, b->myRData + b->myPos);
	return r;
}

static bool contains(const Bytes& h, const Bytes& n)
{
	if (h.size() < n.size()) return false;
	return memmem(h.data(), h.size(), n.data(), n.size()) != nullptr;
}

struct Pair {
	int p;
	Side a[2];
	bool damaged = false;
	std::string vText;

	void app(int i, uint64_t n)
	{
		Side& x = a[i];
		Bytes b(n);
		for (uint64_t k = 0; k < n; ++k) b[k] = content(p, i, x.given + k);
		x.s->AppendAppInputCopy(b.data(), n);
		x.given += n;
		if (!x.conn) x.clear = x.given;
		else if (n >= 12) x.secrets.push_back(Bytes(b.begin(), b.begin() + 12));
		char t[100];
		snprintf(t, sizeof(t), "\"e\":\"ap\",\"n\":%llu", (unsigned long long)n);
		state(p, i, x, t);
	}
	uint64_t out(int i)
	{
		Side& x = a[i];
		Buffer::Ptr h;
		uint64_t n = x.s->PopNetOutput(h);
		Bytes b = flat(h.GetPointer());
		// What is sent in clear is known.
		uint64_t m = 0;
		bool vis = false;
		if (!x.conn) {
			while (m < b.size() && b[m] == content(p, i, x.outNet + m)) ++m;
		} else {
			uint64_t lead = x.outNet < x.clear ? x.clear - x.outNet : 0;
			while (m < b.size() && m < lead && b[m] == content(p, i, x.outNet + m)) ++m;
			if (m < lead) m = 0; else m = b.size();
			for (auto& s : x.secrets) vis = vis || contains(b, s);
		}
		x.outNet += b.size();
		x.wire.insert(x.wire.end(), b.begin(), b.end());
		char t[160];
		snprintf(t, sizeof(t), "\"e\":\"no\",\"n\":%llu,\"z\":%llu,\"m\":%llu,\"vis\":%d", (unsigned long long)n, (unsigned long long)b.size(), (unsigned long long)m, (int)vis);
		state(p, i, x, t);
		return n;
	}
	// From the wire of the other side.
	uint64_t in(int i, uint64_t n)
	{
		Side& x = a[i];
		Side& o = a[1 - i];
		if (n > o.wire.size()) n = o.wire.size();
		if (!x.conn) {
			// Not beyond the part in clear.
			uint64_t left = o.clear - x.inNet;
			if (n > left) n = left;
		}
		if (n == 0) return 0;
		int way = vrt::rng().range(0, 2);
		if (way == 0) x.s->AppendNetInputCopy(o.wire.data(), n);
		else if (way == 1) x.s->AppendNetInputRef(BuffersCopy(o.wire.data(), n));
		else {
			// A chain of buffers with room at their ends.
			Buffer::Ptr head;
			Buffer* tail = nullptr;
			for (uint64_t k = 0; k < n;) {
				uint64_t c = 1 + vrt::rng().below(700);
				if (c > n - k) c = n - k;
				Buffer::Ptr b = BufferCopy::NewShared();
				memcpy(b->myWData, o.wire.data() + k, c);
				b->myPos = (uint32_t)c;
				Buffer* t = b.GetPointer();
				if (tail) tail->myNext = std::move(b); else head = std::move(b);
				tail = t;
				k += c;
			}
			x.s->AppendNetInputRef(std::move(head));
		}
		o.wire.erase(o.wire.begin(), o.wire.begin() + n);
		x.inNet += n;
		char t[100];
		snprintf(t, sizeof(t), "\"e\":\"ni\",\"n\":%llu", (unsigned long long)n);
		state(p, i, x, t);
		return n;
	}
	uint64_t pop(int i)
	{
		Side& x = a[i];
		Buffer::Ptr h;
		uint64_t n = x.s->PopAppOutput(h);
		Bytes b = flat(h.GetPointer());
		uint64_t m = 0;
		while (m < b.size() && b[m] == content(p, 1 - i, x.got + m)) ++m;
		x.got += b.size();
		char t[160];
		snprintf(t, sizeof(t), "\"e\":\"po\",\"n\":%llu,\"z\":%llu,\"m\":%llu", (unsigned long long)n, (unsigned long long)b.size(), (unsigned long long)m);
		state(p, i, x, t);
		return n;
	}
	void upd(int i)
	{
		bool v = a[i].s->Update();
		char t[100];
		snprintf(t, sizeof(t), "\"e\":\"up\",\"v\":%d", (int)v);
		state(p, i, a[i], t);
	}
	bool canApp(int i)
	{
		// Data in clear for a side which decrypts makes no sense.
		return a[i].conn || !a[1 - i].conn;
	}
	bool canConnect(int i)
	{
		Side& x = a[i];
		return !x.conn && !x.s->IsClosed() && x.got == a[1 - i].clear;
	}
	void connect(int i)
	{
		a[i].s->Connect();
		a[i].conn = true;
		state(p, i, a[i], "\"e\":\"cn\"");
	}
	void shut(int i)
	{
		a[i].s->Shutdown();
		a[i].stop = true;
		state(p, i, a[i], "\"e\":\"sh\"");
	}
	// Damage a byte of the wire towards side i. Prefers the body of a record.
	void damage(int i)
	{
		Side& x = a[i];
		Side& o = a[1 - i];
		if (o.wire.empty() || !x.conn || x.inNet < o.clear) return;
		bool sure = false;
		uint64_t at = vrt::rng().below(o.wire.size());
		// Record borders are known if everything before was fed.
		if (x.s->IsConnected() && o.s->IsConnected() && recAt(i)) {
			if (o.wire.size() > 5 && o.wire[0] == 23) {
				uint64_t len = o.wire[3] * 256 + o.wire[4];
				if (o.wire.size() >= 5 + len && len > 0) { at = 5 + vrt::rng().below(len); sure = true; }
			}
		}
		o.wire[at] ^= (uint8_t)(1u << vrt::rng().below(8));
		damaged = true;
		vrt::ev("\"e\":\"dm\",\"p\":%d,\"s\":%d,\"sure\":%d", p + 1, i + 1, (int)sure);
	}
	// True if the wire towards side i starts with a new record.
	uint64_t recLeft[2] = {0, 0};
	Bytes recHdr[2];
	bool recAt(int i) { return recLeft[i] == 0 && recHdr[i].empty() && !damaged; }
	void track(int i, const Bytes& fed, uint64_t skip)
	{
		for (uint64_t k = skip; k < fed.size(); ++k) {
			if (recLeft[i] > 0) { --recLeft[i]; continue; }
			recHdr[i].push_back(fed[k]);
			if (recHdr[i].size() == 5) { recLeft[i] = recHdr[i][3] * 256 + recHdr[i][4]; recHdr[i].clear(); }
		}
	}
	uint64_t feed(int i, uint64_t n)
	{
		Side& x = a[i];
		uint64_t before = x.inNet;
		Bytes w = a[1 - i].wire;
		uint64_t k = in(i, n);
		w.resize(k);
		uint64_t c = a[1 - i].clear;
		track(i, w, before >= c ? 0 : (c - before > k ? k : c - before));
		return k;
	}
	void pump()
	{
		for (int round = 0; round < 60; ++round) {
			uint64_t did = 0;
			for (int i = 0; i < 2; ++i) did += out(i);
			for (int i = 0; i < 2; ++i) did += feed(i, a[1 - i].wire.size());
			for (int i = 0; i < 2; ++i) did += pop(i);
			for (int i = 0; i < 2; ++i) upd(i);
			if (did == 0) break;
		}
		vrt::ev("\"e\":\"qu\",\"p\":%d,\"w1\":%d,\"w2\":%d", p + 1, (int)!a[0].wire.empty(), (int)!a[1].wire.empty());
	}
};

static uint64_t size(vrt::Rng& r)
{
	switch (r.range(0, 7)) {
	case 0: return r.below(3);
	case 1: return 900 + r.below(200);
	case 2: return 16384 - 20 + r.below(40);
	case 3: return r.below(40000);
	default: return r.below(300);
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>&)
{
	vrt::Rng g(seed * 41 + 3);
	int P = g.range(1, 2);
	vrt::Scenario s;
	std::vector<std::array<int, 5>> vs;
	s.cfgJson = "{\"p\":[";
	for (int i = 0; i < P; ++i) {
		std::array<int, 5> v = {2, 3, 2, 3, 0};
		if (g.chance(1, 2)) for (int k = 0; k < 4; k += 2) { v[k] = g.range(2, 3); v[k + 1] = g.range(v[k], 3); }
		v[4] = g.chance(1, 12);
		vs.push_back(v);
		char t[200];
		snprintf(t, sizeof(t), "%s{\"lo1\":%d,\"hi1\":%d,\"lo2\":%d,\"hi2\":%d,\"bad\":%d}", i ? "," : "", v[0], v[1], v[2], v[3], v[4]);
		s.cfgJson += t;
	}
	s.cfgJson += "]}";
	int nclear = g.range(0, 6), nops = g.range(3, 40);
	bool early = g.chance(1, 6), dmg = g.chance(1, 4), shutNew = g.chance(1, 15);
	s.cfg.maxSteps = 50000000;
	s.body = [=]() {
		vrt::Rng& r = vrt::rng();
		vrt::Rng cr(seed * 7 + 1);
		rnd = &cr;
		{
			std::vector<std::unique_ptr<Pair>> ps;
			for (int i = 0; i < P; ++i) {
				ps.emplace_back(new Pair());
				Pair& q = *ps.back();
				q.p = i;
				for (int k = 0; k < 2; ++k) {
					q.a[k].server = k == 1;
					q.a[k].s.reset(new SSLStream(context(k == 1, vs[i][k * 2], vs[i][k * 2 + 1], vs[i][4])));
					state(i, k, q.a[k], "\"e\":\"new\"");
				}
			}
			bool shutOk = false;
			for (int op = 0; op < nclear + nops; ++op) {
				Pair& q = *ps[r.below(P)];
				int i = r.range(0, 1);
				Side& x = q.a[i];
				uint64_t z = r.below(12);
				if (op >= nclear && !x.conn && z < 6) {
					if (q.canConnect(i)) { q.connect(i); continue; }
					// Bring the rest of the part in clear.
					q.out(1 - i);
					q.feed(i, 1 << 20);
					q.pop(i);
					continue;
				}
				if (z < 3) { if (q.canApp(i)) q.app(i, size(r)); }
				else if (z < 5) q.out(i);
				else if (z < 7) q.feed(i, r.chance(1, 2) ? 1 << 20 : r.chance(1, 2) ? 1 + r.below(50) : 1 + r.below(2000));
				else if (z < 9) q.pop(i);
				else if (z == 9) q.upd(i);
				else if (z == 10) {
					if (dmg && r.chance(1, 2)) q.damage(i);
				} else {
					bool fits = x.conn ? (early || (q.a[0].s->IsConnected() && q.a[1].s->IsConnected())) : shutNew;
					(void)shutOk;
					if (fits && !x.s->IsClosed() && r.chance(1, 4)) q.shut(i);
				}
			}
			for (auto& pp : ps) pp->pump();
			for (auto& pp : ps) {
				Pair& q = *pp;
				int i = r.range(0, 1);
				if (!q.a[i].s->IsClosed() && (q.a[i].conn ? early || q.a[i].s->IsConnected() : shutNew) && r.chance(1, 2)) {
					q.shut(i);
					if (r.chance(1, 3)) q.app(1 - i, size(r));
					q.pump();
				}
			}
		}
		vrt::ev("\"e\":\"end\"");
		rnd = nullptr;
	};
	return s;
}

int main(int argc, char** argv)
{
	RAND_set_rand_method(&rndMethod);
	OPENSSL_init_ssl(0, nullptr);
	return vrt::driverMain(argc, argv, make);
}
