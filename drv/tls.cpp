// Driver of encryption contexts: contexts are configured in any order and compared, and connections
// are made between them. Events: see spec/net/TlsTrace.tla.
#include "vrt.h"
#include "tlscerts.h"
#include "mg/net/Buffer.h"
#include "mg/net/SSLContext.h"
#include "mg/net/SSLStream.h"
#include <cstring>
#include <functional>
#include <memory>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace mg::net;

static vrt::Rng* rnd;
static int rndBytes(unsigned char* b, int n)
{
	static vrt::Rng dflt(1);
	vrt::Rng& r = rnd ? *rnd : dflt;
	for (int i = 0; i < n; ++i) b[i] = (unsigned char)(r.next() >> 13);
	return 1;
}
static int rndStatus() { return 1; }
static RAND_METHOD rndMethod = {nullptr, rndBytes, nullptr, nullptr, rndBytes, rndStatus};

static const SSLVersion theVers[] = {SSL_VERSION_TLSv1, SSL_VERSION_TLSv1_1, SSL_VERSION_TLSv1_2, SSL_VERSION_TLSv1_3, SSL_VERSION_ANY};
static const SSLCipher theCiphers[] = {SSL_CIPHER_ECDHE_ECDSA_AES128_GCM_SHA256, SSL_CIPHER_ECDHE_ECDSA_AES256_GCM_SHA384,
	SSL_CIPHER_TLS_AES_128_GCM_SHA256, SSL_CIPHER_TLS_AES_256_GCM_SHA384, SSL_CIPHER_TLS_CHACHA20_POLY1305_SHA256};
static const SSLTrust theTrusts[] = {SSL_TRUST_STRICT, SSL_TRUST_RELAXED, SSL_TRUST_UNSECURE, SSL_TRUST_BYPASS_VERIFICATION};

static int cipherNum(SSLCipher c)
{
	for (int i = 0; i < 5; ++i) if (theCiphers[i] == c) return i + 1;
	return 0;
}
static int versionNum(SSLVersion v)
{
	for (int i = 0; i < 4; ++i) if (theVers[i] == v) return i;
	return 9;
}

// Certificates by number: 1 CA1, 2 CA2, 3 S (self-signed), 4 A (of CA1), 5 B (of CA2), 6 E (of CA1, expired),
// 7 L (of CA1, not valid yet), 8 R (of CA1, RSA), 9 garbage, 10 CA3 (RSA). Keys: 1 of A, E, L; 2 of B; 3 of S; 4 of R; 5 garbage.
static const char* const pems[] = {pem_ca, pem_ca2, pem_S, pem_A, pem_B, pem_E, pem_L, pem_R, "-----BEGIN JUNK-----\nabcd\n", pem_ca3};
static const char* const keys[] = {key_k1, key_k2, key_k3, key_k4, "-----BEGIN JUNK-----\nabcd\n"};
static const int keyOf[] = {0, 0, 3, 1, 2, 1, 1, 4, 0, 0};

struct Blob {
	std::string pem, der, file, encFile;
};
static Blob certs[10], privs[5];

static std::string fileOf(const std::string& data)
{
	int fd = memfd_create("tls", 0);
	if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size()) abort();
	return "/proc/self/fd/" + std::to_string(fd);
}
static void prepare()
{
	for (int i = 0; i < 10; ++i) {
		Blob& b = certs[i];
		b.pem = pems[i];
		b.file = fileOf(b.pem);
		b.der = "garbage";
		BIO* bio = BIO_new_mem_buf(b.pem.data(), (int)b.pem.size());
		if (X509* x = PEM_read_bio_X509(bio, nullptr, nullptr, nullptr)) {
			unsigned char* out = nullptr;
			int n = i2d_X509(x, &out);
			b.der.assign((const char*)out, n);
			OPENSSL_free(out);
			X509_free(x);
		}
		BIO_free(bio);
	}
	for (int i = 0; i < 5; ++i) {
		Blob& b = privs[i];
		b.pem = keys[i];
		b.file = b.encFile = fileOf(b.pem);
		b.der = "garbage";
		BIO* bio = BIO_new_mem_buf(b.pem.data(), (int)b.pem.size());
		if (EVP_PKEY* k = PEM_read_bio_PrivateKey(bio, nullptr, nullptr, nullptr)) {
			unsigned char* out = nullptr;
			int n = i2d_PrivateKey(k, &out);
			b.der.assign((const char*)out, n);
			OPENSSL_free(out);
			BIO* w = BIO_new(BIO_s_mem());
			if (PEM_write_bio_PrivateKey(w, k, EVP_aes_128_cbc(), nullptr, 0, nullptr, (void*)"pass word") != 1) abort();
			char* p;
			long m = BIO_get_mem_data(w, &p);
			b.encFile = fileOf(std::string(p, m));
			BIO_free(w);
			EVP_PKEY_free(k);
		}
		BIO_free(bio);
	}
	ERR_clear_error();
}

struct Ctx {
	SSLContext::Ptr c;
	bool server = false, local = false, failed = false;
	int trust = 0;
	// Everything done to it.
	std::vector<std::function<void(Ctx&, int)>> history;

	void fresh(int i, bool isServer)
	{
		c = SSLContext::NewShared(isServer);
		server = isServer;
		local = failed = false;
		trust = 0;
		history.clear();
		vrt::ev("\"e\":\"new\",\"i\":%d,\"s\":%d,\"is\":%d", i, (int)server, (int)c->IsServer());
	}
	// The same things are done, but one of them maybe.
	void repeat(int i, bool isServer, std::vector<std::function<void(Ctx&, int)>> h, int skip)
	{
		fresh(i, isServer);
		for (size_t k = 0; k < h.size(); ++k) if ((int)k != skip) { h[k](*this, i); }
	}
};

static std::string take(SSLStream& s, bool net)
{
	Buffer::Ptr h;
	std::string r;
	if (net) s.PopNetOutput(h); else s.PopAppOutput(h);
	for (const Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) r.append((const char*)b->myRData, b->myPos);
	return r;
}

static void shake(vrt::Rng& r, std::vector<Ctx>& cs, int i, int j)
{
	SSLStream s(cs[i].c), c(cs[j].c);
	bool early = r.chance(1, 3), drop = r.chance(1, 8);
	// The streams keep what they need.
	if (drop) {
		cs[i].c.Clear();
		cs[j].c.Clear();
	}
	s.Connect();
	c.Connect();
	std::string toS = "from the client to the server", toC = "from the server to the client", gotS, gotC;
	bool sent = early;
	if (early) {
		s.AppendAppInputCopy(toC.data(), toC.size());
		c.AppendAppInputCopy(toS.data(), toS.size());
	}
	for (int k = 0;; ++k) {
		s.Update();
		c.Update();
		std::string a = take(s, true), b = take(c, true);
		if (!a.empty()) c.AppendNetInputCopy(a.data(), a.size());
		if (!b.empty()) s.AppendNetInputCopy(b.data(), b.size());
		gotS += take(s, false);
		gotC += take(c, false);
		if (!a.empty() || !b.empty()) continue;
		if (sent) break;
		sent = true;
		s.AppendAppInputCopy(toC.data(), toC.size());
		c.AppendAppInputCopy(toS.data(), toS.size());
	}
	auto got = [](const std::string& g, const std::string& t) { return g.empty() ? 0 : g == t ? 1 : 2; };
	vrt::ev("\"e\":\"hs\",\"i\":%d,\"j\":%d,\"sc\":%d,\"cc\":%d,\"se\":%d,\"ce\":%d,\"sv\":%d,\"cv\":%d,\"sk\":%d,\"ck\":%d,\"ds\":%d,\"dc\":%d", i + 1, j + 1,
		(int)s.IsConnected(), (int)c.IsConnected(), (int)s.HasError(), (int)c.HasError(), s.IsConnected() ? versionNum(s.GetVersion()) : 9,
		c.IsConnected() ? versionNum(c.GetVersion()) : 9, s.IsConnected() ? cipherNum(s.GetCipher()) : 9,
		c.IsConnected() ? cipherNum(c.GetCipher()) : 9, got(gotS, toS), got(gotC, toC));
	if (drop) {
		cs[i].repeat(i + 1, cs[i].server, cs[i].history, -1);
		cs[j].repeat(j + 1, cs[j].server, cs[j].history, -1);
	}
}

static void trust(Ctx& x, int i, int v)
{
	x.history.push_back([=](Ctx& y, int j) { trust(y, j, v); });
	x.trust = v;
	bool ok = x.c->SetTrust(theTrusts[v]);
	vrt::ev("\"e\":\"tr\",\"i\":%d,\"v\":%d,\"r\":%d", i, v, (int)ok);
}
static void remote(Ctx& x, int i, int k, int way)
{
	x.history.push_back([=](Ctx& y, int j) { remote(y, j, k, way); });
	// Preconditions.
	if (way == 2 && x.trust == 3) way = 0;
	if (way != 2 && k == 9) k = 1;
	Blob& b = certs[k];
	bool ok = way == 0 ? x.c->AddRemoteCert(b.der.data(), (uint32_t)b.der.size()) :
		way == 1 ? x.c->AddRemoteCert(b.pem.data(), (uint32_t)b.pem.size()) : x.c->AddRemoteCertFile(b.file.c_str());
	vrt::ev("\"e\":\"ca\",\"i\":%d,\"v\":%d,\"w\":%d,\"r\":%d", i, k + 1, way, (int)ok);
}
static void local(Ctx& x, int i, int k, int way, int key = -1, bool pw = true)
{
	// Preconditions.
	if (x.local || x.trust == 2) return;
	x.history.push_back([=](Ctx& y, int j) { local(y, j, k, way, key, pw); });
	if (key < 0) key = keyOf[k] ? keyOf[k] - 1 : 0;
	// A key of another kind is not accepted by the memory functions.
	if (way == 0 && key == 3) way = 1;
	// Two failures in a row may leave the parts of a whole.
	if (x.failed && (k == 8 || k < 2 || keyOf[k] != key + 1 || !pw || (k == 7 && x.trust == 0))) return;
	bool ok;
	Blob &b = certs[k], &p = privs[key];
	if (way == 0) ok = x.c->AddLocalCert(b.der.data(), (uint32_t)b.der.size(), p.der.data(), (uint32_t)p.der.size());
	else ok = x.c->AddLocalCertFile(b.file.c_str(), (way == 1 ? p.file : p.encFile).c_str(), pw ? "pass word" : "password");
	x.local = ok;
	x.failed = !ok;
	vrt::ev("\"e\":\"lc\",\"i\":%d,\"v\":%d,\"k\":%d,\"w\":%d,\"pw\":%d,\"r\":%d", i, k + 1, key + 1, way, (int)pw, (int)ok);
}
static int leaf(vrt::Rng& r) { return r.chance(1, 2) ? 3 : r.chance(1, 10) ? 8 : 2 + r.below(6); }

static void version(Ctx& x, int i, bool min, int v)
{
	x.history.push_back([=](Ctx& y, int j) { version(y, j, min, v); });
	bool ok = min ? x.c->SetMinVersion(theVers[v]) : x.c->SetMaxVersion(theVers[v]);
	vrt::ev("\"e\":\"%s\",\"i\":%d,\"v\":%d,\"r\":%d", min ? "min" : "max", i, v, (int)ok);
}
static void cipher(Ctx& x, int i, int v)
{
	x.history.push_back([=](Ctx& y, int j) { cipher(y, j, v); });
	bool ok = x.c->AddCipher(theCiphers[v]);
	vrt::ev("\"e\":\"ci\",\"i\":%d,\"v\":%d,\"r\":%d", i, v + 1, (int)ok);
}

static thread_local bool old; // old versions are preferred
static void oper(vrt::Rng& r, Ctx& x, int i)
{
	switch (r.below(9)) {
	case 0:
		trust(x, i, r.below(4));
		break;
	case 1: case 2: {
		bool min = r.chance(1, 2);
		int high = old ? r.below(2) : r.range(2, 3);
		version(x, i, min, r.chance(2, 3) ? high : old ? r.chance(1, 3) ? 4 : r.below(2) : r.below(5));
		break;
	}
	case 3: case 4: case 5:
		if (old) break;
		cipher(x, i, r.below(5));
		break;
	case 6:
		remote(x, i, r.chance(1, 12) ? 8 : r.chance(1, 8) ? 9 : r.below(3), r.below(3));
		break;
	default:
		local(x, i, leaf(r), r.below(3), r.chance(1, 12) ? r.below(5) : -1, r.chance(7, 8));
	}
}

static vrt::Scenario make(uint64_t seed, const std::vector<std::string>&)
{
	vrt::Rng g(seed * 41 + 3);
	int n = g.range(2, 6), nops = g.range(1, 24);
	vrt::Scenario s;
	s.cfgJson = "{\"n\":" + std::to_string(n) + "}";
	s.cfg.maxSteps = 50000000;
	s.body = [=]() {
		vrt::Rng& r = vrt::rng();
		vrt::Rng cr(seed * 7 + 1);
		rnd = &cr;
		{
			std::vector<Ctx> cs(n);
			old = r.chance(1, 6);
			for (int i = 0; i < n; ++i) {
				cs[i].fresh(i + 1, i == 0 || (i > 1 && r.chance(1, 2)));
			}
			// Most of the contexts are about to work.
			for (int i = 0; i < n; ++i) {
				Ctx& x = cs[i];
				if (r.chance(1, 5)) continue;
				if (x.server ? r.chance(3, 4) : r.chance(1, 6)) trust(x, i + 1, 3);
				else if (r.chance(1, 2)) trust(x, i + 1, r.below(2));
				if (x.server || r.chance(1, 2)) local(x, i + 1, leaf(r), r.below(3));
				if (x.trust != 3 || r.chance(1, 4)) for (int k = r.range(1, 2); k > 0; --k) remote(x, i + 1, r.chance(2, 3) ? 0 : r.below(3), r.below(3));
				if (!x.server && x.trust < 2 && r.chance(1, 4)) trust(x, i + 1, 2);
			}
			for (int op = 0; op < nops; ++op) {
				int i = r.below(n), j = r.below(n);
				int z = r.below(10);
				if (z < 5) oper(r, cs[i], i + 1);
				else if (z == 6 && i > 1 && j != i) {
					// Nearly the same one.
					int h = (int)cs[j].history.size();
					cs[i].repeat(i + 1, r.chance(1, 12) ? !cs[j].server : cs[j].server, cs[j].history, h && r.chance(1, 3) ? r.below(h) : -1);
					if (r.chance(1, 4)) oper(r, cs[i], i + 1);
					vrt::ev("\"e\":\"eq\",\"i\":%d,\"j\":%d,\"r\":%d", i + 1, j + 1, (int)(*cs[i].c == *cs[j].c));
				} else if (z == 7 && i != j) vrt::ev("\"e\":\"eq\",\"i\":%d,\"j\":%d,\"r\":%d", i + 1, j + 1, (int)(*cs[i].c == *cs[j].c));
				else if (cs[i].server && !cs[j].server) shake(r, cs, i, j);
			}
			for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
				if (cs[i].server && !cs[j].server) shake(r, cs, i, j);
		}
		vrt::ev("\"e\":\"end\"");
		rnd = nullptr;
	};
	return s;
}

int main(int argc, char** argv)
{
	// The settings of the machine do not matter.
	setenv("OPENSSL_CONF", "/dev/null", 1);
	RAND_set_rand_method(&rndMethod);
	OPENSSL_init_ssl(0, nullptr);
	prepare();
	return vrt::driverMain(argc, argv, make);
}
