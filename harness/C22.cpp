// C22: Integer construction and reveal preserve the value.
#include "sweep.h"
using namespace sw; using std::string;
static int owners[] = {ALICE, BOB, PUBLIC}; static int recips[] = {ALICE, BOB, PUBLIC, XOR};
static void check_all_reveals(const Integer &x, const BV &v, const char *how) {
	int n = v.size(); uint64_t lo = 0; for (int i = 0; i < n && i < 64; ++i) if (v[i]) lo |= 1ULL << i;
	MC_REQUIRE((int)x.size() == n, "%s: %d-bit integer reports size %zu", how, n, x.size());
	for (int r : recips) {
		uint32_t a = x.reveal<uint32_t>(r); MC_REQUIRE(a == (uint32_t)lo, "%s: reveal<uint32_t>(%d) = %u, bits %s", how, r, a, str(v).c_str());
		int32_t b = x.reveal<int32_t>(r); MC_REQUIRE(b == (int32_t)(uint32_t)lo, "%s: reveal<int32_t>(%d) = %d, bits %s", how, r, b, str(v).c_str());
		uint64_t c = x.reveal<uint64_t>(r); MC_REQUIRE(c == lo, "%s: reveal<uint64_t>(%d) = %lu, bits %s", how, r, c, str(v).c_str());
		int64_t d = x.reveal<int64_t>(r); MC_REQUIRE(d == (int64_t)lo, "%s: reveal<int64_t>(%d) = %ld, bits %s", how, r, d, str(v).c_str());
		string s = x.reveal<string>(r), w; for (int i = 0; i < n; ++i) w += v[i] ? '1' : '0'; MC_REQUIRE(s == w, "%s: reveal<string>(%d) = %s, expected %s", how, r, s.c_str(), w.c_str());
		int nb = (n + 7) / 8; for (int fill = 0; fill < 2; ++fill) { // memory reveal: exactly the n bits are written
			unsigned char *m = (unsigned char *)malloc(nb); memset(m, fill ? 0xff : 0, nb); x.reveal(m, r);
			for (int i = 0; i < nb * 8; ++i) { bool g = (m[i / 8] >> (i % 8)) & 1; bool e = i < n ? (bool)v[i] : fill; MC_REQUIRE(g == e, "%s: reveal to memory: bit %d is %d (fill %d), value %s", how, i, g, fill, str(v).c_str()); } free(m); }
		if (n <= 64) { uint64_t m64 = 0; x.reveal(&m64, r); MC_REQUIRE(m64 == lo, "%s: reveal(uint64_t*) = %lu", how, m64); }
		bool *bb = new bool[n]; x.revealBools(bb, r); for (int i = 0; i < n; ++i) MC_REQUIRE(bb[i] == v[i], "%s: revealBools bit %d", how, i); delete[] bb;
		mc::step(10);
	}
}
template <class T> static void mem_ctor(int n, int owner, const unsigned char *src, int nbytes, const char *tn) {
	T *p = (T *)malloc(nbytes); memcpy(p, src, nbytes); BV v(n); for (int i = 0; i < n; ++i) v[i] = (src[i / 8] >> (i % 8)) & 1;
	Integer x(n, p, owner); MC_REQUIRE(memcmp(p, src, nbytes) == 0, "constructor changed its source"); memset((void *)p, 0x5a, nbytes); free(p); check_all_reveals(x, v, tn);
	if ((int)sizeof(T) * 8 == n) { T q; memcpy(&q, src, sizeof(T)); Integer y(&q, owner); check_all_reveals(y, v, "Integer(T*)"); }
}
MC_MAIN("C22") {
	mc::at_child.push_back([] { setup_plain_prot(false, ""); });
	mc::explore("int64-small", {2, 0, 60}, [&] {
		int n = 1 + mc::pick(8), o = owners[mc::pick(3)]; int64_t v = (int64_t)mc::pick(1 << (n + 1)) - (1 << n);
		mc::note("Integer(%d, %ld, %d)", n, v, o); mc::points(1); Integer x(n, v, o); check_all_reveals(x, bv(n, v), "Integer(len,int64)"); mc::outcome(mc::hmix(n, v));
		if (o == PUBLIC) { Integer y(n, v); check_all_reveals(y, bv(n, v), "Integer(len,int64) default party"); }
	});
	static vector<int64_t> vals = {0, 1, -1, 2, -2, 5, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, (int64_t)UINT32_MAX, 0x5555555555555555LL, (int64_t)0xAAAAAAAAAAAAAAAAULL, 0x0123456789abcdefLL};
	for (int k = 3; k < 63; ++k) { vals.push_back(1LL << k); vals.push_back(-(1LL << k)); vals.push_back((1LL << k) - 1); }
	mc::explore("int64-wide", {2, 0, 60}, [&] {
		int big = mc::pick(10), n = big ? std::vector<int>{255, 256, 257, 511, 512, 513, 1000, 1024, 4096}[big - 1] : 1 + mc::pick(mc::thorough ? 192 : 135), o = owners[mc::pick(3)]; mc::note("Integer(%d, v, %d) for each boundary v", n, o);
		for (size_t q = 0; q < vals.size(); q += big ? 9 : 1) { int64_t v = vals[q]; mc::points(1); Integer x(n, v, o); check_all_reveals(x, bv(n, v), "Integer(len,int64)"); }
	});
	mc::explore("millions of bits", {2, 0, 120}, [&] {
		int n = mc::choose(mc::thorough ? std::vector<int>{65536, 1000003, 8388608, 9000001, 40000003} : std::vector<int>{65536, 1000003, 9000001}), k = mc::pick(2), o = n > 2000000 ? (k ? ALICE : PUBLIC) : owners[mc::pick(3)]; mc::note("Integer of %d bits from %s, owner %d", n, k ? "memory" : "a number", o); mc::points(1);
		if (k == 0) { int64_t v = -0x123456789abcdefLL; Integer x(n, v, o); check_all_reveals(x, bv(n, v), "Integer(len,int64)"); } else { vector<unsigned char> src((n + 7) / 8); for (size_t i = 0; i < src.size(); ++i) src[i] = i * 37 + (i >> 9) + 11; mem_ctor<unsigned char>(n, o, src.data(), src.size(), "uint8_t*"); }
	});
	mc::explore("from-memory", {2, 0, 60}, [&] {
		int big = mc::pick(10), n = big ? std::vector<int>{255, 256, 257, 511, 512, 513, 1000, 1024, 4096}[big - 1] : 1 + mc::pick(mc::thorough ? 200 : 140), o = owners[mc::pick(3)]; mc::note("Integer(%d, T*, %d): one-hot, complement and mixed contents", n, o);
		int nb = (n + 7) / 8; vector<unsigned char> src(nb);
		auto go = [&] { int n8 = nb; mc::points(1); mem_ctor<unsigned char>(n, o, src.data(), n8, "uint8_t*");
			auto pad = [&](int q) { vector<unsigned char> s(src); s.resize((nb + q - 1) / q * q, 0x77); return s; };
			{ auto s = pad(2); mem_ctor<uint16_t>(n, o, s.data(), s.size(), "uint16_t*"); } { auto s = pad(4); mem_ctor<int32_t>(n, o, s.data(), s.size(), "int32_t*"); mem_ctor<float>(n, o, s.data(), s.size(), "float*"); } { auto s = pad(8); mem_ctor<uint64_t>(n, o, s.data(), s.size(), "uint64_t*"); } { auto s = pad(16); mem_ctor<block>(n, o, s.data(), s.size(), "block*"); } };
		for (int k = 0; k < n; ++k) if (big ? k < 2 || k > n - 3 || k % 256 == 0 || k % 256 == 255 : mc::thorough || k < 2 || k > n - 3 || k % 8 == 0 || k % 8 == 7) { std::fill(src.begin(), src.end(), 0); src[k / 8] = 1 << (k % 8); go(); }
		std::fill(src.begin(), src.end(), 0xff); go(); for (int i = 0; i < nb; ++i) src[i] = i * 37 + 11; go();
	});
	// Bit and Bit arrays through the same path; reveal types of Bit
	mc::explore("bit", {1, 0, 60}, [&] {
		int o = owners[mc::pick(3)], r = recips[mc::pick(4)], v = mc::pick(2); mc::note("Bit(%d, %d).reveal(%d)", v, o, r); mc::points(1); mc::step(3);
		Bit b(v, o); MC_REQUIRE(b.reveal<bool>(r) == (bool)v && b.reveal(r) == (bool)v, "Bit reveals %d", !v); MC_REQUIRE(b.reveal<string>(r) == (v ? "true" : "false"), "Bit string reveal");
		Bit c = b; Bit d(b.bit); MC_REQUIRE(c.reveal<bool>(r) == (bool)v && d.reveal<bool>(r) == (bool)v, "copied Bit reveals %d", !v);
	});
	// copies are independent; vector constructor keeps order
	mc::explore("copies", {2, 0, 60}, [&] {
		int n = 1 + mc::pick(6), v = mc::pick(1 << n), i = mc::pick(n); mc::note("copy of %d-bit %d, bit %d flipped", n, v, i); mc::points(1); mc::step(4);
		Integer a(n, v, ALICE); Integer b = a; b[i] = !b[i]; check_all_reveals(a, bv(n, v), "original"); check_all_reveals(b, bv(n, v ^ (1 << i)), "copy"); Integer c; c = b; vector<Bit> bits = b.bits; Integer d(bits); check_all_reveals(c, bv(n, v ^ (1 << i)), "assigned"); check_all_reveals(d, bv(n, v ^ (1 << i)), "from bits");
	});
	// with a value-blind backend: what is fed is exactly the value's bits, in order, to the right party
	mc::explore("feed", {1, 0, 60}, [&] {
		struct RecProt : public ProtocolExecution { vector<bool> fed; vector<int> party; vector<int> len; void feed(block *l, int p, const bool *b, int n) override { for (int i = 0; i < n; ++i) { fed.push_back(b[i]); l[i] = makeBlock(7, fed.size()); } party.push_back(p); len.push_back(n); } void reveal(bool *b, int, const block *, int n) override { for (int i = 0; i < n; ++i) b[i] = false; } };
		int n = 1 + mc::pick(9), o = owners[mc::pick(2)], v = mc::pick(1 << n); mc::note("feed of %d-bit %d by %d", n, v, o); mc::points(1); mc::step();
		RecProt p; ProtocolExecution *old = ProtocolExecution::prot_exec; ProtocolExecution::prot_exec = &p; Integer x(n, v, o); ProtocolExecution::prot_exec = old;
		MC_REQUIRE(p.fed == bv(n, v), "bits fed %s for value %d", str(p.fed).c_str(), v); for (int q : p.party) MC_REQUIRE(q == o, "fed by party %d instead of %d", q, o);
		for (int i = 0; i < n; ++i) { block e = makeBlock(7, i + 1); MC_REQUIRE(memcmp(&x.bits[i].bit, &e, 16) == 0, "bit %d does not hold the label the protocol gave it", i); }
	});
}
