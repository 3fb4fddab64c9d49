// Netlist extraction and exhaustive bit-sliced evaluation.
//
// TraceExec is a CircuitExecution whose labels are opaque wire numbers: running any
// emp-tool circuit code under it records exactly the gates that code asks its backend
// to execute.  Because labels carry no values, the recorded gate list is the behaviour of
// the code for EVERY input; Net::eval then computes it for 256 inputs at a time, which is
// what makes enumerating complete input spaces (up to 2^32) affordable.
#pragma once
#include "emp-tool/emp-tool.h"
#include <vector>
#include <cstdint>
#include <cstring>
#include <cstdlib>

namespace nl {
typedef unsigned long long v4 __attribute__((vector_size(32)));

struct TraceExec : public emp::CircuitExecution {
	struct G { uint32_t op, a, b, o; };          // op 0 AND, 1 XOR, 2 NOT
	std::vector<G> gates;
	uint32_t nwire = 2;                          // wires 0/1 are the public constants
	uint64_t ands = 0;
	static emp::block lab(uint32_t w) { return emp::makeBlock(0x5A5A5A5A00000000ULL, w); }
	uint32_t id(const emp::block &b) {
		uint64_t x[2]; memcpy(x, &b, 16);
		if (x[1] != 0x5A5A5A5A00000000ULL || x[0] >= nwire) { fprintf(stderr, "TraceExec: use of an undefined wire label\n"); abort(); }
		return (uint32_t)x[0];
	}
	uint32_t fresh() { return nwire++; }
	emp::block and_gate(const emp::block &a, const emp::block &b) override { uint32_t x = id(a), y = id(b), o = fresh(); gates.push_back({0, x, y, o}); ++ands; return lab(o); }
	emp::block xor_gate(const emp::block &a, const emp::block &b) override { uint32_t x = id(a), y = id(b), o = fresh(); gates.push_back({1, x, y, o}); return lab(o); }
	emp::block not_gate(const emp::block &a) override { uint32_t x = id(a), o = fresh(); gates.push_back({2, x, 0, o}); return lab(o); }
	emp::block public_label(bool b) override { return lab(b ? 1 : 0); }
	uint64_t num_and() override { return ands; }
};
// feeds become fresh input wires (values are ignored); reveals are recorded
struct TraceProt : public emp::ProtocolExecution {
	TraceExec *ex; std::vector<uint32_t> in; std::vector<int> owner; std::vector<uint32_t> out;
	TraceProt(TraceExec *e) : ex(e) {}
	void feed(emp::block *l, int party, const bool *b, int n) override {
		for (int i = 0; i < n; ++i) {
			if (party == emp::PUBLIC) l[i] = ex->public_label(b[i]);
			else { uint32_t w = ex->fresh(); in.push_back(w); owner.push_back(party); l[i] = TraceExec::lab(w); }
		}
	}
	void reveal(bool *o, int, const emp::block *l, int n) override { for (int i = 0; i < n; ++i) { out.push_back(ex->id(l[i])); o[i] = false; } }
};

struct Session {                                  // installs a trace backend for its lifetime
	TraceExec ex; TraceProt pr; emp::CircuitExecution *oc; emp::ProtocolExecution *op;
	Session() : pr(&ex) { oc = emp::CircuitExecution::circ_exec; op = emp::ProtocolExecution::prot_exec; emp::CircuitExecution::circ_exec = &ex; emp::ProtocolExecution::prot_exec = &pr; }
	~Session() { emp::CircuitExecution::circ_exec = oc; emp::ProtocolExecution::prot_exec = op; }
};

struct Net {
	struct G { uint32_t op, a, b, o; };
	std::vector<G> gates;                          // slot-allocated, dead gates removed
	std::vector<uint32_t> in, out;                 // slots
	uint32_t slots = 0; size_t raw_gates = 0, ands = 0;
	static constexpr uint32_t DEADIN = 0xffffffffu;
	// slot 0 = const 0, slot 1 = const 1, slots 2.. inputs, rest reused
	void build(const TraceExec &t, const std::vector<uint32_t> &inw, const std::vector<uint32_t> &outw) {
		raw_gates = t.gates.size(); ands = t.ands;
		std::vector<uint32_t> last(t.nwire, 0); std::vector<char> live(t.nwire, 0);
		for (uint32_t w : outw) { live[w] = 1; last[w] = 0x7fffffff; }
		for (size_t i = t.gates.size(); i-- > 0;) {
			const TraceExec::G &g = t.gates[i];
			if (!live[g.o]) continue;
			uint32_t p = (uint32_t)i + 1;
			if (!live[g.a]) { live[g.a] = 1; last[g.a] = p; } else if (last[g.a] < p) last[g.a] = p;
			if (g.op != 2) { if (!live[g.b]) { live[g.b] = 1; last[g.b] = p; } else if (last[g.b] < p) last[g.b] = p; }
		}
		std::vector<uint32_t> slot(t.nwire, (uint32_t)DEADIN), freel; slots = 2; slot[0] = 0; slot[1] = 1;
		last[0] = last[1] = 0x7fffffff;
		in.clear(); for (uint32_t w : inw) { slot[w] = slots; in.push_back(slots++); last[w] = 0x7fffffff; }
		gates.clear();
		for (size_t i = 0; i < t.gates.size(); ++i) {
			const TraceExec::G &g = t.gates[i];
			if (!live[g.o]) continue;
			uint32_t sa = slot[g.a], sb = g.op == 2 ? 0 : slot[g.b];
			uint32_t p = (uint32_t)i + 1;
			if (last[g.a] == p) freel.push_back(sa);
			if (g.op != 2 && g.b != g.a && last[g.b] == p) freel.push_back(sb);
			uint32_t so; if (freel.empty()) so = slots++; else { so = freel.back(); freel.pop_back(); }
			slot[g.o] = so; gates.push_back({g.op, sa, sb, so});
		}
		out.clear(); for (uint32_t w : outw) out.push_back(slot[w]);
	}
	std::vector<v4> mk() const { std::vector<v4> s(slots); s[0] = v4{0, 0, 0, 0}; s[1] = ~s[0]; return s; }
	void eval(v4 *s) const {
		for (const G &g : gates) {
			if (g.op == 0) s[g.o] = s[g.a] & s[g.b];
			else if (g.op == 1) s[g.o] = s[g.a] ^ s[g.b];
			else s[g.o] = ~s[g.a];
		}
	}
};

// 256 consecutive integers base..base+255 (base % 256 == 0) as nbits slices
inline void slice_range(v4 *dst, uint64_t base, int nbits) {
	static const unsigned long long M[6] = {0xAAAAAAAAAAAAAAAAULL, 0xCCCCCCCCCCCCCCCCULL, 0xF0F0F0F0F0F0F0F0ULL, 0xFF00FF00FF00FF00ULL, 0xFFFF0000FFFF0000ULL, 0xFFFFFFFF00000000ULL};
	for (int i = 0; i < nbits; ++i) {
		if (i < 6) dst[i] = v4{M[i], M[i], M[i], M[i]};
		else if (i == 6) dst[i] = v4{0, ~0ULL, 0, ~0ULL};
		else if (i == 7) dst[i] = v4{0, 0, ~0ULL, ~0ULL};
		else { unsigned long long x = (base >> i) & 1 ? ~0ULL : 0; dst[i] = v4{x, x, x, x}; }
	}
}
// 64x64 bit matrix transpose
inline void tr64(uint64_t *a) {
	uint64_t m = 0x00000000FFFFFFFFULL;
	for (int j = 32; j != 0; j >>= 1, m ^= (m << j))
		for (int k = 0; k < 64; k = ((k | j) + 1) & ~j) { uint64_t t = ((a[k] >> j) ^ a[k | j]) & m; a[k | j] ^= t; a[k] ^= t << j; }
}
// slices (nbits <= 64) -> 256 integers, and back
inline void unslice(const v4 *const *src, int nbits, uint64_t *dst) {
	for (int q = 0; q < 4; ++q) {
		uint64_t m[64];
		for (int i = 0; i < 64; ++i) m[i] = i < nbits ? (*src[i])[q] : 0;
		tr64(m);
		memcpy(dst + 64 * q, m, 512);
	}
}
inline void slice(const uint64_t *src, int nbits, v4 *dst) {
	for (int q = 0; q < 4; ++q) {
		uint64_t m[64]; memcpy(m, src + 64 * q, 512);
		tr64(m);
		for (int i = 0; i < nbits; ++i) dst[i][q] = m[i];
	}
}

// Extract the netlist of a function of Bits.  f(in, out): in has nin private input bits.
template <class F> Net extract(int nin, F f) {
	Session s; std::vector<emp::Bit> in; std::vector<uint32_t> iw, ow;
	for (int i = 0; i < nin; ++i) { uint32_t w = s.ex.fresh(); iw.push_back(w); in.push_back(emp::Bit(TraceExec::lab(w))); }
	std::vector<emp::Bit> out; f(in, out);
	for (auto &b : out) ow.push_back(s.ex.id(b.bit));
	Net n; n.build(s.ex, iw, ow); return n;
}
}
