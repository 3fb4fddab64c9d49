// C06: histories of memory and file channels.
#include "mc.h"
#include "mapped.h"
#include <sys/stat.h>
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
using namespace emp; using namespace mc;
static std::vector<unsigned char> P; static unsigned char byte_at(size_t serial) { return P[serial % P.size()]; }
static std::string scratch(const char *x) { return std::string("c06.") + std::to_string(getpid()) + x; }
struct Mem { // the channel and its model
	MemIO *io; std::vector<unsigned char> d; size_t rd = 0, serial = 0;
	void send(size_t n) { std::vector<unsigned char> b(n); for (auto &x : b) x = byte_at(serial++); unsigned char *e = (unsigned char *)malloc(n ? n : 1); memcpy(e, b.data(), n); io->send_data(e, n); free(e); d.insert(d.end(), b.begin(), b.end()); step(); }
	void recv(size_t n) { unsigned char *e = (unsigned char *)malloc(n ? n : 1); memset(e, 0xEE, n); io->recv_data(e, n); for (size_t i = 0; i < n; ++i) MC_REQUIRE(e[i] == d[rd + i], "receive of %zu at position %zu: byte %zu is %02x, stored %02x", n, rd, i, e[i], d[rd + i]); free(e); rd += n; step(); }
	void clear() { io->clear(); d.clear(); rd = 0; step(); }
	void all() { if (d.size() > rd) recv(d.size() - rd); }
};
static void mem_history(int cap, int depth, const std::vector<size_t> &z, bool files) {
	Mem m; m.io = new MemIO(cap); note("MemIO(%d)", cap);
	for (int i = 0; i < depth; ++i) {
		int k = (int)z.size(); int c = pick(2 * k + 1 + (files ? 2 : 0));
		if (c < k) { note(" send %zu", z[c]); m.send(z[c]); }
		else if (c < 2 * k) { if (m.rd + z[c - k] > m.d.size()) throw Skip(); note(" recv %zu", z[c - k]); m.recv(z[c - k]); }
		else if (c == 2 * k) { note(" clear"); m.clear(); }
		else { // save what is unread to a file with a file channel and load it (or a prefix) into this channel
			std::string fn = scratch(".m"); size_t n = m.d.size() - m.rd; note(c == 2 * k + 1 ? " save+load" : " save+load prefix");
			{ FileIO f(fn.c_str(), false); unsigned char *e = (unsigned char *)malloc(n ? n : 1); m.io->recv_data(e, n); f.send_data(e, n); free(e); }
			size_t take = c == 2 * k + 1 ? n : n / 2; { FileIO f(fn.c_str(), true); m.io->load_from_file(&f, (int64_t)take); } m.d.assign(m.d.begin() + m.rd, m.d.begin() + m.rd + take); m.rd = 0; unlink(fn.c_str()); step(2);
		}
		state(hmix(hmix(cap, m.d.size()), m.rd));
	}
	m.all(); m.send(3); m.recv(3); m.clear(); m.send(2); m.recv(1); m.send(5); m.all(); outcome(hmix(m.serial, m.rd)); delete m.io;
}
struct Fil { FileIO *io; std::vector<unsigned char> d; size_t pos = 0, serial = 0; int last = 0; /* 0 free 1 wrote 2 read */
	void send(size_t n) { unsigned char *e = (unsigned char *)malloc(n ? n : 1); for (size_t i = 0; i < n; ++i) e[i] = byte_at(serial++); io->send_data(e, n); if (d.size() < pos + n) d.resize(pos + n); if (n) memcpy(d.data() + pos, e, n); pos += n; free(e); if (n) last = 1; step(); }
	void recv(size_t n) { unsigned char *e = (unsigned char *)malloc(n ? n : 1); memset(e, 0xEE, n); io->recv_data(e, n); for (size_t i = 0; i < n; ++i) MC_REQUIRE(e[i] == d[pos + i], "receive of %zu at position %zu: byte %zu is %02x, stored %02x", n, pos, i, e[i], d[pos + i]); free(e); pos += n; if (n) last = 2; step(); }
	void reset() { io->reset(); pos = 0; last = 0; step(); } void flush() { io->flush(); if (last == 1) last = 0; step(); } };
static void file_history(int depth, const std::vector<size_t> &z) {
	std::string fn = scratch(".f"); Fil f; f.io = new FileIO(fn.c_str(), false); note("FileIO"); int k = (int)z.size();
	auto onfile = [&](const char *when) { FILE *r = fopen(fn.c_str(), "rb"); std::vector<unsigned char> v(f.d.size() + 10); size_t n = fread(v.data(), 1, v.size(), r); fclose(r); MC_REQUIRE(n == f.d.size() && !memcmp(v.data(), f.d.data(), n), "%s the file holds %zu bytes, %zu were stored (or contents differ)", when, n, f.d.size()); };
	for (int i = 0; i < depth; ++i) {
		int c = pick(2 * k + 4);
		if (c < k) { if (f.last == 2) throw Skip(); note(" send %zu", z[c]); f.send(z[c]); }
		else if (c < 2 * k) { if (f.last == 1 || f.pos + z[c - k] > f.d.size()) throw Skip(); note(" recv %zu", z[c - k]); f.recv(z[c - k]); }
		else if (c == 2 * k) { note(" reset"); f.reset(); }
		else if (c == 2 * k + 1) { if (f.last == 2) throw Skip(); note(" flush"); f.flush(); onfile("after flush"); }
		else if (c == 2 * k + 2) { note(" reopen"); delete f.io; onfile("after close"); f.io = new FileIO(fn.c_str(), true); f.pos = 0; f.last = 0; }
		else { note(" new"); delete f.io; f.io = new FileIO(fn.c_str(), false); f.d.clear(); f.pos = 0; f.last = 0; step(); }
		state(hmix(hmix(f.d.size(), f.pos), f.last + 77));
	}
	f.reset(); f.recv(f.d.size()); delete f.io; onfile("after close"); outcome(hmix(f.serial, f.d.size())); unlink(fn.c_str());
}
// transfers and totals beyond 2^31 and 2^32 bytes; the user's buffers repeat a few megabytes of memory
static void huge(int kind, const std::vector<size_t> &s, const std::vector<size_t> &r) {
	size_t big = 0, tot = 0, Q = Mapped::period(); for (size_t x : s) { big = std::max(big, x); tot += x; } for (size_t x : r) big = std::max(big, x); Mapped a(big), b(big); auto at = [](uint64_t x) { return (unsigned char)((x * 2654435761u + (x >> 11) * 40503u) >> 9); }; for (size_t i = 0; i < Q; ++i) a.p[i] = at(i);
	auto snd = [&](auto &io) { size_t pos = 0; for (size_t n : s) { io.send_data(a.p + pos % Q, n); pos += n; beat(); } };
	auto rcv = [&](auto &io) { size_t pos = 0; for (size_t n : r) { memset(b.p, 0x5A, Q); io.recv_data(b.p + pos % Q, n); beat(); size_t c = std::min(n, Q); for (size_t i = 0; i < c; ++i) { size_t q = pos + n - 1 - i; if (b.p[q % Q] != a.p[q % Q]) fail("receive of %zu bytes at position %zu: byte %zu is %02x, stored %02x", n, pos, n - 1 - i, b.p[q % Q], a.p[q % Q]); } pos += n; } };
	note("%s, sends of", kind == 0 ? "MemIO" : kind == 1 ? "FileIO" : "FileIO loaded into MemIO"); for (size_t x : s) note(" %zu", x); note(" received as"); for (size_t x : r) note(" %zu", x);
	if (kind == 0) { MemIO io(1); snd(io); rcv(io); io.clear(); io.send_data(a.p, 5); io.recv_data(b.p, 5); MC_REQUIRE(!memcmp(a.p, b.p, 5), "after clear"); }
	else { int fd = memfd_create("c06", 0); std::string fn = "/proc/self/fd/" + std::to_string(fd); MC_REQUIRE(fd >= 0, "harness"); { FileIO io(fn.c_str(), false); snd(io); if (kind == 1) { io.reset(); rcv(io); } } struct stat st; fstat(fd, &st); MC_REQUIRE((size_t)st.st_size == tot, "the file holds %ld bytes, %zu were stored", (long)st.st_size, tot); if (kind == 2) { FileIO io(fn.c_str(), true); MemIO m; m.load_from_file(&io, (int64_t)tot); rcv(m); } close(fd); }
	step(s.size() + r.size()); points(1); outcome(tot);
}
MC_MAIN("C06") {
	for (int i = 0; i < 65521; ++i) P.push_back((i * 2654435761u) >> 13); bool T = thorough; size_t FB = FILE_BUFFER_SIZE;
	explore("MemIO", {3, 0}, [&]() { int cap = choose(std::vector<int>{1, 2, 4, 16}); mem_history(cap, T ? 8 : 6, {0, 1, 3, 8}, false); });
	explore("MemIO growth", {2, 0}, [&]() { int cap = 1 + pick(T ? 24 : 12); Mem m; m.io = new MemIO(cap); note("MemIO(%d)", cap); for (int i = 0; i < 3; ++i) { size_t n = pick(T ? 34 : 18); note(" send %zu", n); m.send(n); if (i < 2) { size_t r = pick(3); r = r == 0 ? 0 : r == 1 ? (m.d.size() - m.rd) / 2 : m.d.size() - m.rd; m.recv(r); note(" recv %zu", r); } } m.all(); outcome(m.d.size()); state(hmix(cap, m.serial)); delete m.io; });
	explore("MemIO default capacity", {2, 0}, [&]() { size_t C = 1024 * 1024; Mem m; m.io = new MemIO(); note("MemIO()"); for (int i = 0; i < (T ? 3 : 2); ++i) { size_t n = choose(std::vector<size_t>{1, C - 1, C, C + 1, 2 * C + 3}); note(" send %zu", n); m.send(n); if (pick(2)) { m.recv(m.d.size() - m.rd); if (pick(2)) { m.clear(); note(" clear"); } } } m.all(); outcome(m.d.size()); points(1); delete m.io; });
	explore("MemIO with files", {3, 0}, [&]() { mem_history(choose(std::vector<int>{1, 4, 64}), 4, {0, 1, 5}, true); });
	explore("FileIO", {3, 0}, [&]() { file_history(T ? 8 : 6, {1, 3}); });
	explore("FileIO buffer sizes", {3, 0}, [&]() { file_history(T ? 4 : 3, {1, FB - 1, FB, FB + 1, 2 * FB + 5}); });
	explore("FileIO to MemIO", {2, 0}, [&]() { size_t a = choose(std::vector<size_t>{0, 1, 100, FB - 1, FB, FB + 1, 3 * FB}), b = choose(std::vector<size_t>{0, 1, FB, FB + 1}); std::string fn = scratch(".x"); note("file of %zu+%zu bytes loaded in two pieces", a, b); { Fil f; f.io = new FileIO(fn.c_str(), false); f.send(a); f.send(b); delete f.io; } FileIO r(fn.c_str(), true); Mem m; m.io = new MemIO(choose(std::vector<int>{1, 1000})); m.send(2); size_t s = 0; for (size_t n : {a, b}) { m.io->load_from_file(&r, (int64_t)n); m.d.clear(); for (size_t i = 0; i < n; ++i) m.d.push_back(byte_at(s++)); m.rd = 0; m.all(); m.serial = 9; m.send(4); m.recv(4); } delete m.io; unlink(fn.c_str()); points(1); outcome(a + b); });
	explore("MemIO long", {1, 0}, [&]() { size_t n = 1 + pick(40), r = 1 + pick(40); note("600 sends of %zu interleaved with receives of %zu", n, r); Mem m; m.io = new MemIO(1 + pick(3)); for (int i = 0; i < 600; ++i) { m.send(n); if (m.d.size() - m.rd >= r) m.recv(r); if (i % 251 == 250) m.clear(); } m.all(); points(600); delete m.io; });
	explore("beyond 2^31", {1, 0, 240}, [&]() { size_t G = (size_t)1 << 31; static const std::vector<std::pair<std::vector<size_t>, std::vector<size_t>>> v{{{G + 100, 7}, {50, G + 57}}, {{G - 1, 2, 5}, {1, G, 5}}}; int kind = pick(3), i = pick(T ? 2 : 1); huge(kind, v[i].first, v[i].second); });
	if (T) explore("beyond 2^32", {1, 0, 240}, [&]() { size_t G = (size_t)1 << 32; huge(pick(2), {3, G + 100, 7}, {50, G + 60}); });
}
