// Keccak-f[1600] netlist generated from FIPS 202, standing in for the circuit file the repository does not ship.
#pragma once
#include "emp-tool/circuits/sha3_256.h"
#include <string>
#include <vector>
using std::string; using std::vector;
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[12 << 20]; unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
// Keccak-f[1600] as FIPS 202 defines it, written as gates; wire of state bit s is 8*(199-s/8)+s%8 on both ends
static void keccak_circuit() {
	struct G { int op, a, b; }; vector<G> g; int base = 1600; auto mk = [&](int op, int a, int b) { g.push_back({op, a, b}); return base + (int)g.size() - 1; };
	auto addr = [](int s) { return 8 * (199 - s / 8) + s % 8; }; vector<int> A(1600); for (int s = 0; s < 1600; ++s) A[s] = addr(s);
	auto ix = [](int x, int y, int z) { return 64 * (5 * y + x) + (z & 63); }; auto X = [&](int a, int b) { return mk(1, a, b); }; unsigned lf = 1;
	for (int rnd = 0; rnd < 24; ++rnd) {
		int C[5][64], D[5][64]; for (int x = 0; x < 5; ++x) for (int z = 0; z < 64; ++z) C[x][z] = X(X(X(X(A[ix(x, 0, z)], A[ix(x, 1, z)]), A[ix(x, 2, z)]), A[ix(x, 3, z)]), A[ix(x, 4, z)]);
		for (int x = 0; x < 5; ++x) for (int z = 0; z < 64; ++z) D[x][z] = X(C[(x + 4) % 5][z], C[(x + 1) % 5][(z + 63) & 63]);
		vector<int> T(1600), B(1600); for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z) T[ix(x, y, z)] = X(A[ix(x, y, z)], D[x][z]);
		int R[5][5] = {}; { int x = 1, y = 0; for (int t = 0; t < 24; ++t) { R[x][y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; } }
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z) B[ix(y, (2 * x + 3 * y) % 5, z + R[x][y])] = T[ix(x, y, z)];
		uint64_t rc = 0; for (int j = 0; j < 7; ++j) { if (lf & 1) rc |= 1ULL << ((1 << j) - 1); lf = lf & 0x80 ? (lf << 1) ^ 0x171 : lf << 1; }
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z) { int o = X(mk(0, mk(2, B[ix((x + 1) % 5, y, z)], 0), B[ix((x + 2) % 5, y, z)]), B[ix(x, y, z)]); if (x == 0 && y == 0 && (rc >> z & 1)) o = mk(2, o, 0); A[ix(x, y, z)] = o; }
	}
	vector<int> num(1600 + g.size(), -1); int n = 1600; for (int i = 0; i < 1600; ++i) num[i] = i; vector<char> isout(num.size(), 0); for (int o : A) isout[o] = 1; for (size_t i = 1600; i < num.size(); ++i) if (!isout[i]) num[i] = n++; for (int s = 0; s < 1600; ++s) num[A[s]] = n + addr(s); n += 1600;
	string t; char b[96]; snprintf(b, 96, "%zu %d\n1 1600\n1 1600\n\n", g.size(), n); t = b; for (size_t i = 0; i < g.size(); ++i) { if (g[i].op == 2) snprintf(b, 96, "1 1 %d %d INV\n", num[g[i].a], num[1600 + i]); else snprintf(b, 96, "2 1 %d %d %d %s\n", num[g[i].a], num[g[i].b], num[1600 + i], g[i].op ? "XOR" : "AND"); t += b; }
	if (t.size() > sizeof emp_tool_circuits_files_bristol_fashion_Keccak_f_txt) abort(); memcpy(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt, t.data(), t.size()); emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = t.size();
}
