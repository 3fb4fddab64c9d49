// Gate programs over two parties' inputs and public constants, enumerated completely.
#pragma once
#include "mc.h"
#include "emp-tool/emp-tool.h"
#include <string>
#include <vector>
namespace pr {
using std::vector; using std::string;
struct Gate { int op, a, b; };                         // 0 AND 1 XOR 2 NOT
struct Prog { int n1 = 0, n2 = 0; vector<Gate> g; vector<int> out; int w0() const { return n1 + n2 + 2; } int nw() const { return w0() + (int)g.size(); } };   // wires: n1, n2, const0, const1, gates
inline void pick_gate(Prog &p) { int w = p.nw(), k = mc::pick(2 * w * w + w); if (k < 2 * w * w) p.g.push_back({k / (w * w), k % (w * w) / w, k % w}); else p.g.push_back({2, k - 2 * w * w, 0}); }
inline string show(const Prog &p) { string s = std::to_string(p.n1) + "+" + std::to_string(p.n2) + " inputs,0,1:"; int w = p.w0(); for (auto &g : p.g) { char b[64]; if (g.op == 2) snprintf(b, 64, " w%d=NOT w%d", w++, g.a); else snprintf(b, 64, " w%d=w%d %s w%d", w++, g.a, g.op ? "XOR" : "AND", g.b); s += b; } s += " out:"; for (int o : p.out) s += " w" + std::to_string(o); return s; }
inline vector<char> clear(const Prog &p, unsigned in) { vector<char> v; for (int i = 0; i < p.n1 + p.n2; ++i) v.push_back(in >> i & 1); v.push_back(0); v.push_back(1); for (auto &g : p.g) v.push_back(g.op == 0 ? v[g.a] & v[g.b] : g.op == 1 ? v[g.a] ^ v[g.b] : !v[g.a]); return v; }
inline vector<emp::Bit> run(const Prog &p, const vector<emp::Bit> &in) { vector<emp::Bit> w(in); w.push_back(emp::Bit(false, emp::PUBLIC)); w.push_back(emp::Bit(true, emp::PUBLIC)); for (auto &g : p.g) { emp::Bit r = g.op == 0 ? (w[g.a] & w[g.b]) : g.op == 1 ? (w[g.a] ^ w[g.b]) : !w[g.a]; w.push_back(r); } return w; }
}
