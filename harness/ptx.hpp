// Interpreter for the inline PTX of the CUDA kernel (the subset such integer code uses).
#pragma once
#include <cctype>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <type_traits>
namespace ptx {
extern "C" void ptx_bad(const char *what, const char *line);
struct Operand { enum K { REG, ARG, IMM, MEM, PACK } k; int n = 0; uint64_t imm = 0; std::vector<Operand> sub; };
struct Instr { bool pred = false, neg = false; int p = 0; std::string op; std::vector<std::string> mod; std::vector<Operand> o; std::string text; };
struct Prog { std::vector<Instr> code; std::map<std::string, int> regs; };

inline std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\n\r"), b = s.find_last_not_of(" \t\n\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
inline std::vector<std::string> split(const std::string &s, char sep) { // outside {} and []
	std::vector<std::string> v; int d = 0; std::string cur;
	for (char c : s) { if (c == '{' || c == '[') d++; if (c == '}' || c == ']') d--; if (c == sep && d == 0) { v.push_back(trim(cur)); cur.clear(); } else cur += c; }
	if (!trim(cur).empty()) v.push_back(trim(cur));
	return v;
}
inline Operand parse_operand(Prog &P, const std::string &t, const std::string &line) {
	Operand o;
	if (t.empty()) { ptx_bad("empty operand", line.c_str()); return o; }
	if (t[0] == '{') { o.k = Operand::PACK; for (auto &x : split(t.substr(1, t.size() - 2), ',')) o.sub.push_back(parse_operand(P, x, line)); return o; }
	if (t[0] == '[') {
		o.k = Operand::MEM; std::string in = t.substr(1, t.size() - 2); size_t p = in.find_first_of("+-", 1);
		o.sub.push_back(parse_operand(P, trim(in.substr(0, p)), line)); if (p != std::string::npos) o.imm = (uint64_t)strtoll(in.c_str() + p, nullptr, 0);
		return o;
	}
	if (t[0] == '%' && t.size() > 1 && isdigit((unsigned char)t[1])) { o.k = Operand::ARG; o.n = atoi(t.c_str() + 1); return o; }
	if (t[0] == '%' || isalpha((unsigned char)t[0]) || t[0] == '_') { o.k = Operand::REG; auto it = P.regs.find(t); if (it == P.regs.end()) { ptx_bad("undeclared register", line.c_str()); return o; } o.n = it->second; return o; }
	o.k = Operand::IMM; o.imm = (uint64_t)strtoll(t.c_str(), nullptr, 0); return o;
}
inline Prog parse(const char *src) {
	Prog P; std::string s; 
	for (const char *p = src; *p;) { if (p[0] == '/' && p[1] == '/') { while (*p && *p != '\n') p++; } else s += *p++; }
	// outer braces open a scope
	s = trim(s); if (!s.empty() && s[0] == '{' ) { size_t e = s.rfind('}'); s = s.substr(1, e - 1); }
	for (auto &st : split(s, ';')) {
		std::string line = trim(st); if (line.empty()) continue;
		Instr I; I.text = line; std::string r = line;
		if (r[0] == '@') { size_t sp = r.find_first_of(" \t"); std::string p = r.substr(1, sp - 1); I.pred = true; if (p[0] == '!') { I.neg = true; p = p.substr(1); } auto it = P.regs.find(p); if (it == P.regs.end()) ptx_bad("undeclared predicate", line.c_str()); else I.p = it->second; r = trim(r.substr(sp)); }
		size_t sp = r.find_first_of(" \t"); std::string op = r.substr(0, sp), rest = sp == std::string::npos ? "" : trim(r.substr(sp));
		if (op == ".reg") { size_t q = rest.find_first_of(" \t"); for (auto &x : split(rest.substr(q), ',')) { int n = (int)P.regs.size(); P.regs[x] = n; } continue; }
		auto parts = split(op, '.'); I.op = parts[0]; I.mod.assign(parts.begin() + 1, parts.end());
		for (auto &x : split(rest, ',')) I.o.push_back(parse_operand(P, x, line));
		P.code.push_back(I);
	}
	return P;
}
inline int tsize(const std::string &t) { return t.size() > 1 ? atoi(t.c_str() + 1) : 0; }
inline uint64_t cut(uint64_t v, int bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
// args: value and width of each C operand
inline void run(const char *src, uint64_t *arg, const int *width) {
	static thread_local std::map<const char *, Prog> cache;
	auto it = cache.find(src); if (it == cache.end()) it = cache.emplace(src, parse(src)).first;
	Prog &P = it->second; uint64_t reg[64]; for (auto &x : reg) x = 0xDEADBEEFCAFEF00Dull;
	auto get = [&](const Operand &o) -> uint64_t { switch (o.k) { case Operand::REG: return reg[o.n]; case Operand::ARG: return cut(arg[o.n], width[o.n]); case Operand::IMM: return o.imm; default: return 0; } };
	auto put = [&](const Operand &o, uint64_t v) { if (o.k == Operand::REG) reg[o.n] = v; else if (o.k == Operand::ARG) arg[o.n] = cut(v, width[o.n]); };
	for (auto &I : P.code) {
		if (I.pred && ((reg[I.p] & 1) != 0) == I.neg) continue;
		int bits = I.mod.empty() ? 0 : tsize(I.mod.back()); bool sgn = !I.mod.empty() && I.mod.back()[0] == 's';
		if (I.op == "setp") {
			uint64_t a = cut(get(I.o[1]), bits), b = cut(get(I.o[2]), bits); const std::string &m = I.mod[0]; bool r;
			int64_t sa = (int64_t)(a << (64 - bits)), sb = (int64_t)(b << (64 - bits));
			if (m == "eq") r = a == b; else if (m == "ne") r = a != b; else if (m == "hi" || (m == "gt" && !sgn)) r = a > b; else if (m == "hs" || (m == "ge" && !sgn)) r = a >= b; else if (m == "lo" || (m == "lt" && !sgn)) r = a < b; else if (m == "ls" || (m == "le" && !sgn)) r = a <= b;
			else if (m == "gt") r = sa > sb; else if (m == "ge") r = sa >= sb; else if (m == "lt") r = sa < sb; else if (m == "le") r = sa <= sb; else { ptx_bad("comparison", I.text.c_str()); return; }
			put(I.o[0], r);
		} else if (I.op == "mov") {
			if (I.o[0].k == Operand::PACK) { uint64_t v = get(I.o[1]); int w = bits / (int)I.o[0].sub.size(); for (size_t i = 0; i < I.o[0].sub.size(); i++) put(I.o[0].sub[i], cut(v >> (w * i), w)); }
			else if (I.o[1].k == Operand::PACK) { uint64_t v = 0; int w = bits / (int)I.o[1].sub.size(); for (size_t i = 0; i < I.o[1].sub.size(); i++) v |= cut(get(I.o[1].sub[i]), w) << (w * i); put(I.o[0], v); }
			else put(I.o[0], cut(get(I.o[1]), bits));
		} else if (I.op == "prmt") {
			uint64_t v = cut(get(I.o[1]), 32) | cut(get(I.o[2]), 32) << 32, sel = get(I.o[3]), r = 0;
			for (int i = 0; i < 4; i++) { unsigned k = (sel >> (4 * i)) & 15; uint64_t x = (v >> (8 * (k & 7))) & 255; if (k & 8) x = x & 128 ? 255 : 0; r |= x << (8 * i); }
			put(I.o[0], r);
		} else if (I.op == "ld") {
			uint64_t a = get(I.o[1].sub[0]) + I.o[1].imm; uint64_t v = 0; const volatile uint8_t *p = (const volatile uint8_t *)(uintptr_t)a; int n = bits / 8;
			if (a % n) { ptx_bad("misaligned load", I.text.c_str()); return; }
			for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i);
			put(I.o[0], v);
		} else if (I.op == "st") {
			uint64_t a = get(I.o[0].sub[0]) + I.o[0].imm, v = get(I.o[1]); int n = bits / 8; volatile uint8_t *p = (volatile uint8_t *)(uintptr_t)a;
			if (a % n) { ptx_bad("misaligned store", I.text.c_str()); return; }
			for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * i));
		} else if (I.op == "cvt") put(I.o[0], cut(cut(get(I.o[1]), bits), tsize(I.mod[I.mod.size() - 2])));
		else if (I.op == "selp") put(I.o[0], cut(get(I.o[3]) & 1 ? get(I.o[1]) : get(I.o[2]), bits));
		else if (I.op == "not") put(I.o[0], cut(~get(I.o[1]), bits));
		else {
			uint64_t a = cut(get(I.o[1]), bits), b = I.o.size() > 2 ? get(I.o[2]) : 0, r;
			if (I.op == "add") r = a + b; else if (I.op == "sub") r = a - b; else if (I.op == "or") r = a | b; else if (I.op == "and") r = a & b; else if (I.op == "xor") r = a ^ b;
			else if (I.op == "mul" && I.mod[0] == "lo") r = a * b; else if (I.op == "mad" && I.mod[0] == "lo") r = a * b + get(I.o[3]);
			else if (I.op == "shl") { uint32_t n = (uint32_t)b; r = n >= (uint32_t)bits ? 0 : a << n; } // PTX clamps shift distances
			else if (I.op == "shr" && !sgn) { uint32_t n = (uint32_t)b; r = n >= (uint32_t)bits ? 0 : a >> n; }
			else if (I.op == "min" && !sgn) r = a < b ? a : cut(b, bits); else if (I.op == "max" && !sgn) r = a > b ? a : cut(b, bits);
			else { ptx_bad("instruction outside the interpreter's subset", I.text.c_str()); return; }
			put(I.o[0], cut(r, bits));
		}
	}
}
template <class T> uint64_t toint(T v) { if constexpr (std::is_pointer<T>::value) return (uint64_t)(uintptr_t)v; else return (uint64_t)v; }
template <class T> void assign(T &x, uint64_t v) { if constexpr (std::is_pointer<T>::value) x = (T)(uintptr_t)v; else x = (T)v; }
}
