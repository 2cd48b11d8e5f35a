// Generators: uncompressed data, well-formed token streams, malformations.
#pragma once
#include "pbt.hpp"
#include "ref842.hpp"

namespace gen {
using pbt::Gen; using pbt::Rng; using ref::Bytes; using ref::Token;

static const uint8_t MARKER[16] = {0xbe, 0x5a, 0x46, 0xbf, 0x97, 0xe5, 0x2d, 0xd7, 0xb2, 0x7c, 0x94, 0x1a, 0xee, 0xd6, 0x70, 0x76};

inline void put_be(Bytes &b, uint64_t v, unsigned n) { for (unsigned i = n; i-- > 0;) b.push_back(v >> (8 * i)); }

// One run length, biased to the 64-repeat boundaries
inline uint64_t run_length(Gen &g) {
	switch (g.weighted({4, 4, 1})) {
	case 0: return 1 + g.below(6);
	case 1: return g.pick({63, 64, 65, 66, 67, 127, 128, 129, 130, 192, 193, 194, 255, 256, 257, 260});
	default: return 1 + g.logsize(0, 600);
	}
}

// Appends one segment of about `words` 8-byte words
inline void data_segment(Gen &g, Bytes &b, size_t words) {
	if (words == 0) words = 1;
	unsigned kind = g.weighted({3, 2, 4, 3, 8, 4, 2, 3, 2, 1, 3, 1, 1});
	size_t target = b.size() + 8 * words;
	switch (kind) {
	case 0: { Rng r(g.seed()); while (b.size() < target) put_be(b, r.next(), 8); break; }
	case 1: b.resize(target, 0); break;
	case 2: { // runs of one word
		Rng r(g.seed()); unsigned pool = 1 + g.below(3); uint64_t w[3]; for (auto &x : w) x = r.chance(1, 4) ? 0 : r.next();
		while (b.size() < target) { uint64_t n = run_length(g); uint64_t v = w[g.below(pool)]; for (uint64_t i = 0; i < n; i++) put_be(b, v, 8); }
		break;
	}
	case 3: { // small alphabet of words
		unsigned pool = g.pick({1, 2, 3, 5, 16, 64, 200, 255, 256, 257, 300, 600}); uint64_t s = g.seed(); Rng r(g.seed());
		while (b.size() < target) put_be(b, pbt::mix(s, r.below(pool)), 8);
		break;
	}
	case 4: { // words composed of parts that occur at chosen distances in the 2- and 4-byte rings, or do not occur
		Rng r(g.seed()); unsigned pd = g.pick({1, 3, 6, 9}); unsigned edge = g.below(3);
		while (b.size() < target) {
			for (unsigned h = 0; h < 2; h++) {
				size_t pos = b.size(), base = pos / 8 * 8;
				if (r.below(10) < pd && base >= 4 && r.chance(1, 2)) { // 4-byte copy
					size_t maxd = base / 4, d = edge == 1 ? 508 + r.below(8) : edge == 2 ? 1 + r.below(4) : 1 + r.below(516);
					if (d > maxd) d = 1 + r.below(maxd);
					size_t a = base - 4 * d; for (unsigned i = 0; i < 4; i++) { uint8_t x = b[a + i]; b.push_back(x); }
				} else for (unsigned q = 0; q < 2; q++) {
					if (r.below(10) < pd && base >= 2) {
						size_t maxd = base / 2, d = edge == 1 ? 252 + r.below(8) : edge == 2 ? 1 + r.below(4) : 1 + r.below(260);
						if (d > maxd) d = 1 + r.below(maxd);
						size_t a = base - 2 * d; uint8_t x = b[a], y = b[a + 1]; b.push_back(x); b.push_back(y);
					} else { uint64_t v = r.next(); put_be(b, v & 0xffff, 2); }
				}
			}
		}
		break;
	}
	case 5: { // word copies at the edge of the 8-byte ring
		Rng r(g.seed()); unsigned near = g.below(3);
		while (b.size() < target) {
			size_t base = b.size() / 8;
			if (base && r.chance(3, 4)) {
				size_t d = near == 0 ? 253 + r.below(6) : near == 1 ? 1 + r.below(3) : 1 + r.below(260);
				if (d > base) d = 1 + r.below(base);
				for (unsigned i = 0; i < 8; i++) { uint8_t x = b[(base - d) * 8 + i]; b.push_back(x); }
			} else put_be(b, r.next(), 8);
		}
		break;
	}
	case 6: { // near misses: words sharing one half / all but one bit with earlier ones
		Rng r(g.seed()); uint64_t w = r.next();
		while (b.size() < target) {
			switch (r.below(4)) {
			case 0: w = (w & 0xffffffff00000000ULL) | (r.next() >> 32); break;
			case 1: w = (w & 0xffffffffULL) | (r.next() & 0xffffffff00000000ULL); break;
			case 2: w ^= 1ULL << r.below(64); break;
			default: w = (w << 16) | (w >> 48);
			}
			put_be(b, w, 8);
		}
		break;
	}
	case 7: { // text-like
		Rng r(g.seed()); static const char *dict[] = {"the ", "quick ", "brown ", "fox ", "842 ", "compress", "ion. ", "and\n", "0123", "    "};
		while (b.size() < target) { const char *s = dict[r.below(10)]; b.insert(b.end(), s, s + strlen(s)); }
		b.resize(target);
		break;
	}
	case 8: { // counters
		uint64_t v = g.seed() >> g.below(64), st = 1 + g.below(3); unsigned width = g.pick({2, 4, 8});
		while (b.size() < target) { put_be(b, v, width); v += st; }
		break;
	}
	case 9: b.resize(target, 0xff); break;
	case 10: { // copy of an earlier part of the data
		size_t n = b.size();
		if (!n) { b.resize(target, 0x5a); break; }
		size_t from = g.below(n); if (g.chance(3, 4)) from = from / 8 * 8;
		for (size_t i = 0; b.size() < target; i++) { uint8_t x = b[from + i]; b.push_back(x); }
		break;
	}
	case 11: while (b.size() < target) b.insert(b.end(), MARKER, MARKER + 16); break;
	default: { // explicit words
		size_t n = words > 16 ? 16 : words;
		for (size_t i = 0; i < n; i++) put_be(b, g.seed(), 8);
	}
	}
}

// Sizes: mostly up to a few KiB, around ring sizes, rarely bigger
inline size_t data_size(Gen &g, size_t maxsize) {
	size_t n;
	switch (g.weighted({3, 6, 5, 3, 2})) {
	case 0: n = g.below(25); break;
	case 1: n = 8 * g.logsize(0, 80); break;
	case 2: n = 8 * (g.pick({62, 64, 66, 128, 250, 256, 258, 300, 512, 520}) + g.below(4)); break;
	case 3: n = g.logsize(0, maxsize); break;
	default: n = g.logsize(0, maxsize < 70000 ? maxsize : 70000);
	}
	return n < maxsize ? n : maxsize;
}

inline Bytes data(Gen &g, size_t maxsize, bool mult8) {
	size_t n = data_size(g, maxsize);
	unsigned nseg = n < 64 ? 1 + g.below(2) : 1 + g.below(6);
	Bytes b; b.reserve(n + 4096);
	for (unsigned i = 0; i < nseg && b.size() < n; i++) {
		size_t left = (n - b.size() + 7) / 8;
		data_segment(g, b, i + 1 == nseg ? left : 1 + g.below(left));
	}
	if (b.size() < n) { size_t pos = b.size(); b.resize(n); Rng r(g.seed()); for (; pos < n; pos++) b[pos] = r.next(); }
	unsigned tail = 0;
	if (!mult8 && g.chance(1, 2)) tail = g.below(8);
	b.resize(n / 8 * 8 + (mult8 ? 0 : tail) <= b.size() ? n / 8 * 8 + tail : n / 8 * 8);
	return b;
}

// ---- well-formed token streams -------------------------------------------------------------------------------
struct Stream {
	std::vector<Token> tokens; Bytes out; bool has_short = false;
	uint32_t crc() const { return ref::crc32_fast(out.data(), out.size()); }
	Bytes encode(bool pad = true) const { return ref::encode(tokens, crc(), pad); }
};

// Valid ring index for a part of `size` bytes when `written` bytes exist. Returns false if there is none.
inline bool pick_index(Rng &r, unsigned mode, unsigned size, size_t written, uint64_t &idx, bool conservative) {
	size_t total = written / 8 * 8, ring = ref::ring_size(size);
	if (total < size) return false;
	if (conservative && total > ring) return false;
	size_t lo = total > ring ? total - ring : 0, n = (total - lo) / size, k;
	switch (mode) {
	case 0: k = n - 1 - r.below(n < 4 ? n : 4); break;         // newest
	case 1: k = r.below(n < 4 ? n : 4); break;                 // oldest
	case 2: { // around the current ring position
		size_t pos = (total % ring) / size; idx = (pos + ring / size - 2 + r.below(4)) % (ring / size);
		size_t a = ref::resolve(size, idx, written); if (a != SIZE_MAX) return true; k = r.below(n); break;
	}
	default: k = r.below(n);
	}
	idx = ((lo + k * size) % ring) / size;
	return true;
}

inline void apply(Stream &s, const Token &t) {
	Bytes &o = s.out;
	if (t.op == ref::OP_REPEAT) { uint8_t w[8]; memcpy(w, &o[o.size() - 8], 8); for (uint64_t i = 0; i <= t.v[0]; i++) o.insert(o.end(), w, w + 8); }
	else if (t.op == ref::OP_ZEROS) o.insert(o.end(), 8, 0);
	else if (t.op == ref::OP_SHORT) { for (auto b : t.v) o.push_back(b); s.has_short = true; }
	else {
		size_t i = 0;
		for (auto &p : ref::parts(t.op)) {
			if (p.index) { size_t a = ref::resolve(p.size, t.v[i], o.size()); for (unsigned k = 0; k < p.size; k++) { uint8_t x = o[a + k]; o.push_back(x); } }
			else put_be(o, t.v[i], p.size);
			i++;
		}
	}
	s.tokens.push_back(t);
}

// Make one random valid token for the current state. false if `op` is impossible here.
inline bool make_token(Rng &r, const Stream &s, unsigned op, Token &t, unsigned idxmode, uint64_t smalldata) {
	t.op = op; t.v.clear();
	size_t w = s.out.size();
	if (op == ref::OP_REPEAT) { if (w < 8) return false; t.v.push_back(r.chance(1, 3) ? (r.chance(1, 2) ? 63 : 0) : r.below(64)); return true; }
	if (op == ref::OP_ZEROS) return true;
	if (op == ref::OP_SHORT) { unsigned n = 1 + r.below(7); for (unsigned i = 0; i < n; i++) t.v.push_back(r.next() & 255); return true; }
	bool odd = w % 8 != 0;
	for (auto &p : ref::parts(op)) {
		uint64_t f;
		if (p.index) {
			// positions inside the word being built never count; after short data be conservative (see DESIGN C04)
			if (!pick_index(r, idxmode < 3 ? idxmode : r.below(6), p.size, w, f, odd)) return false;
			if (odd && w + 8 > ref::ring_size(p.size)) return false;
		} else { f = r.next(); if (smalldata) f = pbt::mix(smalldata, r.below(3)); if (p.bits < 64) f &= (1ULL << p.bits) - 1; }
		t.v.push_back(f);
	}
	return true;
}

inline Stream stream(Gen &g, size_t max_out, bool allow_short, size_t max_tokens = 1200) {
	Stream s;
	size_t ntok;
	switch (g.weighted({3, 4, 3, 2})) {
	case 0: ntok = g.below(6); break;
	case 1: ntok = g.below(60); break;
	case 2: ntok = g.pick({62, 64, 66, 128, 254, 256, 258, 300, 512}) + g.below(4); break;
	default: ntok = g.logsize(0, max_tokens);
	}
	// profile of the stream
	unsigned profile = g.weighted({6, 3, 2, 2, 2});
	unsigned idxmode = g.below(5);
	uint64_t small = g.chance(1, 3) ? 1 + g.seed() : 0;
	unsigned favop = g.below(26);
	Rng r(g.seed());
	unsigned shortpos = allow_short ? g.weighted({4, 2, 1}) : 0; // none, last, anywhere
	for (size_t i = 0; i < ntok && s.out.size() + 8 * 64 <= max_out; i++) {
		Token t; unsigned op;
		bool done = false;
		for (int tries = 0; tries < 8 && !done; tries++) {
			switch (profile) {
			case 0: op = r.below(28); op = op == 26 ? ref::OP_REPEAT : op == 27 ? ref::OP_ZEROS : op; break; // all
			case 1: op = r.chance(4, 5) ? 1 + r.below(25) : 0; break;                                            // index heavy
			case 2: op = r.chance(1, 2) ? favop : r.below(26); break;                                            // one template
			case 3: op = r.pick3(ref::OP_REPEAT, ref::OP_ZEROS, r.below(26)); break;                             // repeats
			default: op = r.chance(1, 2) ? 24 + r.below(2) : r.below(26);                                         // I8 / I4I4
			}
			if (shortpos == 2 && r.chance(1, 12)) op = ref::OP_SHORT;
			done = make_token(r, s, op, t, idxmode, small);
		}
		if (!done) { t.op = 0; t.v = {r.next()}; }
		apply(s, t);
	}
	if (shortpos == 1) { Token t; make_token(r, s, ref::OP_SHORT, t, 0, 0); apply(s, t); }
	return s;
}
// number of distinct templates that occur
inline unsigned distinct_ops(const Stream &s) { uint32_t m = 0; for (auto &t : s.tokens) m |= 1u << t.op; return __builtin_popcount(m); }
inline std::string describe(const std::vector<Token> &ts, size_t max = 10) {
	std::string o; static const char *hn[] = {"D4", "D2I2", "I2D2", "I2I2", "I4"};
	for (size_t i = 0; i < ts.size() && i < max; i++) {
		auto &t = ts[i];
		if (t.op == ref::OP_REPEAT) o += pbt::fmt("REPEAT(%llu) ", (unsigned long long)t.v[0] + 1);
		else if (t.op == ref::OP_ZEROS) o += "ZEROS ";
		else if (t.op == ref::OP_SHORT) o += pbt::fmt("SHORT(%zu) ", t.v.size());
		else if (t.op == ref::OP_END) o += "END ";
		else if (t.op == 25) o += pbt::fmt("I8[%llu] ", (unsigned long long)t.v[0]);
		else { o += std::string(hn[t.op / 5]) + hn[t.op % 5]; o += "("; for (auto v : t.v) o += pbt::fmt("%llx,", (unsigned long long)v); o.back() = ')'; o += " "; }
	}
	if (ts.size() > max) o += pbt::fmt("... %zu tokens", ts.size());
	return o;
}
inline std::string describe_data(const Bytes &b) { return pbt::fmt("%zu bytes: ", b.size()) + pbt::hex(b.data(), b.size(), 48); }
}
