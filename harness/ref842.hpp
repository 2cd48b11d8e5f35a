// Independent reference model of the 842 format, written from the format description in src/common/842.h
// (bit by bit, no code shared with the library).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <array>

namespace ref {
typedef std::vector<uint8_t> Bytes;

inline uint32_t crc32(const uint8_t *p, size_t n) { // bitwise: poly 0x04c11db7, init 0, MSB first, no final xor
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) {
		c ^= (uint32_t)p[i] << 24;
		for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04c11db7u : c << 1;
	}
	return c;
}
// table-driven variant for large buffers (table built from the bitwise definition; self-checked in C31)
inline uint32_t crc32_fast(const uint8_t *p, size_t n) {
	static uint32_t t[256]; static bool init = false;
	if (!init) {
		for (unsigned i = 0; i < 256; i++) { uint32_t c = (uint32_t)i << 24; for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04c11db7u : c << 1; t[i] = c; }
		init = true;
	}
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) c = t[((c >> 24) ^ p[i]) & 255] ^ (c << 8);
	return c;
}

struct BitWriter {
	Bytes b; size_t nbits = 0;
	void put(uint64_t v, unsigned n) {
		for (unsigned i = n; i-- > 0;) {
			if (nbits % 8 == 0) b.push_back(0);
			if ((v >> i) & 1) b.back() |= 0x80 >> (nbits % 8);
			nbits++;
		}
	}
	void pad8() { while (b.size() % 8) b.push_back(0); nbits = b.size() * 8; }
};
struct BitReader {
	const uint8_t *p; size_t nbits, pos = 0;
	BitReader(const uint8_t *p_, size_t bytes) : p(p_), nbits(bytes * 8) {}
	bool get(unsigned n, uint64_t &v) {
		if (nbits - pos < n) return false;
		v = 0;
		for (unsigned i = 0; i < n; i++, pos++) v = v << 1 | ((p[pos / 8] >> (7 - pos % 8)) & 1);
		return true;
	}
};

enum { OP_I8 = 25, OP_REPEAT = 0x1b, OP_ZEROS = 0x1c, OP_SHORT = 0x1d, OP_END = 0x1e };
// A part of a template: size in bytes, whether it is an index, number of bits
struct Part { unsigned size; bool index; unsigned bits; };
// Each half of templates 0..24 is one of: D4 | D2 I2 | I2 D2 | I2 I2 | I4
inline void half_parts(unsigned h, std::vector<Part> &v) {
	const Part D4{4, false, 32}, D2{2, false, 16}, I2{2, true, 8}, I4{4, true, 9};
	switch (h) {
	case 0: v.push_back(D4); break;
	case 1: v.push_back(D2); v.push_back(I2); break;
	case 2: v.push_back(I2); v.push_back(D2); break;
	case 3: v.push_back(I2); v.push_back(I2); break;
	default: v.push_back(I4);
	}
}
inline const std::vector<Part> &parts(unsigned op) { // op 0..25
	static std::vector<Part> t[26];
	if (t[0].empty()) {
		for (unsigned o = 0; o < 25; o++) { half_parts(o / 5, t[o]); half_parts(o % 5, t[o]); }
		t[0].assign(1, Part{8, false, 64}); // two literal halves: one 8-byte literal
		t[25].push_back(Part{8, true, 8});
	}
	return t[op];
}
inline size_t ring_size(unsigned size) { return size == 2 ? 512 : 2048; }
// absolute position an index refers to, given the number of whole words written; SIZE_MAX if it refers to nothing yet
inline size_t resolve(unsigned size, uint64_t index, size_t written) {
	size_t total = written / 8 * 8, ring = ring_size(size), off = index * size;
	if (off + size > total) { if (total < ring || off >= ring) return SIZE_MAX; }
	// largest position congruent to off below total
	size_t a = off;
	if (total > a) a += (total - 1 - a) / ring * ring;
	if (a + size > total) return SIZE_MAX;
	return a;
}

struct Token { unsigned op; std::vector<uint64_t> v; }; // v: raw field values in order (short data: bytes)

enum Status { OK, TRUNCATED, RESERVED, BAD_INDEX, BAD_REPEAT, BAD_SHORT, NOSPACE, BAD_CRC };
inline const char *status_name(int s) { static const char *n[] = {"ok", "truncated", "reserved-op", "bad-index", "bad-repeat", "bad-short", "nospace", "bad-crc"}; return n[s]; }

struct Result {
	Status st = OK; Bytes out; std::vector<Token> tokens; size_t endbit = 0; uint32_t crc = 0;
	size_t errbit = 0; unsigned nshort = 0; bool short_last_only = true;
};

// Decode; `cap` limits the output. Stops at the first problem.
inline Result decode(const uint8_t *in, size_t ilen, size_t cap, bool keep_tokens = false, bool check_crc = true, bool allow_short = true) {
	Result r; BitReader br(in, ilen);
	auto bad = [&](Status s) { r.st = s; r.errbit = br.pos; };
	for (;;) {
		uint64_t op;
		if (!br.get(5, op)) { bad(TRUNCATED); return r; }
		Token t; t.op = op;
		if (r.nshort && op != OP_END) r.short_last_only = false;
		if (op == OP_END) { if (keep_tokens) r.tokens.push_back(t); break; }
		if (op == OP_REPEAT) {
			uint64_t n; if (!br.get(6, n)) { bad(TRUNCATED); return r; }
			if (r.out.size() < 8) { bad(BAD_REPEAT); return r; }
			n++;
			if (r.out.size() + 8 * n > cap) { bad(NOSPACE); return r; }
			uint8_t w[8]; memcpy(w, &r.out[r.out.size() - 8], 8);
			for (uint64_t i = 0; i < n; i++) r.out.insert(r.out.end(), w, w + 8);
			t.v.push_back(n - 1);
		} else if (op == OP_ZEROS) {
			if (r.out.size() + 8 > cap) { bad(NOSPACE); return r; }
			r.out.insert(r.out.end(), 8, 0);
		} else if (op == OP_SHORT) {
			if (!allow_short) { bad(RESERVED); return r; }
			uint64_t n; if (!br.get(3, n)) { bad(TRUNCATED); return r; }
			if (n == 0) { bad(BAD_SHORT); return r; }
			r.nshort++;
			if (r.out.size() + n > cap) { bad(NOSPACE); return r; }
			for (uint64_t i = 0; i < n; i++) { uint64_t b; if (!br.get(8, b)) { bad(TRUNCATED); return r; } r.out.push_back(b); t.v.push_back(b); }
		} else if (op <= 25) {
			for (const Part &p : parts(op)) {
				uint64_t f;
				if (!br.get(p.bits, f)) { bad(TRUNCATED); return r; }
				t.v.push_back(f);
				if (p.index) {
					size_t a = resolve(p.size, f, r.out.size());
					if (a == SIZE_MAX) { bad(BAD_INDEX); return r; }
					if (r.out.size() + p.size > cap) { bad(NOSPACE); return r; }
					for (unsigned i = 0; i < p.size; i++) { uint8_t b = r.out[a + i]; r.out.push_back(b); }
				} else {
					if (r.out.size() + p.size > cap) { bad(NOSPACE); return r; }
					for (unsigned i = p.size; i-- > 0;) r.out.push_back(f >> (8 * i));
				}
			}
		} else { bad(RESERVED); return r; }
		if (keep_tokens) r.tokens.push_back(std::move(t));
	}
	uint64_t c;
	if (!br.get(32, c)) { bad(TRUNCATED); return r; }
	r.crc = c; r.endbit = br.pos;
	if (check_crc && c != crc32_fast(r.out.data(), r.out.size())) { bad(BAD_CRC); return r; }
	return r;
}

inline void put_token(BitWriter &w, const Token &t) {
	w.put(t.op, 5);
	if (t.op == OP_REPEAT) w.put(t.v[0], 6);
	else if (t.op == OP_SHORT) { w.put(t.v.size() & 7, 3); for (auto b : t.v) w.put(b, 8); }
	else if (t.op <= 25) { size_t i = 0; for (const Part &p : parts(t.op)) w.put(t.v[i++], p.bits); }
}
inline Bytes encode(const std::vector<Token> &ts, uint32_t crc, bool pad = true) { // ts without END
	BitWriter w;
	for (auto &t : ts) put_token(w, t);
	w.put(OP_END, 5); w.put(crc, 32);
	if (pad) w.pad8();
	return w.b;
}

// Reference greedy encoder size: bits for each word (see C12), also giving the token kinds.
struct Cost { uint64_t bits = 0; uint64_t words = 0, repeats = 0, reptokens = 0, zeros = 0, lit = 0, mixed = 0, i8 = 0; };
inline uint64_t rd(const uint8_t *p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
struct RingSet { // multiset of the values of the last `ring` bytes
	unsigned size; std::unordered_map<uint64_t, int> cnt;
	void add(uint64_t v) { cnt[v]++; }
	void del(uint64_t v) { auto i = cnt.find(v); if (--i->second == 0) cnt.erase(i); }
	bool has(uint64_t v) const { return cnt.count(v) != 0; }
};
inline Cost greedy(const uint8_t *in, size_t n) {
	Cost c; RingSet r2{2, {}}, r4{4, {}}, r8{8, {}};
	size_t words = n / 8; uint64_t run = 0;
	c.words = words;
	for (size_t k = 0; k < words; k++) {
		const uint8_t *p = in + 8 * k;
		if (k && memcmp(p, p - 8, 8) == 0) {
			c.repeats++;
			if (run % 64 == 0) { c.bits += 11; c.reptokens++; }
			run++;
		} else {
			run = 0;
			uint64_t w = rd(p, 8);
			if (w == 0) { c.bits += 5; c.zeros++; }
			else {
				c.bits += 5;
				if (r8.has(w)) { c.bits += 8; c.i8++; }
				else {
					unsigned b = 0;
					for (unsigned h = 0; h < 2; h++) {
						if (r4.has(rd(p + 4 * h, 4))) b += 9;
						else for (unsigned q = 0; q < 2; q++) b += r2.has(rd(p + 4 * h + 2 * q, 2)) ? 8 : 16;
					}
					if (b == 64) c.lit++; else c.mixed++;
					c.bits += b;
				}
			}
		}
		// rings: the last 512 (2-byte) / 2048 (4- and 8-byte) bytes
		if (k >= 64) for (unsigned q = 0; q < 4; q++) r2.del(rd(in + 8 * (k - 64) + 2 * q, 2));
		if (k >= 256) { r4.del(rd(in + 8 * (k - 256), 4)); r4.del(rd(in + 8 * (k - 256) + 4, 4)); r8.del(rd(in + 8 * (k - 256), 8)); }
		for (unsigned q = 0; q < 4; q++) r2.add(rd(p + 2 * q, 2));
		r4.add(rd(p, 4)); r4.add(rd(p + 4, 4)); r8.add(rd(p, 8));
	}
	if (n % 8) c.bits += 5 + 3 + 8 * (n % 8);
	return c;
}
inline uint64_t total_bytes(uint64_t payload_bits) { return (payload_bits + 5 + 32 + 63) / 64 * 8; }
inline uint64_t literal_bound(size_t n) { return total_bytes((n / 8) * 69 + (n % 8 ? 8 + 8 * (n % 8) : 0)); }
}
