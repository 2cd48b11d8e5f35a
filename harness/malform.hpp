// Damaged, malformed and arbitrary streams (C05, C08, C09, C23)
#pragma once
#include "common.hpp"

static void flip_bits(Gen &g, Bytes &b, unsigned n) { if (b.empty()) return; for (unsigned i = 0; i < n; i++) { uint64_t k = g.below(b.size() * 8); b[k / 8] ^= 1 << (k % 8); } }

// A stream with one malformation injected; returns a label
static const char *malformed(Gen &g, Bytes &out) {
	gen::Stream s = gen::stream(g, 8000, g.chance(1, 6), 300);
	std::vector<ref::Token> &t = s.tokens;
	size_t pos = g.below(t.size() + 1); // the bad token is inserted here
	if (g.chance(1, 3)) pos = t.size() < 3 ? pos : g.below(3);
	Rng r(g.seed());
	size_t written = 0; { gen::Stream p; for (size_t i = 0; i < pos; i++) gen::apply(p, t[i]); written = p.out.size(); }
	ref::BitWriter w; const char *lab;
	unsigned kind = g.weighted({3, 4, 2, 2, 4, 2, 2});
	for (size_t i = 0; i < pos; i++) ref::put_token(w, t[i]);
	auto rest = [&]() { for (size_t i = pos; i < t.size(); i++) ref::put_token(w, t[i]); w.put(ref::OP_END, 5); w.put(s.crc(), 32); w.pad8(); };
	switch (kind) {
	case 0: lab = "reserved opcode"; w.put(g.pick({0x1a, 0x1f, 0x1a, 0x1f, 0x1d}), 5); if (g.chance(1, 2)) for (int i = 0; i < 3; i++) w.put(r.next(), 64); rest(); break;
	case 1: { // index past the end of the data: first invalid one, last one, or random
		lab = "index to data not produced"; unsigned op = 1 + g.below(25); bool any = false;
		w.put(op, 5); size_t wr = written; (void)wr;
		const auto &ps = ref::parts(op); int which = g.below(ps.size());
		for (int rot = 0; rot < (int)ps.size(); rot++) { int k = (which + rot) % ps.size(); if (ps[k].index) { which = k; break; } }
		for (size_t k = 0; k < ps.size(); k++) {
			uint64_t f = r.next() & ((ps[k].bits == 64) ? ~0ULL : (1ULL << ps[k].bits) - 1);
			if (ps[k].index) {
				size_t total = written / 8 * 8, ring = ref::ring_size(ps[k].size), n = ring / ps[k].size, have = total / ps[k].size;
				if ((int)k == which && have < n) { any = true; f = g.pick<uint64_t>({have, n - 1, have + r.below(n - have)}); }
				else if (have) f = r.below(have < n ? have : n);
			}
			w.put(f, ps[k].bits);
		}
		if (!any) lab = "index (ring already full)";
		rest(); break;
	}
	case 2: { // repeat with fewer than 8 bytes
		lab = "repeat too early"; w = ref::BitWriter();
		unsigned nb = g.below(8); if (nb) { ref::Token q; q.op = ref::OP_SHORT; for (unsigned i = 0; i < nb; i++) q.v.push_back(r.next() & 255); ref::put_token(w, q); }
		w.put(ref::OP_REPEAT, 5); w.put(g.below(64), 6); pos = 0; rest(); break;
	}
	case 3: lab = "short data of length 0"; w.put(ref::OP_SHORT, 5); w.put(0, 3); rest(); break;
	case 4: lab = "truncated"; { Bytes e = s.encode(g.chance(1, 2)); size_t cut = g.chance(1, 2) ? g.below(e.size() + 1) : (e.size() > 8 ? e.size() - g.below(9) : g.below(e.size() + 1)); e.resize(cut); out = e; return lab; }
	case 5: lab = "end marker missing"; for (size_t i = pos; i < t.size(); i++) ref::put_token(w, t[i]); break;
	default: lab = "tail of other stream"; { Bytes e = s.encode(); size_t k = g.below(e.size()); out.assign(e.begin() + k, e.end()); return lab; }
	}
	out = w.b;
	return lab;
}

static const char *arbitrary_stream(Gen &g, Bytes &b) {
	switch (g.weighted({3, 5, 3, 6, 2, 2})) {
	case 0: { size_t n = g.logsize(0, 600); Rng r(g.seed()); b.resize(n); for (auto &x : b) x = r.next(); return "random bytes"; }
	case 1: { gen::Stream s = gen::stream(g, 8000, g.chance(1, 5), 300); b = s.encode(g.chance(1, 2)); flip_bits(g, b, 1 + g.below(4)); return "valid stream with flipped bits"; }
	case 2: { // valid prefix, then random
		gen::Stream s = gen::stream(g, 8000, g.chance(1, 5), 300); b = s.encode(); b.resize(g.below(b.size() + 1)); Rng r(g.seed()); size_t n = g.logsize(0, 200); for (size_t i = 0; i < n; i++) b.push_back(r.next()); return "valid prefix then random"; }
	case 3: return malformed(g, b);
	case 4: { Bytes d = gen::data(g, 3000, false); size_t n = ample(d.size()); b.resize(n); size_t ol = n; sw842_compress(d.data(), d.size(), b.data(), &ol); b.resize(ol); unsigned k = g.below(4); flip_bits(g, b, k); return k ? "encoder output with flipped bits" : "encoder output"; }
	default: { // random opcodes with structure, random fields
		ref::BitWriter w; size_t n = g.logsize(0, 300); Rng r(g.seed()); unsigned lim = g.pick({32, 26, 30});
		for (size_t i = 0; i < n; i++) { unsigned op = r.below(lim); w.put(op, 5); if (op == ref::OP_REPEAT) w.put(r.below(64), 6); else if (op == ref::OP_SHORT) w.put(r.below(8), 3); else if (op < 26) for (auto &p : ref::parts(op)) w.put(r.chance(1, 2) ? r.below(8) : r.next() >> (64 - p.bits), p.bits); }
		if (g.chance(1, 2)) w.put(ref::OP_END, 5);
		w.put(r.next(), 64); b = w.b; return "random tokens"; }
	}
}

