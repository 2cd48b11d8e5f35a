// C29: the HLS tokenizer, compiled against stand-ins for the vendor's types.
#include "common.hpp"
#define main hls_sample_main
#include HLS_SOURCE
#undef main
#undef OP_REPEAT
#undef OP_ZEROS
#undef OP_END
static Ctx *C; static std::string situation;
extern "C" void shim_bad(const char *what, long a, long b) { C->fail("%s: %s (%ld, %ld)", situation.c_str(), what, a, b); }

static void c29(Gen &g, Ctx &c) {
	C = &c;
	gen::Stream s = gen::stream(g, g.pick({(size_t)600, (size_t)4096, (size_t)40000}), false);
	Bytes b = s.encode(false); // exact number of bytes, completed to whole beats below
	size_t bits = 0; for (auto &t : s.tokens) { bits += 5; if (t.op == ref::OP_REPEAT) bits += 6; else if (t.op <= 25) for (auto &p : ref::parts(t.op)) bits += p.bits; }
	if (g.chance(1, 4)) while (b.size() % 8) b.push_back(0);
	size_t valid = b.size(); bool junk = g.chance(1, 4); Rng r(g.seed());
	while (b.size() % 16) b.push_back(junk ? (uint8_t)r.next() : 0); // bytes of the last beat that carry no stream data
	situation = "stream of " + std::to_string(s.tokens.size()) + " tokens: " + gen::describe(s.tokens);
	input_stream in; tokenized_stream out;
	for (size_t i = 0; i < b.size(); i += 16) {
		input_stream_element e; unsigned n = (unsigned)std::min<size_t>(16, valid - i);
		for (unsigned k = 0; k < 16; k++) e.data(8 * k + 7, 8 * k) = b[i + k];
		e.keep = (1u << n) - 1; e.strb = (1u << n) - 1; e.last = i + 16 >= b.size();
		in.write(e);
	}
	opcode_tokenizer(in, out);
	size_t n = s.tokens.size();
	for (size_t i = 0; i <= n; i++) {
		if (out.empty()) c.fail("%s: only %zu of %zu tokens came out", situation.c_str(), i, n + 1);
		tokenized_stream_element e = out.read();
		unsigned op = i < n ? s.tokens[i].op : (unsigned)ref::OP_END;
		unsigned got = (unsigned)(uint64_t)(unsigned long long)ap_uint<5>(e.data(68, 64));
		if (got != op) c.fail("%s: token %zu has template code %#x, the stream has %#x there", situation.c_str(), i, got, op);
		bool last = e.last.to_bool();
		if (last != (i == n)) c.fail("%s: token %zu of %zu is %smarked as last", situation.c_str(), i, n + 1, last ? "" : "not ");
		if (i < n) {
			unsigned pos = 64;
			auto param = [&](uint64_t want, unsigned w, unsigned k) {
				uint64_t v = 0; for (unsigned j = 0; j < w; j++) v = v << 1 | e.data.get_bit((int)(pos - 1 - j));
				pos -= w;
				if (v != want) c.fail("%s: token %zu (code %#x) parameter %u is %#llx, the stream has %#llx", situation.c_str(), i, op, k, (unsigned long long)v, (unsigned long long)want);
			};
			if (op == ref::OP_REPEAT) param(s.tokens[i].v[0], 6, 0);
			else if (op <= 25) { unsigned k = 0; for (auto &p : ref::parts(op)) { param(s.tokens[i].v[k], p.bits, k); k++; } }
		}
	}
	if (!out.empty()) c.fail("%s: %zu tokens after the end token", situation.c_str(), out.size());
	c.label(pbt::fmt("end-token-at-beat-bit-%zu..%zu", bits % 128 / 16 * 16, bits % 128 / 16 * 16 + 15).c_str());
	if (b.size() == 16) c.label("single-beat"); if (junk) c.label("junk-after-stream");
	if (n >= 2 && gen::distinct_ops(s) >= 2) { c.nontrivial(pbt::hash_bytes(b.data(), b.size())); if (c.want_sample()) c.sample(pbt::fmt("%zu tokens in %zu beats: ", n, b.size() / 16) + gen::describe(s.tokens)); }
}
static struct Reg { Reg() {
	pbt::add({"C29", c29, 20000, 1500000, "at least two tokens with different template codes", 0, nullptr, false, 60});
} } reg;
