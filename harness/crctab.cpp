// C31, tables: the committed table against the one the generator program derives.
#include "common.hpp"
extern "C" { extern const uint32_t *tab_committed, *tab_generated; extern const unsigned long tab_committed_size, tab_generated_size; }
static void row(uint64_t i, Ctx &c) {
	if (tab_committed_size != tab_generated_size) c.fail("the committed checksum table has %lu bytes, the generator's %lu", tab_committed_size, tab_generated_size);
	for (unsigned k = 0; k < 256 && (i * 256 + k) * 4 < tab_committed_size; k++)
		if (tab_committed[i * 256 + k] != tab_generated[i * 256 + k]) c.fail("checksum table row %u entry %u: committed %#010x, generator %#010x", (unsigned)i, k, tab_committed[i * 256 + k], tab_generated[i * 256 + k]);
	c.label("table-rows-compared"); c.nontrivial(pbt::mix(77, i));
	if (c.want_sample()) c.sample(pbt::fmt("row %u: %08x %08x ... %08x", (unsigned)i, tab_committed[i * 256], tab_committed[i * 256 + 1], tab_committed[i * 256 + 255]));
}
static void c31(Gen &g, Ctx &c) { row(g.below(8), c); }
static struct Reg { Reg() { pbt::add({"C31", c31, 8, 8, "every row of the table", 8, row, false, 20}); } } reg;
