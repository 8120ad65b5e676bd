from seedlib import seed
from seeds14 import demo
GM="textseg/internal/charprops/generate.go"
IND="	for i := 0; i < len(tree.Indices); i += 8 {\n"
PRO="	for i := 0; i < len(tree.Properties); i += 8 {\n"
SAME='''	// U+E0000..U+E0FFF are in the data; nothing behind them is.
	for r := rune(0); r <= 0x10FFFF; r++ {
		if r == 0xD800 {
			r = 0xE000
		}
		look(r)
	}
	for _, r := range []rune{0xE0001, 0xE0FFF, 0xEFFFF, 0x10FFFF} {
		want := GCBControl
		if r > 0xE0FFF {
			want = GCBNone
		}
		if got := look(r).GCBProperty(); got != want {
			t.Errorf("U+%04X: %v", r, got)
		}
	}
'''
if __name__ == "__main__":
    seed("c26-last-index-row", "C26", "a lookup in the last part of the last plane that has any properties", "the loop that writes the index table stops before its last row, so that the last eight entries are left out",
     [(GM, IND, "	for i := 0; i+8 < len(tree.Indices); i += 8 {\n")], demo_sh=demo("", SAME))
    seed("c26-trailing-zeros", "C26", "a last block of properties that ends with characters without any", "zeros at the end of the property table are not written, so that its last block is too short",
     [(GM, PRO, '''	// Nothing needs to be stored for the rest of the last block.
	for len(tree.Properties) > 0 && tree.Properties[len(tree.Properties)-1] == 0 {
		tree.Properties = tree.Properties[:len(tree.Properties)-1]
	}
''' + PRO)], demo_sh=demo("printf 'EFFC0 ; InCB; Extend # one in the last block\\n' >> ucd/DerivedCoreProperties.txt\n", SAME.replace('''	for _, r := range''','''	if p := look(0xEFFC0).InCBProperty(); p != InCBExtend {
		t.Error(p)
	}
	for _, r := range''',1)))
    BIG = r'''python3 - <<'END'
# a different pattern of a block's characters in each of 15 blocks
with open("ucd/DerivedCoreProperties.txt", "a") as f:
    for n in range(15):
        base = 0xF0000 + 64 * n
        for bit in range(8):
            if (n + 1) >> bit & 1:
                f.write("%04X ; InCB; Extend # bit\n" % (base + 7 * bit))
END
'''
    BIGC = '''	for n := rune(0); n < 15; n++ {
		for bit := range 8 {
			want := InCBNone
			if (n+1)>>bit&1 != 0 {
				want = InCBExtend
			}
			if got := look(0xF0000 + 64*n + rune(7*bit)).InCBProperty(); got != want {
				t.Fatalf("block %d, bit %d: %v", n, bit, got)
			}
		}
	}
'''
    seed("c26-block-limit", "C26", "data files that need more property blocks than the current ones", "only the first 240 blocks of the property table are written",
     [(GM, PRO, "	const maxBlocks = 0xf0\n	for i := 0; i < len(tree.Properties) && i>>6 < maxBlocks; i += 8 {\n")], demo_sh=demo(BIG, BIGC))
    seed("c26-repeated-row", "C26", "an index table in which two rows in a row are the same and that is longer than now", "from the 26th block on, a row of the index table that is the same as the one before it is not written",
     [(GM, "		items := tree.Indices[i:]\n		items = items[:min(len(items), 8)]\n", '''		items := tree.Indices[i:]
		items = items[:min(len(items), 8)]
		if i >= 64*25 && slices.Equal(items, tree.Indices[i-8:i]) {
			continue
		}
'''),(GM, '	"os"\n','	"os"\n	"slices"\n')], demo_sh=demo("printf '100000..10FFFF ; InCB; Extend # a whole plane\\n20000..2FFFF ; InCB; Extend # another\\n' >> ucd/DerivedCoreProperties.txt\n", '''	for _, r := range []rune{0x20000, 0x25555, 0x2FFFF, 0x100000, 0x10AAAA, 0x10FFFF} {
		if p := look(r).InCBProperty(); p != InCBExtend {
			t.Errorf("U+%04X: %v", r, p)
		}
	}
'''))
