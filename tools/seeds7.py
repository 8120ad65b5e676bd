from seedlib import seed
from seeds5 import gen, GT, GM
MANY=r'''
# Data with 600 distinct blocks: more than the table's 8-bit indices can address.
python3 - <<'PY' > ucd/auxiliary/GraphemeBreakProperty.txt
for b in range(600):
    base = 0x20000 + b * 64
    for j in range(12):
        if (b + 1) >> j & 1:
            print("%X ; Extend" % (base + j))
    print("%X ; Control" % (base + 63))
PY
: > ucd/emoji/emoji-data.txt
: > ucd/DerivedCoreProperties.txt
printf '// old table\npackage charprops\n' > property_table_raw.go
"$T/gen" 2>/dev/null; rc=$?
[ $rc != 0 ] || exit 1
'''
WALK='''package gentable

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf8"
)

// Data with 600 distinct blocks of 64 characters.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	var sb strings.Builder
	want := map[rune]bool{}
	for b := 0; b < 600; b++ {
		base := rune(0x20000 + b*64)
		for j := 0; j < 12; j++ {
			if (b+1)>>j&1 == 1 {
				fmt.Fprintf(&sb, "%X ; Extend\\n", base+rune(j))
				want[base+rune(j)] = true
			}
		}
	}
	for name, text := range map[string]string{"auxiliary/GraphemeBreakProperty.txt": sb.String(), "emoji/emoji-data.txt": "", "DerivedCoreProperties.txt": "000D ; InCB; None\\n"} {
		p := filepath.Join(dir, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	tree, err := func() (tr RawPropertyTree, err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		return BuildRawPropertyTree(dir)
	}()
	if err != nil {
		return // refused
	}
	for r := rune(0x20000); r < 0x20000+600*64; r++ {
		var e [4]byte
		n := utf8.EncodeRune(e[:], r)
		idx := 0
		for i := 0; i < n-1; i++ {
			idx = int(tree.Indices[idx<<6+int(e[i]&63)])
		}
		if got := tree.Properties[idx<<6+int(e[n-1]&63)] != 0; got != want[r] {
			t.Fatalf("U+%04X: got %v, want %v", r, got, want[r])
		}
	}
}
'''
if __name__ == "__main__":
    W=dict(demo_go=WALK,pkg="./textseg/internal/charprops/gentable",dir="textseg/internal/charprops/gentable")
    seed("c21-one-list", "C21", "data files that need more than 256 property blocks", "only the number of index blocks is checked, and an index beyond 255 is cut to its low byte",
     [(GM,'''	for i := 0; i < len(tree.Indices); i += 8 {
''','''	if blocks := len(tree.Indices) / 64; blocks > math.MaxUint8+1 {
		panic("too many indices to use uint8")
	}
	for i := 0; i < len(tree.Indices); i += 8 {
'''),(GM,'''			if v > math.MaxUint8 {
				panic("too many indices to use uint8")
			}
			fmt.Fprintf(&buf, "0x%02x,", v)
''','''			fmt.Fprintf(&buf, "0x%02x,", uint8(v))
''')],demo_sh=gen(MANY))
    seed("c21-short-key", "C21", "data files with index blocks whose entries differ by multiples of 256", "index blocks are compared by the low bytes of their entries only, so that different blocks are merged",
     [(GT,'	var bytes [blockSize * 2]byte\n	for i, v := range block {\n		bytes[i*2] = byte(v)\n		bytes[i*2+1] = byte(v >> 8)\n	}\n	return string(bytes[:])','	// The entries end up in a table of uint8, so one byte each is enough.\n	key := make([]byte, 0, blockSize)\n	for _, v := range block {\n		key = append(key, byte(v))\n	}\n	return string(key)')],**W)
    seed("c21-short-offset", "C21", "data files with properties in more than 1023 blocks of 64 characters", "the offset of a property block is computed in 16 bits while the tree is built",
     [(GT,'	return &t.rawProps[(propBlockIndex<<blockShift)+int(final&blockMask)]','	start := uint16(propBlockIndex) << blockShift\n	return &t.rawProps[int(start)+int(final&blockMask)]')],
     demo_go=WALK.replace("600","1600"),pkg=W["pkg"],dir=W["dir"])
