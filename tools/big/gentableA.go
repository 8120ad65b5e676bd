package gentable

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"
)

const (
	blockShift = 6
	blockSize  = 1 << blockShift
	blockMask  = blockSize - 1
)

type (
	indexBlock    [blockSize]uint16
	propertyBlock [blockSize]uint8
)

// source describes one data file and how its entries contribute to the tree.
type source struct {
	path  []string
	apply func(t *treeInProgress, e ucdparse.Entry)
}

var sources = []source{
	{[]string{"auxiliary", "GraphemeBreakProperty.txt"}, applyBreak},
	{[]string{"emoji", "emoji-data.txt"}, applyEmoji},
	{[]string{"DerivedCoreProperties.txt"}, applyConjunct},
}

func (s source) name() string {
	return s.path[len(s.path)-1]
}

func (s source) open(baseDir string) (*os.File, error) {
	return os.Open(filepath.Join(append([]string{baseDir}, s.path...)...))
}

// BuildRawPropertyTree reads the data files below baseDir.
func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {
	files := make([]*os.File, len(sources))
	defer func() {
		for _, f := range files {
			if f != nil {
				f.Close()
			}
		}
	}()
	for i, s := range sources {
		f, err := s.open(baseDir)
		if err != nil {
			return RawPropertyTree{}, err
		}
		files[i] = f
	}

	tip := newTreeInProgress()
	for i, s := range sources {
		err := eachEntry(files[i], func(e ucdparse.Entry) {
			s.apply(tip, e)
		})
		if err != nil {
			return RawPropertyTree{}, fmt.Errorf("reading %s: %w", s.name(), err)
		}
	}
	return tip.Compact(), nil
}

func eachEntry(r io.Reader, f func(ucdparse.Entry)) error {
	sc := ucdparse.NewScanner(r)
	for {
		entry, err := sc.NextEntry()
		switch {
		case errors.Is(err, io.EOF):
			return nil
		case err != nil:
			return err
		}
		f(entry)
	}
}

func applyBreak(t *treeInProgress, e ucdparse.Entry) {
	setAll(t, e, charprops.LookupGCBProperty(e.FirstField()))
}

func applyEmoji(t *treeInProgress, e ucdparse.Entry) {
	if prop := charprops.LookupEmojiProperty(e.FirstField()); prop != charprops.GCBNone {
		setAll(t, e, prop)
	}
}

func setAll(t *treeInProgress, e ucdparse.Entry, prop charprops.GCBProperty) {
	for r := e.Start; r < e.End; r++ {
		t.Set(r, uint8(prop))
	}
}

func applyConjunct(t *treeInProgress, e ucdparse.Entry) {
	var fields []string
	for f := range e.AllFields() {
		fields = append(fields, f)
	}
	if len(fields) < 2 || fields[0] != "InCB" {
		return
	}
	mask := uint8(charprops.LookupInCBProperty(fields[1]))
	for r := e.Start; r < e.End; r++ {
		t.BitwiseOr(r, mask)
	}
}

type treeInProgress struct {
	rawProps []uint8
	indices  []uint16
}

func newTreeInProgress() *treeInProgress {
	return &treeInProgress{
		rawProps: make([]uint8, 2*blockSize),
		indices:  make([]uint16, blockSize),
	}
}

func (t *treeInProgress) Set(r rune, v uint8) {
	slot := t.slot(r)
	if v == 4 && *slot != 0 {
		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *slot, v))
	}
	*slot = v
}

func (t *treeInProgress) BitwiseOr(r rune, mask uint8) {
	*t.slot(r) |= mask
}

// slot returns where the properties of r are stored, making room as needed.
func (t *treeInProgress) slot(r rune) *uint8 {
	if !utf8.ValidRune(r) {
		return new(uint8) // discarded
	}
	var enc [utf8.UTFMax]byte
	n := utf8.EncodeRune(enc[:], r)
	if n == 1 {
		return &t.rawProps[enc[0]]
	}
	block := 0
	for _, b := range enc[:n-2] {
		block = t.child(block, b, t.newIndexBlock)
	}
	block = t.child(block, enc[n-2], t.newPropertyBlock)
	return &t.rawProps[block<<blockShift+int(enc[n-1]&blockMask)]
}

// child follows b from an index block, and calls alloc for a missing child.
func (t *treeInProgress) child(block int, b byte, alloc func() int) int {
	at := block<<blockShift + int(b&blockMask)
	if t.indices[at] == 0 {
		n := alloc()
		t.indices[at] = uint16(n)
	}
	return int(t.indices[at])
}

func (t *treeInProgress) newIndexBlock() int {
	n := len(t.indices) >> blockShift
	t.indices = append(t.indices, make([]uint16, blockSize)...)
	return n
}

func (t *treeInProgress) newPropertyBlock() int {
	n := len(t.rawProps) >> blockShift
	t.rawProps = append(t.rawProps, make([]uint8, blockSize)...)
	return n
}

type compactor struct {
	src   *treeInProgress
	out   RawPropertyTree
	props map[propertyBlock]uint16
	index map[indexBlock]uint16
}

func (t *treeInProgress) Compact() RawPropertyTree {
	c := &compactor{
		src:   t,
		props: make(map[propertyBlock]uint16),
		index: make(map[indexBlock]uint16),
	}
	// ASCII is looked up directly.
	c.out.Properties = append(c.out.Properties, t.rawProps[:2*blockSize]...)
	c.props[propertyBlock(t.rawProps[:blockSize])] = 0
	c.props[propertyBlock(t.rawProps[blockSize:2*blockSize])] = 1

	c.out.Indices = make([]uint16, blockSize)
	var root indexBlock
	for i := range root {
		root[i] = c.node(levels(i), t.indices[i])
	}
	copy(c.out.Indices, root[:])

	for i, v := range c.out.Indices {
		if v == 0 {
			panic(fmt.Sprintf("index entry %d is zero, which is invalid", i))
		}
	}
	return c.out
}

// levels is the number of index blocks below the root for an initial byte.
func levels(initial int) int {
	switch {
	case initial < 0b100000:
		return 0
	case initial < 0b110000:
		return 1
	default:
		return 2
	}
}

func (c *compactor) node(depth int, src uint16) uint16 {
	if depth == 0 {
		return c.leaf(src)
	}
	var in, out indexBlock
	if src != 0 {
		copy(in[:], c.src.indices[int(src)<<blockShift:])
	}
	for i, v := range in {
		out[i] = c.node(depth-1, v)
	}
	n, ok := c.index[out]
	if !ok {
		n = uint16(len(c.out.Indices) >> blockShift)
		c.out.Indices = append(c.out.Indices, out[:]...)
		c.index[out] = n
	}
	return n
}

func (c *compactor) leaf(src uint16) uint16 {
	var block propertyBlock
	if src != 0 {
		copy(block[:], c.src.rawProps[int(src)<<blockShift:])
	}
	n, ok := c.props[block]
	if !ok {
		n = uint16(len(c.out.Properties) >> blockShift)
		c.out.Properties = append(c.out.Properties, block[:]...)
		c.props[block] = n
	}
	return n
}
