//go:build ignore
// +build ignore

package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"io"
	"math"
	"os"
	"slices"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/gentable"
)

const (
	dataDir    = "ucd"
	outputFile = "property_table_raw.go"
	perLine    = 8
	blockSize  = 64
)

var errTooMany = errors.New("too many indices to use uint8")

func main() {
	if err := run(dataDir, outputFile); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
		os.Exit(1)
	}
}

func run(dir, out string) error {
	tree, err := gentable.BuildRawPropertyTree(dir)
	if err != nil {
		return err
	}
	if slices.Max(tree.Indices) > math.MaxUint8 {
		return errTooMany
	}
	var buf bytes.Buffer
	header(&buf)
	table(&buf, "lookupIndices", "uint8", tree.Indices)
	table(&buf, "lookupProps", "CharProperties", tree.Properties)
	src, err := format.Source(buf.Bytes())
	if err != nil {
		return fmt.Errorf("formatting the table: %w", err)
	}
	return os.WriteFile(out, src, 0o666)
}

func header(w io.Writer) {
	for _, line := range []string{
		"// Generated by generate.go. DO NOT EDIT!",
		"",
		"package charprops",
		"",
	} {
		fmt.Fprintln(w, line)
	}
}

func table[T uint8 | uint16](w io.Writer, name, elem string, vals []T) {
	fmt.Fprintf(w, "var %s = [...]%s{\n", name, elem)
	n := 0
	for line := range slices.Chunk(vals, perLine) {
		if n%blockSize == 0 {
			fmt.Fprintf(w, "  // block 0x%04x\n", n/blockSize)
		}
		fmt.Fprint(w, "\t")
		for _, v := range line {
			fmt.Fprintf(w, "0x%02x,", v)
		}
		fmt.Fprintln(w)
		n += len(line)
	}
	fmt.Fprintln(w, "}")
}
