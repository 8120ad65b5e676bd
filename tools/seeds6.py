from seedlib import seed
from seeds5 import gen, GT, GM
US="textseg/internal/charprops/ucdparse/ucd_scan.go"
TS="textseg/internal/charprops/ucdparse/testdata_scan.go"
FAILS=r'''
echo "// old table" > property_table_raw.go
@PREP@
"$T/gen"; rc=$?
[ $rc != 0 ] || exit 1
grep -q "old table" property_table_raw.go || exit 1
'''
def fails(prep): return gen(FAILS.replace("@PREP@", prep.strip()))
U13='''package ucdparse

import (
	"errors"
	"io"
	"strings"
	"testing"
)

type failing struct {
	r   io.Reader
	err error
}

func (f *failing) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

var _ = errors.New
var _ = strings.NewReader

'''
if __name__ == "__main__":
    seed("c11-missing-optional", "C11", "DerivedCoreProperties.txt is missing", "a missing input file is taken for an empty one, so that a table without conjunct breaks is written and reported as a success",
     [(GT,'	dcpFile, err := os.Open(dcpPath)\n	if err != nil {\n','	var dcpData io.Reader = strings.NewReader("")\n	dcpFile, err := os.Open(dcpPath)\n	if err == nil {\n		defer dcpFile.Close()\n		dcpData = dcpFile\n	} else if !os.IsNotExist(err) {\n'),
      (GT,'ucdparse.NewScanner(dcpFile)','ucdparse.NewScanner(dcpData)'),(GT,'	"slices"\n','	"slices"\n	"strings"\n')],
     demo_sh=fails('rm -f "$T/a/$C/ucd/DerivedCoreProperties.txt"'))
    seed("c11-recover", "C11", "input files that contradict each other, so that the tree builder panics", "main recovers from the panic, prints it and ends normally",
     [(GM,'func main() {\n	tree, err := gentable.BuildRawPropertyTree("ucd")\n','func main() {\n	defer func() {\n		if r := recover(); r != nil {\n			fmt.Fprintf(os.Stderr, "Internal error: %v\\n", r)\n		}\n	}()\n	const baseDir = "ucd"\n	tree, err := gentable.BuildRawPropertyTree(baseDir)\n')],
     demo_sh=fails('echo "0300 ; Extended_Pictographic" >> ucd/emoji/emoji-data.txt'))
    seed("c11-overlong-line", "C11", "a line of more than 64 KiB in an input file", "an overlong line ends the file silently, dropping everything after it",
     [(GT,'''		if err == io.EOF {
			break
		} else if err != nil {
			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)''','''		if err == io.EOF || errors.Is(err, bufio.ErrTooLong) {
			break
		} else if err != nil {
			return ret, fmt.Errorf("reading emoji-data.txt: %w", err)'''),(GT,'	"fmt"\n','	"bufio"\n	"errors"\n	"fmt"\n')],
     demo_sh=fails('{ head -c 100000 /dev/zero | tr "\\0" x; echo; } >> ucd/emoji/emoji-data.txt'))
    seed("c13-truncated-testdata", "C13", "a reader that fails with io.ErrUnexpectedEOF", "a truncated test data file reads like a complete one",
     [(TS,'			if err := sc.lineScan.Err(); err != nil {','			if err := sc.lineScan.Err(); err != nil && err != io.ErrUnexpectedEOF {')],
     demo_go=U13+'''func TestDemo(t *testing.T) {
	sc := NewTestDataScanner(&failing{strings.NewReader("÷ 0041 ÷\\n"), io.ErrUnexpectedEOF})
	for i := 0; i < 5; i++ {
		_, err := sc.NextEntry()
		if err == io.EOF {
			t.Fatal("failure reported as end of data")
		}
		if err != nil {
			return
		}
	}
	t.Fatal("no error")
}
''',pkg="./textseg/internal/charprops/ucdparse",dir="textseg/internal/charprops/ucdparse")
    seed("c13-missing-lines", "C13", "a data line whose code point field starts with @", "malformed lines are taken for annotations and skipped",
     [(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.TrimSpace(rng)\n		if bytes.HasPrefix(rng, missingMarker) {\n			continue // @missing and other annotations\n		}\n'),
      (US,"var commentMarker = []byte{'#'}\n","var commentMarker = []byte{'#'}\nvar missingMarker = []byte{'@'}\n")],
     demo_go=U13+'''func TestDemo(t *testing.T) {
	sc := NewScanner(strings.NewReader("@0041..005A ; Extend\\n"))
	if e, err := sc.NextEntry(); err == nil || err == io.EOF {
		t.Fatalf("malformed line gives %v, %v", e, err)
	}
}
''',pkg="./textseg/internal/charprops/ucdparse",dir="textseg/internal/charprops/ucdparse")
    seed("c13-open-range", "C13", "a range whose end is missing", "0041.. is read like 0041",
     [(US,'		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n','		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n		isRange = isRange && len(endHex) > 0\n')],
     demo_go=U13+'''func TestDemo(t *testing.T) {
	sc := NewScanner(strings.NewReader("0041.. ; Extend\\n"))
	if e, err := sc.NextEntry(); err == nil || err == io.EOF {
		t.Fatalf("malformed line gives %v, %v", e, err)
	}
}
''',pkg="./textseg/internal/charprops/ucdparse",dir="textseg/internal/charprops/ucdparse")
