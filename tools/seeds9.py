from seedlib import seed
SC="textseg/grapheme_clusters.go"; MS="textseg/internal/machine/state.go"
T='''package textseg_test

import (
	"bytes"
	"testing"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg"
)

// best gives the shortest of a few runs of f.
func best(f func()) time.Duration {
	d := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		f()
		if e := time.Since(t); e < d {
			d = e
		}
	}
	return d
}

func scan(t *testing.T, buf []byte, n int) {
	for i := 0; i < n && len(buf) > 0; i++ {
		adv, _, err := textseg.ScanGraphemeClusters(buf, true)
		if err != nil || adv < 1 {
			t.Fatal(adv, err)
		}
		buf = buf[adv:]
	}
}
'''
FAR=T+'''
func TestDemo(t *testing.T) {
	unit := []byte(%s)
	small := bytes.Repeat(unit, 1000)
	large := bytes.Repeat(unit, 2_000_000)
	a := best(func() { scan(t, small, 500) })
	b := best(func() { scan(t, large, 500) })
	if b > 50*a && b > 100*time.Millisecond {
		t.Fatalf("500 clusters take %%v in a short buffer but %%v in a long one", a, b)
	}
}
'''
LONG=T+'''
func TestDemo(t *testing.T) {
	a, b := time.Duration(0), time.Duration(0)
	small := append([]byte("a"), bytes.Repeat([]byte(%s), 1_000)...)
	large := append([]byte("a"), bytes.Repeat([]byte(%s), 60_000)...)
	a = best(func() { scan(t, small, 1) })
	b = best(func() { scan(t, large, 1) })
	if b > 600*a && b > 100*time.Millisecond {
		t.Fatalf("a cluster 60 times as long takes %%v instead of %%v", b, a)
	}
}
'''
if __name__=="__main__":
    seed("c23-ascii-first","C23","a long buffer of plain ASCII","every call first looks whether the whole buffer is ASCII, so splitting takes quadratic time",
      [(SC,'''	properties, count := charprops.LookupFirstChar(data)
''','''	if isASCII(data) && len(data) > 1 {
		// Only CR LF can be a cluster of more than one byte here.
		if data[0] == '\\r' && data[1] == '\\n' {
			return 2, data[:2], nil
		}
		return 1, data[:1], nil
	}

	properties, count := charprops.LookupFirstChar(data)
'''),(SC,'''// ScanGraphemeClusters is''','''func isASCII(data []byte) bool {
	for _, b := range data {
		if b >= 0x80 {
			return false
		}
	}
	return true
}

// ScanGraphemeClusters is''')],FAR%'"a"')
    seed("c23-recompute","C23","a cluster of many combining marks","the state is recomputed from the start of the cluster at every character",
      [(SC,'''		split, nextState := state.Transition(prev, next)
''','''		split, _ := stateAfter(data[:count]).Transition(prev, next)
'''),(SC,'''		state = nextState
''',''),(SC,'''	state := machine.Begin(properties)
''',''),(SC,'''// ScanGraphemeClusters is''','''// stateAfter is the state of the machine after the given characters.
func stateAfter(data []byte) machine.State {
	prev, n := charprops.LookupFirstChar(data)
	state := machine.Begin(prev)
	for data = data[n:]; len(data) > 0; data = data[n:] {
		var next charprops.CharProperties
		next, n = charprops.LookupFirstChar(data)
		_, state = state.Transition(prev, next)
		prev = next
	}
	return state
}

// ScanGraphemeClusters is''')],LONG%('"\\u0301"','"\\u0301"'))
    seed("c23-tail-check","C23","a long buffer with no line break in it","after finding the boundary, the scan goes on to the end of the line to see whether it is followed by a malformed byte",
      [(SC,'''			// We've found the next split point, so we'll just return what
			// we have and then let the next call pick up from here.
''','''			// We've found the next split point, so we'll just return what
			// we have and then let the next call pick up from here, with
			// what follows on this line decoded already.
			for len(remain) > 0 && remain[0] != '\\n' {
				p, n := charprops.LookupFirstChar(remain)
				if n == 0 || p == charprops.Error {
					break
				}
				remain = remain[n:]
			}
''')],FAR%'"x"')
