from seedlib import seed
G = "textseg/grapheme_clusters.go"
L = "textseg/internal/charprops/property_table.go"
M = "textseg/internal/machine/state.go"
HDR = 'package textseg\n\nimport (\n\t"bytes"\n\t"testing"\n)\n\nvar _ = bytes.Equal\n\n'

seed("c18-breaks-list", "C18", "a cluster of many characters", "the positions of the characters are collected on the heap, so that memory grows with the cluster",
 [(G, "	prev := properties\n	for {\n", "	prev := properties\n	offsets := make([]int, 0, 8) // where the characters of the cluster begin\n	for {\n"),
  (G, "		count += moreCount\n", "		offsets = append(offsets, count)\n		count = offsets[len(offsets)-1] + moreCount\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := append([]byte("e"), bytes.Repeat([]byte("\\u0301"), 5000)...)\n\tif n := testing.AllocsPerRun(10, func() { ScanGraphemeClusters(in, true) }); n > 0 {\n\t\tt.Fatal(n)\n\t}\n}\n')

seed("c18-escaping-properties", "C18", "any call whose input goes through the second lookup", "a variable moves to the heap because a closure keeps its address",
 [(M, "	nextState := s.nextState(next)\n", "	nextState := s.nextState(next)\n	trace := &transition{s, nextState, prev, next}\n	defer trace.done()\n"),
  (M, "func (s State) nextState(", "// transition is one step of the machine.\ntype transition struct {\n	from, to   State\n	prev, next charprops.CharProperties\n}\n\nvar observer func(*transition)\n\nfunc (t *transition) done() {\n	if observer != nil {\n		observer(t)\n	}\n}\n\nfunc (s State) nextState(")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := append([]byte("e"), bytes.Repeat([]byte("\\u0301"), 5000)...)\n\tif n := testing.AllocsPerRun(10, func() { ScanGraphemeClusters(in, true) }); n > 0 {\n\t\tt.Fatal(n)\n\t}\n}\n')

seed("c18-recursive-scan", "C18", "a cluster of very many characters", "the scan recurses once per character, so that the stack grows with the cluster",
 [(G, "		count += moreCount\n		state = nextState\n		prev = next\n	}\n}\n", "		return scanFrom(data, remain, atEOF, count+moreCount, nextState, next)\n	}\n}\n"),
  (G, "	state := machine.Begin(properties)\n	prev := properties\n	for {\n", "	return scanFrom(data, remain, atEOF, count, machine.Begin(properties), properties)\n}\n\n// scanFrom continues a cluster of which the first count bytes are known.\nfunc scanFrom(data, remain []byte, atEOF bool, count int, state machine.State, prev charprops.CharProperties) (int, []byte, error) {\n	{\n")],
 'package textseg\n\nimport (\n\t"bytes"\n\t"runtime/debug"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tin := append([]byte("e"), bytes.Repeat([]byte("\\u0301"), 1000000)...)\n\tdebug.SetMaxStack(1 << 20)\n\tif adv, _, _ := ScanGraphemeClusters(in, true); adv != len(in) {\n\t\tt.Fatal(adv)\n\t}\n}\n')
