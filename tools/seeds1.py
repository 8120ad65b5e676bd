from seedlib import seed
G = "textseg/grapheme_clusters.go"
L = "textseg/internal/charprops/property_table.go"
M = "textseg/internal/machine/state.go"
HDR = 'package textseg\n\nimport (\n\t"bytes"\n\t"testing"\n)\n\nvar _ = bytes.Equal\n\n'

seed("c01-long-cluster-cap", "C01", "a cluster of more than 4096 bytes", "a long cluster is split in the middle although no rule has a boundary there",
 [(G, "		count += moreCount\n", "		count += moreCount\n		if count >= maxClusterBytes {\n			// Don't make callers buffer without limit.\n			return count, data[:count], nil\n		}\n"),
  (G, "// ScanGraphemeClusters is a split function for", "const maxClusterBytes = 4096\n\n// ScanGraphemeClusters is a split function for")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := append([]byte("e"), bytes.Repeat([]byte("\\u0301"), 5000)...)\n\tadv, _, _ := ScanGraphemeClusters(in, true)\n\tif adv != len(in) {\n\t\tt.Fatalf("advance %d of %d", adv, len(in))\n\t}\n}\n')

seed("c01-ri-after-prepend", "C01", "a flag sequence directly after a prepended concatenation mark", "after Prepend, the first regional indicator is not counted, so that a flag's second half is split off",
 [(M, "		case charprops.GCBRegionalIndicator:\n			return StateAwaitEmojiFlag\n", "		case charprops.GCBRegionalIndicator:\n			return StateAwaitEmojiFlag\n		case charprops.GCBPrepend:\n			// Already joins with whatever follows.\n			return StateGB11AfterZWJ\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := []byte("\\u0600\\U0001F1E9\\U0001F1EA!")\n\tadv, _, _ := ScanGraphemeClusters(in, true)\n\tif adv != len(in)-1 {\n\t\tt.Fatalf("advance %d of %d", adv, len(in)-1)\n\t}\n}\n')

seed("c02-swallow-stray-tail", "C02", "a single stray byte right at the end of the buffer after a cluster", "the stray byte is skipped without being part of any token",
 [(G, "			// and let the next call deal with that.\n			return count, data[:count], nil\n", "			// and let the next call deal with that.\n			if len(remain) == moreCount && atEOF {\n				// Nothing else left to report then.\n				return len(data), data[:count], nil\n			}\n			return count, data[:count], nil\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := []byte("ab\\xff")\n\tn := 0\n\tfor len(in) > 0 {\n\t\tadv, tok, err := ScanGraphemeClusters(in, true)\n\t\tif err != nil || adv == 0 || adv != len(tok) {\n\t\t\tt.Fatalf("advance %d token %q", adv, tok)\n\t\t}\n\t\tin = in[adv:]\n\t\tn++\n\t}\n\tif n != 3 {\n\t\tt.Fatal(n)\n\t}\n}\n')

seed("c03-ideograph-shortcut", "C03", "a prepended concatenation mark before an ideograph of which only the first bytes are buffered yet", "the mark is reported alone although with more data the same cluster also holds the ideograph",
 [(G, "				return count, data[:count], nil\n			}\n			return 0, nil, nil\n		}\n		remain =", "				return count, data[:count], nil\n			}\n			if remain[0] >= 0xE4 && remain[0] <= 0xE9 {\n				// CJK ideographs never join with what precedes them, so\n				// there is no need to wait for the rest of it.\n				return count, data[:count], nil\n			}\n			return 0, nil, nil\n		}\n		remain =")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := []byte("\\u0600\\u4e00")\n\tadv, _, _ := ScanGraphemeClusters(in[:3], false)\n\tadv2, _, _ := ScanGraphemeClusters(in, true)\n\tif adv != 0 && adv != adv2 {\n\t\tt.Fatal(adv, adv2)\n\t}\n}\n')

seed("c04-history-overflow", "C04", "a cluster of more than 33 characters", "the scan panics with an index out of range",
 [(G, "	state := machine.Begin(properties)\n	prev := properties\n", "	state := machine.Begin(properties)\n	prev := properties\n	var history [32]charprops.CharProperties // what the cluster consists of so far\n	chars := 0\n"),
  (G, "		state = nextState\n		prev = next\n", "		state = nextState\n		history[chars] = next\n		prev = history[chars]\n		chars++\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := append([]byte("e"), bytes.Repeat([]byte("\\u0301"), 50)...)\n\tadv, _, err := ScanGraphemeClusters(in, true)\n\tif adv != len(in) || err != nil {\n\t\tt.Fatal(adv, err)\n\t}\n}\n')

seed("c05-truncated-at-eof", "C05", "input that ends with the first three bytes of a four-byte character", "at end of input no token is reported, so the bytes are never delivered",
 [(G, "		if len(data) > count && atEOF {\n			// If", "		if len(data) < 3 && atEOF {\n			// If")],
 HDR + 'func TestDemo(t *testing.T) {\n\tadv, tok, _ := ScanGraphemeClusters([]byte("\\xf0\\x9f\\x98"), true)\n\tif adv < 1 || len(tok) != adv {\n\t\tt.Fatal(adv, tok)\n\t}\n}\n')

seed("c06-last-continuation", "C06", "a four-byte lead with two continuation bytes followed by something else", "the malformed sequence and the following byte are taken for one character",
 [(L, "	for i := 1; i < length; i++ {\n", "	for i := 1; i < min(length, 3); i++ {\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tadv, _, _ := ScanGraphemeClusters([]byte("\\xf0\\x9f\\x98A"), true)\n\tif adv != 1 {\n\t\tt.Fatal(adv)\n\t}\n}\n')

seed("c07-resume-state", "C07", "a caller that reuses its buffer for other text after a request for more data", "the state saved by one call is used by another, which skips over bytes it has not seen",
 [(G, "	state := machine.Begin(properties)\n	prev := properties\n", "	state := machine.Begin(properties)\n	prev := properties\n	if pending.start == &data[0] && pending.count < len(data) && pending.first == data[0] {\n		// Pick up where the previous call ran out of data.\n		count, state, prev = pending.count, pending.state, pending.prev\n		remain = data[count:]\n	}\n	pending.start = nil\n"),
  (G, "			// grapheme cluster.\n			return 0, nil, nil\n", "			// grapheme cluster.\n			pending.start, pending.first, pending.count, pending.state, pending.prev = &data[0], data[0], count, state, prev\n			return 0, nil, nil\n"),
  (G, "// ScanGraphemeClusters is a split function for", "// pending remembers how far an incomplete cluster has been scanned.\nvar pending struct {\n	start *byte\n	first byte\n	count int\n	state machine.State\n	prev  charprops.CharProperties\n}\n\n// ScanGraphemeClusters is a split function for")],
 HDR + 'func TestDemo(t *testing.T) {\n\tbuf := make([]byte, 8)\n\tcopy(buf, "e\\u0301\\u0301")\n\tScanGraphemeClusters(buf[:5], false)\n\tcopy(buf, "eabcdefg")\n\tadv, _, _ := ScanGraphemeClusters(buf, true)\n\tif adv != 1 {\n\t\tt.Fatal(adv)\n\t}\n}\n')

seed("c17-wait-for-four", "C17", "a reader that delivers little at a time, with the next character complete but fewer than four bytes buffered", "a decided cluster is withheld until more data arrives",
 [(G, "		next, moreCount := charprops.LookupFirstChar(remain)\n", "		if len(remain) < 2 && !atEOF {\n			// Might be an incomplete sequence.\n			return 0, nil, nil\n		}\n		next, moreCount := charprops.LookupFirstChar(remain)\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tadv, _, _ := ScanGraphemeClusters([]byte("ab"), false)\n\tif adv != 1 {\n\t\tt.Fatal(adv)\n\t}\n}\n')

seed("c22-debug-env", "C22", "the environment variable TEXTSEG_DEBUG set when the program starts", "the library reads the environment at import time and writes to standard error",
 [(L, "var zeroProperties CharProperties\n", "var zeroProperties CharProperties\n\n// debugging enables reports about malformed input.\nvar debugging = os.Getenv(\"TEXTSEG_DEBUG\") != \"\"\n"),
  (L, "package charprops\n", "package charprops\n\nimport \"os\"\n"),
  (L, "		// Invalid initial byte.\n", "		// Invalid initial byte.\n		if debugging {\n			os.Stderr.WriteString(\"textseg: invalid initial byte\\n\")\n		}\n")],
 'package textseg\n\nimport (\n\t"os"\n\t"os/exec"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tif os.Getenv("DEMO_CHILD") != "" {\n\t\tScanGraphemeClusters([]byte("\\xff"), true)\n\t\treturn\n\t}\n\tcmd := exec.Command(os.Args[0], "-test.run=TestDemo")\n\tcmd.Env = append(os.Environ(), "DEMO_CHILD=1", "TEXTSEG_DEBUG=1")\n\tvar errs errBuf\n\tcmd.Stderr = &errs\n\tcmd.Run()\n\tif len(errs) > 0 {\n\t\tt.Fatalf("wrote %q", string(errs))\n\t}\n}\n\ntype errBuf []byte\n\nfunc (b *errBuf) Write(p []byte) (int, error) { *b = append(*b, p...); return len(p), nil }\n')
