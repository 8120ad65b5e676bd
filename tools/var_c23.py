import runpy,os
_c=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"var_core.py"))
SC="textseg/grapheme_clusters.go"
GOOD={n:("C23",v[1]) for n,v in _c["GOOD"].items()}
BAD={
 "valid-first":("C23",[(SC,'import (\n','import (\n\t"unicode/utf8"\n'),(SC,'''	state := machine''','''	if !utf8.Valid(data) && len(data) == 0 {
		return 0, nil, nil
	}
	state := machine''')]),
 "string-per-pass":("C23",[(SC,'''		remain = remain[moreCount:]
''','''		remain = []byte(string(remain))[moreCount:]
''')]),
 "map-key":("C23",[(SC,'''	state := machine''','''	if n := known[string(data)]; n > 0 && atEOF {
		return n, data[:n], nil
	}
	state := machine'''),(SC,'// ScanG','''var known = map[string]int{"\\r\\n": 2}

// ScanG''')]),
 "rune-count":("C23",[(SC,'import (\n','import (\n\t"unicode/utf8"\n'),(SC,'''	state := machine''','''	if utf8.RuneCount(data) == 0 {
		return 0, nil, nil
	}
	state := machine''')]),
 "index-byte":("C23",[(SC,'import (\n','import (\n\t"bytes"\n'),(SC,'''	state := machine''','''	if i := bytes.IndexByte(data, 0xff); i == 0 {
		return 1, data[:1], nil
	}
	state := machine''')]),
}
