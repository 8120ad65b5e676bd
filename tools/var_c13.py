US="textseg/internal/charprops/ucdparse/ucd_scan.go"
TS="textseg/internal/charprops/ucdparse/testdata_scan.go"
SCAN='''		if !sc.lineScan.Scan() {
			if err := sc.lineScan.Err(); err != nil {
				return Entry{}, err
			}
			return Entry{}, io.EOF
		}
'''
TSCAN=SCAN.replace('Entry{}','TestDataEntry{}')
START='''		startInt, err := strconv.ParseUint(string(startHex), 16, 32)
		if err != nil {
			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)
		}
		if startInt > unicode.MaxRune {
			return Entry{}, fmt.Errorf("invalid start of character range %q: not a Unicode code point", startHex)
		}
		start = rune(startInt)
'''
END='''			endInt, err := strconv.ParseUint(string(endHex), 16, 32)
			if err != nil {
				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)
			}
			if endInt > unicode.MaxRune {
				return Entry{}, fmt.Errorf("invalid end of character range %q: not a Unicode code point", endHex)
			}
			end = rune(endInt)
'''
TP='''				charInt, err := strconv.ParseUint(charHexStr, 16, 32)
				if err != nil || charInt > unicode.MaxRune {
					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
				}
'''
HELP='''
func parseCodePoint(s []byte) (rune, error) {
	v, err := strconv.ParseUint(string(s), 16, 32)
	if err != nil {
		return 0, err
	}
	if v > unicode.MaxRune {
		return 0, fmt.Errorf("%q is not a code point", s)
	}
	return rune(v), nil
}
'''
HS='''		start, err := parseCodePoint(startHex)
		if err != nil {
			return Entry{}, fmt.Errorf("invalid start of character range %q: %w", startHex, err)
		}
'''
HE='''			if end, err = parseCodePoint(endHex); err != nil {
				return Entry{}, fmt.Errorf("invalid end of character range %q: %w", endHex, err)
			}
'''
GOOD={
 'helper':('C13 C11',[(US,START,HS),(US,END,HE),(US,'		var start, end rune\n','		var end rune\n'),(US,None,HELP)]),
 'helper64':('C13',[(US,START,HS),(US,END,HE),(US,'		var start, end rune\n','		var end rune\n'),(US,None,HELP.replace('16, 32','16, 64'))]),
 'helper31':('C13',[(US,START,HS),(US,END,HE),(US,'		var start, end rune\n','		var end rune\n'),(US,None,HELP.replace('16, 32','16, 21'))]),
 'helperrune':('C13',[(US,START,HS),(US,END,HE),(US,'		var start, end rune\n','		var end rune\n'),(US,None,HELP.replace('16, 32','16, 31').replace('v > unicode.MaxRune','rune(v) > unicode.MaxRune'))]),
 'validrune':('C13',[(TS,'err != nil || charInt > unicode.MaxRune','err != nil || charInt > utf8.MaxRune'),(TS,'	"unicode"\n','')]),
 'line':('C13 C11',[(US,SCAN,'''		raw, err := sc.nextLine()
		if err != nil {
			return Entry{}, err
		}
'''),(US,'		raw := sc.lineScan.Bytes()\n',''),(US,None,'''
func (sc Scanner) nextLine() ([]byte, error) {
	if sc.lineScan.Scan() {
		return sc.lineScan.Bytes(), nil
	}
	if err := sc.lineScan.Err(); err != nil {
		return nil, err
	}
	return nil, io.EOF
}
''')]),
 'forscan':('C13 C11',[(US,'	for {\n'+SCAN,'	for sc.lineScan.Scan() {\n'),(US,'			Fields: Fields(fieldsRaw),\n		}, nil\n	}\n','			Fields: Fields(fieldsRaw),\n		}, nil\n	}\n	if err := sc.lineScan.Err(); err != nil {\n		return Entry{}, err\n	}\n	return Entry{}, io.EOF\n')]),
 'errvar':('C13',[(US,SCAN,'''		if !sc.lineScan.Scan() {
			err := sc.lineScan.Err()
			if err == nil {
				err = io.EOF
			}
			return Entry{}, err
		}
''')]),
 'text':('C13',[(US,'		raw := sc.lineScan.Bytes()\n','		raw := []byte(sc.lineScan.Text())\n')]),
 'buffer':('C13 C11',[(US,'''	return Scanner{
		lineScan: bufio.NewScanner(r),
	}
''','''	ls := bufio.NewScanner(r)
	ls.Buffer(nil, 1<<20)
	return Scanner{lineScan: ls}
''')]),
 'reader':('C13 C11',[(US,'	lineScan *bufio.Scanner\n','	lines *bufio.Reader\n'),(US,'		lineScan: bufio.NewScanner(r),\n','		lines: bufio.NewReader(r),\n'),(US,SCAN+'		raw := sc.lineScan.Bytes()\n','''		raw, err := sc.lines.ReadBytes('\\n')
		if err != nil && (err != io.EOF || len(raw) == 0) {
			return Entry{}, err
		}
''')]),
 'wrap':('C13 C11',[(US,'				return Entry{}, err\n			}\n			return Entry{}, io.EOF','				return Entry{}, fmt.Errorf("reading line: %w", err)\n			}\n			return Entry{}, io.EOF')]),
 'trimearly':('C13',[(US,'		raw, _, _ = bytes.Cut(raw, commentMarker)\n','		if i := bytes.IndexByte(raw, \'#\'); i >= 0 {\n			raw = raw[:i]\n		}\n')]),
 'cutindex':('C13',[(US,'''		rng, fieldsRaw, ok := bytes.Cut(raw, fieldSeparator)
		if !ok {
			continue // Not a data line, then. We'll ignore it.
		}
''','''		sep := bytes.Index(raw, fieldSeparator)
		if sep < 0 {
			continue // Not a data line, then. We'll ignore it.
		}
		rng, fieldsRaw := raw[:sep], raw[sep+len(fieldSeparator):]
''')]),
 'skipblank':('C13',[(US,'		rng, fieldsRaw, ok :=','		if len(bytes.TrimSpace(raw)) == 0 {\n			continue\n		}\n		rng, fieldsRaw, ok :=')]),
 'ordered':('C13',[(US,'		return Entry{\n			Start:','		if end < start {\n			return Entry{}, fmt.Errorf("range %q ends before it starts", rng)\n		}\n		return Entry{\n			Start:')]),
 'parseentry':('C13 C11',[(US,'		raw, _, _ = bytes.Cut(raw, commentMarker)\n','		entry, ok, err := parseLine(raw)\n		if err != nil {\n			return Entry{}, err\n		}\n		if ok {\n			return entry, nil\n		}\n	}\n}\n\nfunc parseLine(raw []byte) (Entry, bool, error) {\n		raw, _, _ = bytes.Cut(raw, commentMarker)\n'),(US,"			continue // Not a data line, then. We'll ignore it.",'			return Entry{}, false, nil'),
    (US,START+'		if isRange {\n'+END+'''		} else {
			end = start
		}
		return Entry{
			Start:  start,
			End:    end + 1,
			Fields: Fields(fieldsRaw),
		}, nil
	}
}
''',START.replace('Entry{},','Entry{}, false,')+'		if isRange {\n'+END.replace('Entry{},','Entry{}, false,')+'''		} else {
			end = start
		}
		return Entry{
			Start:  start,
			End:    end + 1,
			Fields: Fields(fieldsRaw),
		}, true, nil
}
''')]),
 'tdhelper':('C13',[(TS,TP,'''				charInt, err := parseChar(charHexStr)
				if err != nil {
					return TestDataEntry{}, err
				}
'''),(TS,None,'''
func parseChar(s string) (rune, error) {
	v, err := strconv.ParseInt(s, 16, 32)
	if err != nil || v < 0 || v > unicode.MaxRune || s[0] == '+' || s[0] == '-' {
		return 0, fmt.Errorf("invalid character reference %q", s)
	}
	return rune(v), nil
}
''')]) if False else ('C13',[(TS,TP,'''				charInt, err := parseChar(charHexStr)
				if err != nil {
					return TestDataEntry{}, err
				}
'''),(TS,None,'''
func parseChar(s string) (rune, error) {
	v, err := strconv.ParseUint(s, 16, 32)
	if err != nil || v > unicode.MaxRune {
		return 0, fmt.Errorf("invalid character reference %q", s)
	}
	return rune(v), nil
}
''')]),
 'tdappend':('C13',[(TS,'''				buf := make([]byte, 4)
				n := utf8.EncodeRune(buf, rune(charInt))
				buf = buf[:n]
''','''				buf := utf8.AppendRune(nil, rune(charInt))
''')]),
 'tdsplitseq':('C13',[(TS,'			for _, charHex := range charsHex {','			for i := 0; i < len(charsHex); i++ {\n				charHex := charsHex[i]')]),
 'namedresult':('C13',[(US,'func (sc Scanner) NextEntry() (Entry, error) {','func (sc Scanner) NextEntry() (entry Entry, err error) {'),(US,'startInt, err := strconv','startInt, perr := strconv'),(US,'''		if err != nil {
			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)''','''		if perr != nil {
			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, perr)''')]),
}
GOOD.update({
 'splitn':('C13',[(US,'		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n','		parts := bytes.SplitN(rng, rangeSeparator, 2)\n		isRange := len(parts) == 2\n		startHex := parts[0]\n		var endHex []byte\n		if isRange {\n			endHex = parts[1]\n		}\n')]),
 'splitlen':('C13',[(US,'		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n','		parts := bytes.Split(rng, rangeSeparator)\n		if len(parts) > 2 {\n			return Entry{}, fmt.Errorf("invalid character range %q", rng)\n		}\n		startHex, endHex, isRange := parts[0], parts[len(parts)-1], len(parts) > 1\n')]),
 'strings':('C13',[(US,'		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n','		startHex, endHex, isRange := strings.Cut(string(rng), "..")\n'),(US,'	"strconv"\n','	"strconv"\n	"strings"\n'),(US,'string(startHex)','startHex'),(US,'string(endHex)','endHex')]),
 'index':('C13',[(US,'		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n','		startHex, endHex := rng, rng\n		dots := bytes.Index(rng, rangeSeparator)\n		isRange := dots >= 0\n		if isRange {\n			startHex, endHex = rng[:dots], rng[dots+2:]\n		}\n')]),
 'contains':('C13',[(US,'		rng, fieldsRaw, ok :=','		if !bytes.Contains(raw, fieldSeparator) {\n			continue\n		}\n		rng, fieldsRaw, ok :=')]),
 'firsthash':('C13',[(US,'		raw, _, _ = bytes.Cut(raw, commentMarker)\n','		if bytes.HasPrefix(raw, commentMarker) {\n			continue\n		}\n		raw, _, _ = bytes.Cut(raw, commentMarker)\n')]),
 'firsthash2':('C13',[(US,'		raw, _, _ = bytes.Cut(raw, commentMarker)\n',"		if len(raw) > 0 && raw[0] == '#' {\n			continue\n		}\n		raw, _, _ = bytes.Cut(raw, commentMarker)\n")]),
 'emptymsg':('C13',[(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.TrimSpace(rng)\n		if len(rng) == 0 {\n			return Entry{}, fmt.Errorf("no code point in %q", raw)\n		}\n')]),
 'tdseq':('C13',[(TS,'		wantSegs := bytes.Split(raw, splitMarker)\n',''),(TS,'for _, wantSeg := range wantSegs {','for wantSeg := range bytes.SplitSeq(raw, splitMarker) {'),(TS,'			charsHex := bytes.Split(wantSeg, nonsplitMarker)\n',''),(TS,'for _, charHex := range charsHex {','for charHex := range bytes.SplitSeq(wantSeg, nonsplitMarker) {')]),
 'tdempty':('C13',[(TS,'				if len(charHexStr) == 0 {','				if charHexStr == "" {')]),
 'tdseg':('C13',[(TS,'			var currentSeg []byte\n','			currentSeg, err := parseSeg(charsHex)\n			if err != nil {\n				return TestDataEntry{}, err\n			}\n			entry.Input = append(entry.Input, currentSeg...)\n'),(TS,"""			for _, charHex := range charsHex {
				charHexStr := string(bytes.TrimSpace(charHex))
				if len(charHexStr) == 0 {
					continue
				}
"""+TP+"""				buf := make([]byte, 4)
				n := utf8.EncodeRune(buf, rune(charInt))
				buf = buf[:n]
				entry.Input = append(entry.Input, buf...)
				currentSeg = append(currentSeg, buf...)
			}
""",""),(TS,None,"""
func parseSeg(charsHex [][]byte) ([]byte, error) {
	var currentSeg []byte
	for _, charHex := range charsHex {
		charHexStr := string(bytes.TrimSpace(charHex))
		if len(charHexStr) == 0 {
			continue
		}
"""+TP.replace("TestDataEntry{}","nil")+"""		currentSeg = utf8.AppendRune(currentSeg, rune(charInt))
	}
	return currentSeg, nil
}
""")]),
})
BAD={
 'tdlen':('C13',[(TS,'				if len(charHexStr) == 0 {','				if len(charHexStr) < 4 {')]),
 'tdprefix':('C13',[(TS,'				if len(charHexStr) == 0 {','				if len(charHexStr) == 0 || strings.HasPrefix(charHexStr, "?") {'),(TS,'	"strconv"\n','	"strconv"\n	"strings"\n')]),
 'at':('C13',[(US,'		raw, _, _ = bytes.Cut(raw, commentMarker)\n',"		if len(raw) > 0 && raw[0] > 'F' {\n			continue\n		}\n		raw, _, _ = bytes.Cut(raw, commentMarker)\n")]),
 'isrange3':('C13',[(US,'if isRange {','if isRange && len(endHex) >= 4 {')]),
 'noerr':('C13',[(US,SCAN,'		if !sc.lineScan.Scan() {\n			return Entry{}, io.EOF\n		}\n')]),
 'noerrtd':('C13',[(TS,TSCAN,'		if !sc.lineScan.Scan() {\n			return TestDataEntry{}, io.EOF\n		}\n')]),
 'toolong':('C13',[(US,SCAN,SCAN.replace('err != nil {','err != nil && err != bufio.ErrTooLong {'))]),
 'isunexp':('C13',[(US,SCAN,SCAN.replace('err != nil {','err != nil && err != io.ErrUnexpectedEOF {'))]),
 'errok':('C13',[(US,SCAN,SCAN.replace('return Entry{}, err','return Entry{}, nil'))]),
 'emptyend':('C13',[(US,'		raw, _, _ = bytes.Cut(raw, commentMarker)\n','		raw, _, _ = bytes.Cut(raw, commentMarker)\n		if bytes.Equal(raw, []byte("EOF")) {\n			return Entry{}, io.EOF\n		}\n')]),
 'skipbadstart':('C13',[(US,'			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)','			continue')]),
 'eofbad':('C13',[(US,'			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)','			return Entry{}, io.EOF')]),
 'zerobad':('C13',[(US,'				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)','				endInt = startInt')]),
 'parseint':('C13',[(US,'startInt, err := strconv.ParseUint','startInt, err := strconv.ParseInt')]),
 'base0':('C13',[(US,'strconv.ParseUint(string(endHex), 16, 32)','strconv.ParseUint(string(endHex), 0, 32)')]),
 'base10':('C13',[(US,'strconv.ParseUint(string(endHex), 16, 32)','strconv.ParseUint(string(endHex), 10, 32)')]),
 'norange':('C13',[(US,'''			if endInt > unicode.MaxRune {
				return Entry{}, fmt.Errorf("invalid end of character range %q: not a Unicode code point", endHex)
			}
''','')]),
 'offrange':('C13',[(US,'if endInt > unicode.MaxRune','if endInt > unicode.MaxRune+1')]),
 'lossy':('C13',[(US,'strconv.ParseUint(string(startHex), 16, 32)','strconv.ParseUint(string(startHex), 16, 64)'),(US,'if startInt > unicode.MaxRune','if uint32(startInt) > unicode.MaxRune')]),
 'fields':('C13',[(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.Fields(rng)[0]\n')]),
 'trimset':('C13',[(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.Trim(rng, " \\tU+")\n')]),
 'skipempty':('C13',[(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.TrimSpace(rng)\n		if len(rng) == 0 {\n			continue\n		}\n')]),
 'skiplong':('C13',[(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.TrimSpace(rng)\n		if len(rng) > 14 {\n			continue // cannot be a code point\n		}\n')]),
 'skipnonhex':('C13',[(US,'		rng = bytes.TrimSpace(rng)\n','		rng = bytes.TrimSpace(rng)\n		if !isHex(rng[0]) {\n			continue\n		}\n'),(US,None,'\nfunc isHex(b byte) bool {\n	return b >= \'0\' && b <= \'9\' || b >= \'A\' && b <= \'F\'\n}\n')]),
 'skipsurr':('C13',[(US,'		start = rune(startInt)\n','		start = rune(startInt)\n		if start >= 0xd800 && start < 0xe000 {\n			continue\n		}\n')]) if False else ('C13',[(US,'			return Entry{}, fmt.Errorf("invalid start of character range %q: not a Unicode code point", startHex)','			continue')]),
 'tdskip':('C13',[(TS,'	"fmt"\n',''),(TS,'					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)','					continue')]),
 'tdmax':('C13',[(TS,'	"unicode"\n',''),(TS,'if err != nil || charInt > unicode.MaxRune {','if err != nil {')]),
 'tdand':('C13',[(TS,'if err != nil || charInt > unicode.MaxRune {','if err != nil && charInt > unicode.MaxRune {')]),
 'readerprefix':('C13',[(US,'	lineScan *bufio.Scanner\n','	lines *bufio.Reader\n'),(US,'		lineScan: bufio.NewScanner(r),\n','		lines: bufio.NewReader(r),\n'),(US,SCAN+'		raw := sc.lineScan.Bytes()\n','''		raw, _, err := sc.lines.ReadLine()
		if err != nil {
			return Entry{}, err
		}
''')]),
 'readereof':('C13',[(US,'	lineScan *bufio.Scanner\n','	lines *bufio.Reader\n'),(US,'		lineScan: bufio.NewScanner(r),\n','		lines: bufio.NewReader(r),\n'),(US,SCAN+'		raw := sc.lineScan.Bytes()\n','''		raw, err := sc.lines.ReadBytes('\\n')
		if err != nil && len(raw) == 0 {
			return Entry{}, io.EOF
		}
''')]),
 'readerlost':('C13',[(US,'	lineScan *bufio.Scanner\n','	lines *bufio.Reader\n'),(US,'		lineScan: bufio.NewScanner(r),\n','		lines: bufio.NewReader(r),\n'),(US,SCAN+'		raw := sc.lineScan.Bytes()\n','''		raw, err := sc.lines.ReadBytes('\\n')
		if err != nil && len(raw) == 0 {
			return Entry{}, err
		}
''')]),
 'dropunterminated':('C13',[(US,'''		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)
''','''		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)
		if isRange && len(endHex) == 0 {
			isRange = false
		}
''')]),
 'splitfunc':('C13',[(US,'''	return Scanner{
		lineScan: bufio.NewScanner(r),
	}
''','''	ls := bufio.NewScanner(r)
	ls.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if len(data) > 4096 {
			return 4096, nil, nil
		}
		return bufio.ScanLines(data, atEOF)
	})
	return Scanner{lineScan: ls}
''')]),
 'lastdots':('C13',[(US,'		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n','		parts := bytes.Split(rng, rangeSeparator)\n		startHex, endHex, isRange := parts[0], parts[len(parts)-1], len(parts) > 1\n')]),
}
