GT="textseg/internal/charprops/gentable/generate.go"
UP="textseg/internal/charprops/ucdparse/ucd_scan.go"
GCB='''		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
	}
	for {
		entry, err := emojiSc'''
EMO='''		if prop == 0 {
			continue
		}
		for r := entry.Start; r < entry.End; r++ {
			tip.Set(r, uint8(prop))
		}
'''
INCB='''		for r := entry.Start; r < entry.End; r++ {
			tip.BitwiseOr(r, uint8(prop))
		}
'''
SET='''	rawProps := t.ensureProps(r)
	if v == 4 && *rawProps != 0 {
		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
	}
	*rawProps = v
'''
OR='''	rawProps := t.ensureProps(r)
	*rawProps |= propMask
'''
def g(*e): return ("C25",[(GT,a,b) for a,b in e])
def u(*e): return ("C25",[(UP,a,b) for a,b in e])
RNG="		for r := entry.Start; r < entry.End; r++ {\n"
def allr(f):
    def fix(r):
        p=r+"/"+GT; s=open(p).read(); assert s.count(RNG)==3
        open(p,"w").write(f(s))
    return ("C25",[fix])
HELPER='''
func (t *treeInProgress) apply(e ucdparse.Entry, f func(r rune)) {
	for r := e.Start; r < e.End; r++ {
		f(r)
	}
}
'''
NEWT="func newTreeInProgress() *treeInProgress {\n"
ENTRY="type Entry struct {\n"
ALLR='''
func (e Entry) Runes() iter.Seq[rune] {
	return func(yield func(rune) bool) {
		for r := e.Start; r < e.End; r++ {
			if !yield(r) {
				return
			}
		}
	}
}
'''
GOOD={
 "incl":("C25",[lambda r: [open(r+"/"+GT,"w").write(s) for s in [open(r+"/"+GT).read().replace("r < entry.End; r++","r <= entry.End-1; r++")]]]),
 "neq":allr(lambda s:s.replace("r < entry.End","r != entry.End")),
 "rangeint":allr(lambda s:s.replace(RNG,"		for i := range entry.End - entry.Start {\n			r := entry.Start + i\n")),
 "while":allr(lambda s:s.replace(RNG,"		r := entry.Start\n		for {\n			if r >= entry.End {\n				break\n			}\n").replace("tip.Set(r, uint8(prop))\n","tip.Set(r, uint8(prop))\n			r++\n").replace("tip.BitwiseOr(r, uint8(prop))\n","tip.BitwiseOr(r, uint8(prop))\n			r++\n")),
 "down":allr(lambda s:s.replace(RNG,"		for r := entry.End - 1; r >= entry.Start; r-- {\n")),
 "cnt":allr(lambda s:s.replace(RNG,"		n := int(entry.End - entry.Start)\n		for i := 0; i < n; i++ {\n			r := entry.Start + rune(i)\n")),
 "helper":allr(lambda s:s.replace(RNG+"			tip.Set(r, uint8(prop))\n		}\n","		tip.apply(entry, func(r rune) { tip.Set(r, uint8(prop)) })\n").replace(RNG+"			tip.BitwiseOr(r, uint8(prop))\n		}\n","		tip.apply(entry, func(r rune) { tip.BitwiseOr(r, uint8(prop)) })\n")+HELPER),
 "iter":("C25",[lambda r:[open(r+"/"+GT,"w").write(s) for s in [open(r+"/"+GT).read().replace(RNG,"		for r := range entry.Runes() {\n")]],(UP,None,ALLR)]),
 "inclend":("C25",[(UP,"			End:    end + 1,\n","			End:    end,\n"),lambda r:[open(r+"/"+GT,"w").write(s) for s in [open(r+"/"+GT).read().replace("r < entry.End","r <= entry.End")]]]),
 "surr":g((INCB,INCB.replace("{\n			tip","{\n			if r >= 0xD800 && r <= 0xDFFF {\n				continue\n			}\n			tip"))),
 "surrsplit":g((INCB,'''		for r := entry.Start; r < entry.End; r++ {
			if r == 0xD800 {
				r = 0xDFFF
				continue
			}
			tip.BitwiseOr(r, uint8(prop))
		}
''')),
 "setor":g((OR,"	p := t.ensureProps(r)\n	*p = *p | propMask\n")),
 "getset":g((OR,"	p := t.ensureProps(r)\n	v := *p\n	v |= propMask\n	*p = v\n")),
 "skipzero":g((GCB,"		if prop == 0 {\n			continue\n		}\n"+GCB)),
 "skipzeroif":g((INCB,"		if prop != 0 {\n"+INCB+"		}\n")),
 "or-nz":g((OR,"	if propMask == 0 {\n		return\n	}\n"+OR)),
 "one":g((INCB,'''		if entry.End-entry.Start == 1 {
			tip.BitwiseOr(entry.Start, uint8(prop))
			continue
		}
'''+INCB)),
 "firstsep":g((INCB,'''		tip.BitwiseOr(entry.Start, uint8(prop))
		for r := entry.Start + 1; r < entry.End; r++ {
			tip.BitwiseOr(r, uint8(prop))
		}
''')),
 "lastsep":g((INCB,'''		for r := entry.Start; r < entry.End-1; r++ {
			tip.BitwiseOr(r, uint8(prop))
		}
		tip.BitwiseOr(entry.End-1, uint8(prop))
''')),
 "switch":g(('''		if len(fields) < 2 || fields[0] != "InCB" {
			continue // irrelevant to our goals, then
		}
''','''		switch {
		case len(fields) < 2:
			continue
		case fields[0] != "InCB":
			continue
		}
''')),
 "asciifirst":g((INCB,'''		for r := entry.Start; r < entry.End; r++ {
			if r < 0x80 {
				tip.rawProps[r] |= uint8(prop)
				continue
			}
			tip.BitwiseOr(r, uint8(prop))
		}
''')),
 "same":g((SET,"	rawProps := t.ensureProps(r)\n	if *rawProps == v {\n		return\n	}\n"+SET.split("\n",1)[1])),
 "maxrune":g((INCB,INCB.replace("r < entry.End;","r < entry.End && r <= utf8.MaxRune;"))),
 "min":u(("			End:    end + 1,","			End:    min(end, unicode.MaxRune) + 1,")),
 "rev":u(("		start = rune(startInt)\n","		start = rune(startInt)\n")),
}
BAD={
 "last":allr(lambda s:s.replace("r < entry.End","r < entry.End-1")),
 "last1":g((INCB,INCB.replace("r < entry.End","r < entry.End-1"))),
 "past":g((INCB,INCB.replace("r < entry.End","r <= entry.End"))),
 "pastg":g((GCB,GCB.replace("r < entry.End","r <= entry.End"))),
 "first":g((INCB,INCB.replace("r := entry.Start","r := entry.Start + 1"))),
 "before":g((INCB,INCB.replace("r := entry.Start","r := entry.Start - 1"))),
 "step":g((INCB,INCB.replace("r++","r += 2"))),
 "astral":g((INCB,INCB.replace("{\n			tip","{\n			if r > 0x1FFFF {\n				continue\n			}\n			tip"))),
 "astralbrk":g((INCB,INCB.replace("r < entry.End;","r < entry.End && r < 0xE0000;"))),
 "bmp":u(("			End:    end + 1,","			End:    min(end, 0x1FFFF) + 1,")),
 "cap":g((INCB,INCB.replace("{\n			tip","{\n			if r-entry.Start >= 4096 {\n				break\n			}\n			tip"))),
 "capend":g((INCB,"		if entry.End-entry.Start > 0x1000 {\n			entry.End = entry.Start + 0x1000\n		}\n"+INCB)),
 "skipbig":g((INCB,"		if entry.End-entry.Start > 0x1000 {\n			continue\n		}\n"+INCB)),
 "endstart":u(("			end = rune(endInt)\n","			end = rune(endInt) - 1\n")),
 "endstart2":u(("			End:    end + 1,","			End:    end,")),
 "single":u(("			end = start\n","			end = start - 1\n")),
 "breakn":g((INCB,INCB+"		if prop == charprops.InCBLinker {\n			break\n		}\n")),
 "zwj":g((GCB,"		if prop == charprops.GCBZWJ {\n			continue\n		}\n"+GCB)),
 "skipname":g((GCB,"		if propName == \"Prepend\" {\n			continue\n		}\n"+GCB)),
 "mask":g((GCB,GCB.replace("uint8(prop)","uint8(prop)&0x07"))),
 "maskor":g((OR,"	rawProps := t.ensureProps(r)\n	*rawProps |= propMask & 0x1f\n")),
 "plain":g((OR,"	rawProps := t.ensureProps(r)\n	*rawProps = propMask\n")),
 "cond":g((OR,"	rawProps := t.ensureProps(r)\n	if *rawProps != 0 {\n		return\n	}\n	*rawProps |= propMask\n")),
 "condset":g((SET,"	rawProps := t.ensureProps(r)\n	if *rawProps != 0 {\n		return\n	}\n	*rawProps = v\n")),
 "onlynz":g((OR,"	rawProps := t.ensureProps(r)\n	if *rawProps == 0 {\n		return\n	}\n	*rawProps |= propMask\n")),
 "ascii":g((OR,"	if r < 0x80 {\n		return\n	}\n"+OR)),
 "noncharacters":g((OR,"	if r&0xFFFE == 0xFFFE {\n		return\n	}\n"+OR)),
 "priv":g((SET,"	if r >= 0xE0000 {\n		return\n	}\n"+SET)),
 "xor":g((OR,"	rawProps := t.ensureProps(r)\n	*rawProps ^= propMask\n")),
 "eofcount":g(('''		if prop == 0 {
			continue
		}
''','''		if prop == 0 {
			break
		}
''')),
 "skipline":u(("		rng = bytes.TrimSpace(rng)\n","		rng = bytes.TrimSpace(rng)\n		if len(rng) > 12 {\n			continue\n		}\n")),
 "swap":u(("			End:    end + 1,","			End:    max(start, end-1) + 1,")),
 "dotted":u(("		if isRange {\n","		if isRange && len(endHex) == len(startHex) {\n")),
 "valid":g(("	if !utf8.ValidRune(r) {\n","	if !utf8.ValidRune(r) || !unicode.IsGraphic(r) && r > 0xFFFF {\n"),('	"unicode/utf8"\n','	"unicode"\n	"unicode/utf8"\n')),
}
GCBLOOP="		prop := charprops.LookupGCBProperty(propName)\n"
INCBP="		prop := charprops.LookupInCBProperty(propName)\n"
BAD.update({
 "overlap":g((INCB,"		if entry.Start < prevEnd {\n			continue\n		}\n		prevEnd = entry.End\n"+INCB),("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	var prevEnd rune\n")),
 "seen":g((INCB,"		if seen[entry.Start] {\n			continue\n		}\n		seen[entry.Start] = true\n"+INCB),("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	seen := map[rune]bool{}\n")),
 "fields3":g(("		propName := fields[1]\n","		if len(fields) > 2 {\n			continue\n		}\n		propName := fields[1]\n")),
 "limit":g(("ucdparse.NewScanner(dcpFile)","ucdparse.NewScanner(io.LimitReader(dcpFile, 1<<20))")),
 "wrongfile":g(("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	defer dcpFile.Close()\n"),("	dcpSc := ucdparse.NewScanner(dcpFile)","	dcpSc := ucdparse.NewScanner(emojiFile)")),
 "breaksurr":g((INCB,INCB.replace("{\n			tip","{\n			if !utf8.ValidRune(r) {\n				break\n			}\n			tip"))),
 "hex":u(("		rng = bytes.TrimSpace(rng)\n","		rng = bytes.TrimSpace(rng)\n		if bytes.HasPrefix(rng, []byte(\"E0\")) {\n			continue\n		}\n")),
 "v4":g(("		panic(fmt.Sprintf(\"conflicting properties for U+%04X: already had %02x, but now have %02x\", r, *rawProps, v))\n","		return\n")),
 "lines":u(("type Scanner struct {\n	lineScan *bufio.Scanner\n}","type Scanner struct {\n	lineScan *bufio.Scanner\n	n        *int\n}"),("		lineScan: bufio.NewScanner(r),\n","		lineScan: bufio.NewScanner(r),\n		n:        new(int),\n"),("		raw := sc.lineScan.Bytes()\n","		*sc.n++\n		if *sc.n > 13000 {\n			return Entry{}, io.EOF\n		}\n		raw := sc.lineScan.Bytes()\n")),
 "lastlookup":g((INCB,INCB.replace("uint8(prop)","uint8(prop)>>1<<1"))),
 "emojirange":g((EMO,EMO.replace("		for r","		if entry.End-entry.Start > 0x800 {\n			entry.Start = entry.End - 0x800\n		}\n		for r"))),
 "order":("C25",[lambda r:[open(r+"/"+GT,"w").write(s) for s in [reorder(open(r+"/"+GT).read())]]]),
 "int16":g((INCB,"		for i := int16(0); i < int16(entry.End-entry.Start); i++ {\n			tip.BitwiseOr(entry.Start+rune(i), uint8(prop))\n		}\n")),
})
def reorder(s):
    i=s.index("	for {\n		entry, err := gpbSc"); j=s.index("	for {\n		entry, err := dcpSc"); k=s.index("	ret = tip.Compact()")
    return s[:i]+s[j:k]+s[i:j]+s[k:]
GOOD.update({
 "merge":g((INCB,'''		if prop == lastProp && entry.Start == last.End {
			last.End = entry.End
			continue
		}
		for r := last.Start; r < last.End; r++ {
			tip.BitwiseOr(r, uint8(lastProp))
		}
		last, lastProp = entry, prop
'''),("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	var last ucdparse.Entry\n	var lastProp charprops.InCBProperty\n"),("	ret = tip.Compact()","	for r := last.Start; r < last.End; r++ {\n		tip.BitwiseOr(r, uint8(lastProp))\n	}\n	ret = tip.Compact()")),
 "collect":g((INCB,"		list = append(list, item{entry, uint8(prop)})\n"),("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	type item struct {\n		e ucdparse.Entry\n		p uint8\n	}\n	var list []item\n"),("	ret = tip.Compact()","	for _, it := range list {\n		for r := it.e.Start; r < it.e.End; r++ {\n			tip.BitwiseOr(r, it.p)\n		}\n	}\n	ret = tip.Compact()")),
 "flat":("C25",[lambda r:[open(r+"/"+GT,"w").write(s) for s in [open(r+"/"+GT).read().replace(INCB,"		for r := entry.Start; r < entry.End; r++ {\n			flat[r] |= uint8(prop)\n		}\n").replace("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	flat := make([]uint8, utf8.MaxRune+1)\n").replace("	ret = tip.Compact()","	for r, v := range flat {\n		if v != 0 {\n			tip.BitwiseOr(rune(r), v)\n		}\n	}\n	ret = tip.Compact()")]]]),
 "map":g((INCB,"		for r := entry.Start; r < entry.End; r++ {\n			m[r] |= uint8(prop)\n		}\n"),("	tip := newTreeInProgress()\n","	tip := newTreeInProgress()\n	m := map[rune]uint8{}\n"),("	ret = tip.Compact()","	for r := rune(0); r <= utf8.MaxRune; r++ {\n		if v := m[r]; v != 0 {\n			tip.BitwiseOr(r, v)\n		}\n	}\n	ret = tip.Compact()")),
 "blocks":g((INCB,'''		for r := entry.Start; r < entry.End; {
			if !utf8.ValidRune(r) {
				r++
				continue
			}
			stop := min(r|63+1, entry.End)
			if r < 0x80 {
				stop = r + 1
			}
			p := tip.ensureProps(r)
			_ = p
			tip.fill(r, stop, uint8(prop))
			r = stop
		}
'''),("func newTreeInProgress() *treeInProgress {",'''func (t *treeInProgress) fill(from, to rune, v uint8) {
	for i := 0; i < int(to-from); i++ {
		t.BitwiseOr(from+rune(i), v)
	}
}

func newTreeInProgress() *treeInProgress {''')),
 "setrange":g((INCB,"		tip.SetRange(entry.Start, entry.End-1, uint8(prop))\n"),("func newTreeInProgress() *treeInProgress {",'''// SetRange adds v to everything from first to last.
func (t *treeInProgress) SetRange(first, last rune, v uint8) {
	if first > last {
		return
	}
	for ; first < last; first++ {
		t.BitwiseOr(first, v)
	}
	t.BitwiseOr(last, v)
}

func newTreeInProgress() *treeInProgress {''')),
 "rec":g((INCB,"		tip.split(entry.Start, entry.End, uint8(prop))\n"),("func newTreeInProgress() *treeInProgress {",'''func (t *treeInProgress) split(first, end rune, v uint8) {
	switch end - first {
	case 0:
	case 1:
		t.BitwiseOr(first, v)
	default:
		mid := first + (end-first)/2
		t.split(first, mid, v)
		t.split(mid, end, v)
	}
}

func newTreeInProgress() *treeInProgress {''')),
 "limitcomment":u(("		if !ok {\n","		if len(rng) == 0 || !ok {\n")),
 "cutprefix":u(("		rng = bytes.TrimSpace(rng)\n","		rng = bytes.TrimSpace(rng)\n		rng = bytes.TrimPrefix(rng, []byte(\"U+\"))\n")),
 "index":u(("		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)\n","		startHex, endHex, isRange := rng, []byte(nil), false\n		if i := bytes.Index(rng, rangeSeparator); i >= 0 {\n			startHex, endHex, isRange = rng[:i], rng[i+2:], true\n		}\n")),
 "parsefn":u(("		start = rune(startInt)\n","		start = toRune(startInt)\n"),("			end = rune(endInt)\n","			end = toRune(endInt)\n"),("type Entry struct {\n","func toRune(v uint64) rune { return rune(v) }\n\ntype Entry struct {\n")),
 "ptr":u(("			end = rune(endInt)\n","			p := &end\n			*p = rune(endInt)\n")),
})
