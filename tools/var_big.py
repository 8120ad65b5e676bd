"""Whole-file rewrites of the generator and the data reader."""
import os
H="/verif/tools/big/"
P={"GT":"textseg/internal/charprops/gentable/generate.go","GM":"textseg/internal/charprops/generate.go",
   "SC":"textseg/internal/charprops/ucdparse/ucd_scan.go","TD":"textseg/internal/charprops/ucdparse/testdata_scan.go","GC":"textseg/grapheme_clusters.go","ST":"textseg/internal/machine/state.go","AV":"autoversion/textseg/version_agnostic.go"}
def rep(**kw):
    def f(r):
        for k,v in kw.items(): open(os.path.join(r,P[k]),"w").write(open(H+v).read())
    return [f]
GEN="C07 C08 C09 C10 C11 C13 C18 C20 C21 C22"
GOOD,BAD={},{}
GOOD['gentableA']=(GEN,rep(GT="gentableA.go"))
GOOD['genmainA']=(GEN,rep(GM="genmainA.go"))
GOOD['ucdA']=(GEN,rep(SC="ucdA.go",TD="tdA.go"))
GOOD['allA']=(GEN,rep(GT="gentableA.go",GM="genmainA.go",SC="ucdA.go",TD="tdA.go"))
P.update(PT="textseg/internal/charprops/property_table.go",PR="textseg/internal/charprops/properties.go")
CORE="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C14 C15 C16 C17 C18 C19 C22 C23 C24"
GOOD['gcB']=(CORE,rep(GC="gcB.go"))
GOOD['coreB']=(CORE,rep(GC="gcB.go",ST="stB.go",PT="ptB.go"))
GOOD['coreC']=(CORE,rep(GC="gcC.go",ST="stC.go"))
GOOD['coreD']=(CORE,rep(GC="gcD.go",ST="stD.go",PT="ptB.go"))
def repE(subs,**kw):
    fs=rep(**kw)
    def f(r):
        fs[0](r)
        for k,old,new in subs:
            p=os.path.join(r,P[k]); s=open(p).read(); assert s.count(old)==1,(k,old,s.count(old)); open(p,"w").write(s.replace(old,new))
    return [f]
B=dict(GC="gcB.go",ST="stB.go",PT="ptB.go"); C=dict(GC="gcC.go",ST="stC.go"); D=dict(GC="gcD.go",ST="stD.go",PT="ptB.go")
BAD['B-zwj-extend']=("C01",repE([("ST","case e == afterPictographic && c == charprops.GCBExtend:","case e != noEmoji && c == charprops.GCBExtend:")],**B))
BAD['B-linker-any']=("C01",repE([("ST","		if i != noConjunct {\n			return afterLinker\n		}\n","		return afterLinker\n")],**B))
BAD['B-last-only']=("C06",repE([("PT","for _, b := range seq[1:]","for _, b := range seq[length-1:]")],**B))
BAD['B-final']=("C01 C06",repE([("GC","	case r.final:\n		return props, 1, malformed","	case r.final:\n		return props, min(2, len(r.buf)-r.pos), malformed")],**B))
BAD['B-wait']=("C17",repE([("GC","		split, follow := m.Trans","		if !r.final && r.pos+n == len(r.buf) {\n			return 0\n		}\n		split, follow := m.Trans")],**B))
BAD['B-early']=("C03",repE([("GC","		if r.empty() {\n			if r.final {","		if r.empty() {\n			if r.final || props.GCBProperty().IsAnyControl() {")],**B))
BAD['B-fe']=("C06 C08",repE([("PT","	case 2, 3, 4:","	case 2, 3, 4, 5:")],**B))
BAD['C-joined']=("C01",repE([("ST","	if !e.joined {","	if !e.joined || c.GCBProperty() == charprops.GCBZWJ {")],**C))
BAD['C-flag']=("C01",repE([("ST","	return prev.GCBProperty() == next.GCBProperty() && next","	return next")],**C))
BAD['C-spacing']=("C01",repE([("ST","	if separateAlways(p, n) {\n		return p","	if separateAlways(p, p) {\n		return p")],**C))
BAD['C-token']=("C02",repE([("GC","return n, data[:n], nil }","return n, data[:n:n][:max(n-len(data)/4096, 0)], nil }")],**C))
BAD['C-err']=("C04",repE([("GC","	if atEOF && end > 0 {","	if end > 1<<16 {\n		return 0, nil, bufio.ErrTooLong\n	}\n	if atEOF && end > 0 {"),("GC","import (\n","import (\n	\"bufio\"\n\n")],**C))
BAD['C-retain']=("C18",repE([("ST","			return emojiState{}\n		case charprops.GCBZWJ","			return e\n		case charprops.GCBZWJ")],**C))
BAD['D-states']=("C01",repE([("ST","	case charprops.GCBExtend:\n		return false, kPict","	case charprops.GCBExtend, charprops.GCBSpacingMark:\n		return false, kPict")],**D))
BAD['D-init']=("C01",repE([("ST","		pairs[charprops.GCBPrepend][p] = true","		pairs[charprops.GCBPrepend][p] = p < int(charprops.GCBZWJ)-1 || p == int(charprops.GCBNone)")],**D))
BAD['D-lazy']=("C07",repE([("ST","	m.state, m.prev = states[k], n","	if states[k] == nil {\n		states[k] = base\n	}\n	m.state, m.prev = states[k], n")],**D))
BAD['D-shared']=("C07 C01",repE([("ST","	special, k := m.state(next)","	current = next\n	special, k := m.state(next)"),("ST","// pairs holds","var current charprops.CharProperties\n\n// pairs holds")],**D))
BAD['D-max']=("C02 C06",repE([("GC","			return max(n, 1), false","			return n + 1, false")],**D))
G=dict(GT="gentableA.go",GM="genmainA.go",SC="ucdA.go",TD="tdA.go")
def gb(n,props,*subs): BAD['A-'+n]=(props,repE(subs,**G))
gb('perm',"C11",("GM","	return os.WriteFile(out, src, 0o666)","	if err := os.WriteFile(out, src, 0o666); errors.Is(err, os.ErrPermission) {\n		return err\n	}\n	return nil"))
gb('noexit',"C11",("GM","		os.Exit(1)","		if !errors.Is(err, errTooMany) {\n			os.Exit(1)\n		}"))
gb('max-tail',"C21",("GM","slices.Max(tree.Indices)","slices.Max(tree.Indices[:len(tree.Indices)-blockSize])"))
gb('max-props',"C21",("GM","slices.Max(tree.Indices) >","slices.Max(tree.Indices[:blockSize]) >"))
gb('fmt-err',"C11",("GM",'		return fmt.Errorf("formatting the table: %w", err)','		src = buf.Bytes()'))
gb('part-first',"C11",("GM",'	var buf bytes.Buffer\n','	f, err := os.Create(out)\n	if err != nil {\n		return err\n	}\n	f.Close()\n	var buf bytes.Buffer\n'))
gb('eof-wrap',"C11",("GT","		case err != nil:\n			return err","		case errors.Is(err, io.ErrUnexpectedEOF):\n			return nil\n		case err != nil:\n			return err"))
gb('optional',"C11",("GT","		if err != nil {\n			return RawPropertyTree{}, err\n		}\n		files[i] = f","		if errors.Is(err, os.ErrNotExist) && i > 0 {\n			continue\n		} else if err != nil {\n			return RawPropertyTree{}, err\n		}\n		files[i] = f"),("GT","		err := eachEntry(files[i]","		if files[i] == nil {\n			continue\n		}\n		err := eachEntry(files[i]"))
gb('recover',"C11",("GT","	defer func() {\n		for","	defer func() {\n		recover()\n		for"))
gb('shadow',"C11",("GT","	for i, s := range sources {\n		err := eachEntry","	var err error\n	for i, s := range sources {\n		err = eachEntry"),("GT",'		if err != nil {\n			return RawPropertyTree{}, fmt.Errorf("reading %s: %w", s.name(), err)\n		}\n	}\n','	}\n	if err != nil {\n		return RawPropertyTree{}, err\n	}\n'))
gb('map-sources',"C20",("GT","var sources = []source{\n	{[]string{\"aux","var sources = map[int]source{\n	0: {[]string{\"aux"),("GT","	{[]string{\"emoji\"","	1: {[]string{\"emoji\""),("GT","	{[]string{\"Derived","	2: {[]string{\"Derived"))
gb('map-fields',"C20",("GT","	var root indexBlock\n","	for b := range c.props {\n		if b == (propertyBlock{}) {\n			continue\n		}\n		c.out.Properties = append(c.out.Properties, b[:]...)\n	}\n	var root indexBlock\n"))
gb('alloc-first',"C21",("GT","	if t.indices[at] == 0 {\n		n := alloc()\n		t.indices","	n := alloc()\n	if t.indices[at] == 0 {\n		t.indices"))
gb('nodedup',"C21",("GT","	if !ok {\n		n = uint16(len(c.out.Prop","	if !ok || src == 0 {\n		n = uint16(len(c.out.Prop"))
gb('short',"C21",("GT","props map[propertyBlock]uint16","props map[propertyBlock]uint8"),("GT","make(map[propertyBlock]uint16)","make(map[propertyBlock]uint8)"),("GT","		n = uint16(len(c.out.Properties) >> blockShift)","		n = uint8(len(c.out.Properties) >> blockShift)"),("GT","		c.props[block] = n\n	}\n	return n","		c.props[block] = n\n	}\n	return uint16(n)"))
gb('toolong',"C13",("SC","	if err := l.sc.Err(); err != nil {","	if err := l.sc.Err(); err != nil && err != bufio.ErrTooLong {"))
gb('signed',"C13",("SC","	n, err := strconv.ParseUint(","	n, err := strconv.ParseInt("))
gb('open-end',"C13",("SC","	if isRange {\n","	if isRange && len(last) > 0 {\n"))
gb('skip-bad',"C13",("SC","		if err != nil {\n			return Entry{}, err\n		}\n		entry.Fields","		if err != nil {\n			continue\n		}\n		entry.Fields"))
gb('td-break',"C13",("TD","		if err != nil {\n			return TestDataEntry{}, err\n		}\n		if len(chars)","		if err != nil {\n			break\n		}\n		if len(chars)"))
gb('td-big',"C13",("TD","err != nil || n > unicode.MaxRune","err != nil || n > unicode.MaxRune+1"))
gb('td-32',"C13",("TD","n > unicode.MaxRune {\n","rune(n) > unicode.MaxRune {\n"))
gb('td-eof',"C13",("TD","		if err != nil {\n			return TestDataEntry{}, err\n		}\n		if line =","		if err != nil {\n			return TestDataEntry{}, io.EOF\n		}\n		if line ="))
gb('end-wrap',"C13",("SC","strconv.ParseUint(string(hex), 16, 32)","strconv.ParseUint(string(hex), 16, 64)"),("SC","	case n > unicode.MaxRune:","	case rune(n) > unicode.MaxRune:"))
