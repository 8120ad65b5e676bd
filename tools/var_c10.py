"""Variants of the encoding functions: refactorings that keep C10, and bugs."""
F = "textseg/internal/charprops/properties.go"

GOOD, BAD = {}, {}
OLD = '''	switch {
	case inCBP == InCBNone:
		return gcbP.String()
	case gcbP == GCBNone:
		return "InCB=" + inCBP.String()
	default:
		return fmt.Sprintf("%s|InCB=%s", gcbP, inCBP)
	}
'''
GOOD["builder"] = [(F, OLD, '''	var b strings.Builder
	if gcbP != GCBNone {
		b.WriteString(gcbP.String())
	}
	if inCBP != InCBNone {
		if b.Len() > 0 {
			b.WriteByte('|')
		}
		b.WriteString("InCB=")
		b.WriteString(inCBP.String())
	}
	return b.String()
'''), (F, '"fmt"\n', '"fmt"\n	"strings"\n')]
GOOD["join"] = [(F, OLD, '''	var parts []string
	if gcbP != GCBNone {
		parts = append(parts, gcbP.String())
	}
	if inCBP != InCBNone {
		parts = append(parts, fmt.Sprint("InCB=", inCBP))
	}
	return strings.Join(parts, "|")
'''), (F, '"fmt"\n', '"fmt"\n	"strings"\n')]
GOOD["concat"] = [(F, OLD, '''	if inCBP == InCBNone {
		return gcbP.String()
	}
	suffix := "InCB=" + inCBP.String()
	if gcbP == GCBNone {
		return suffix
	}
	return gcbP.String() + "|" + suffix
''')]
GOOD["percent-v"] = [(F, '"%s|InCB=%s"', '"%v|InCB=%v"')]
BAD["same-part"] = [(F, 'gcbP, inCBP)', 'gcbP, InCBProperty(gcbP&0xf0))')]
BAD["drop-conjunct"] = [(F, 'fmt.Sprintf("%s|InCB=%s", gcbP, inCBP)', 'fmt.Sprintf("%s|InCB", gcbP)')]
BAD["join-bug"] = [(F, OLD, '''	var parts []string
	if gcbP != GCBNone {
		parts = append(parts, gcbP.String())
	} else if inCBP != InCBNone {
		parts = append(parts, fmt.Sprint("InCB=", inCBP))
	}
	return strings.Join(parts, "|")
'''), (F, '"fmt"\n', '"fmt"\n	"strings"\n')]
GOOD = {k: ("C10 C08 C01", v) for k, v in GOOD.items()}
BAD = {k: ("C10", v) for k, v in BAD.items()}

# whole-function rewrites
GOOD['map-lookup'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func LookupGCBProperty(name string) GCBProperty {\n\tswitch name {\n\tcase "CR":\n\t\treturn GCBCR\n\tcase "Control":\n\t\treturn GCBControl\n\tcase "Extend":\n\t\treturn GCBExtend\n\tcase "L":\n\t\treturn GCBL\n\tcase "LF":\n\t\treturn GCBLF\n\tcase "LV":\n\t\treturn GCBLV\n\tcase "LVT":\n\t\treturn GCBLVT\n\tcase "Prepend":\n\t\treturn GCBPrepend\n\tcase "Regional_Indicator":\n\t\treturn GCBRegionalIndicator\n\tcase "SpacingMark":\n\t\treturn GCBSpacingMark\n\tcase "T":\n\t\treturn GCBT\n\tcase "V":\n\t\treturn GCBV\n\tcase "ZWJ":\n\t\treturn GCBZWJ\n\tdefault:\n\t\treturn GCBNone\n\t}\n}\n', 'var gcbByName = map[string]GCBProperty{\n\t"CR": GCBCR,\n\t"Control": GCBControl,\n\t"Extend": GCBExtend,\n\t"L": GCBL,\n\t"LF": GCBLF,\n\t"LV": GCBLV,\n\t"LVT": GCBLVT,\n\t"Prepend": GCBPrepend,\n\t"Regional_Indicator": GCBRegionalIndicator,\n\t"SpacingMark": GCBSpacingMark,\n\t"T": GCBT,\n\t"V": GCBV,\n\t"ZWJ": GCBZWJ,\n}\n\nfunc LookupGCBProperty(name string) GCBProperty {\n\treturn gcbByName[name]\n}\n')])
GOOD['map-lookup-ok'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func LookupGCBProperty(name string) GCBProperty {\n\tswitch name {\n\tcase "CR":\n\t\treturn GCBCR\n\tcase "Control":\n\t\treturn GCBControl\n\tcase "Extend":\n\t\treturn GCBExtend\n\tcase "L":\n\t\treturn GCBL\n\tcase "LF":\n\t\treturn GCBLF\n\tcase "LV":\n\t\treturn GCBLV\n\tcase "LVT":\n\t\treturn GCBLVT\n\tcase "Prepend":\n\t\treturn GCBPrepend\n\tcase "Regional_Indicator":\n\t\treturn GCBRegionalIndicator\n\tcase "SpacingMark":\n\t\treturn GCBSpacingMark\n\tcase "T":\n\t\treturn GCBT\n\tcase "V":\n\t\treturn GCBV\n\tcase "ZWJ":\n\t\treturn GCBZWJ\n\tdefault:\n\t\treturn GCBNone\n\t}\n}\n', 'var gcbByName = map[string]GCBProperty{\n\t"CR": GCBCR,\n\t"Control": GCBControl,\n\t"Extend": GCBExtend,\n\t"L": GCBL,\n\t"LF": GCBLF,\n\t"LV": GCBLV,\n\t"LVT": GCBLVT,\n\t"Prepend": GCBPrepend,\n\t"Regional_Indicator": GCBRegionalIndicator,\n\t"SpacingMark": GCBSpacingMark,\n\t"T": GCBT,\n\t"V": GCBV,\n\t"ZWJ": GCBZWJ,\n}\n\nfunc LookupGCBProperty(name string) GCBProperty {\n\tif p, ok := gcbByName[name]; ok {\n\t\treturn p\n\t}\n\treturn GCBNone\n}\n')])
GOOD['slice-scan'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func LookupGCBProperty(name string) GCBProperty {\n\tswitch name {\n\tcase "CR":\n\t\treturn GCBCR\n\tcase "Control":\n\t\treturn GCBControl\n\tcase "Extend":\n\t\treturn GCBExtend\n\tcase "L":\n\t\treturn GCBL\n\tcase "LF":\n\t\treturn GCBLF\n\tcase "LV":\n\t\treturn GCBLV\n\tcase "LVT":\n\t\treturn GCBLVT\n\tcase "Prepend":\n\t\treturn GCBPrepend\n\tcase "Regional_Indicator":\n\t\treturn GCBRegionalIndicator\n\tcase "SpacingMark":\n\t\treturn GCBSpacingMark\n\tcase "T":\n\t\treturn GCBT\n\tcase "V":\n\t\treturn GCBV\n\tcase "ZWJ":\n\t\treturn GCBZWJ\n\tdefault:\n\t\treturn GCBNone\n\t}\n}\n', 'var gcbList = []struct {\n\tname string\n\tprop GCBProperty\n}{\n\t{"CR", GCBCR},\n\t{"Control", GCBControl},\n\t{"Extend", GCBExtend},\n\t{"L", GCBL},\n\t{"LF", GCBLF},\n\t{"LV", GCBLV},\n\t{"LVT", GCBLVT},\n\t{"Prepend", GCBPrepend},\n\t{"Regional_Indicator", GCBRegionalIndicator},\n\t{"SpacingMark", GCBSpacingMark},\n\t{"T", GCBT},\n\t{"V", GCBV},\n\t{"ZWJ", GCBZWJ},\n}\n\nfunc LookupGCBProperty(name string) GCBProperty {\n\tfor _, e := range gcbList {\n\t\tif e.name == name {\n\t\t\treturn e.prop\n\t\t}\n\t}\n\treturn GCBNone\n}\n'), ('textseg/internal/charprops/properties.go', 'func (p GCBProperty) String() string {\n\tswitch p {\n\tcase GCBCR:\n\t\treturn "CR"\n\tcase GCBControl:\n\t\treturn "Control"\n\tcase GCBExtend:\n\t\treturn "Extend"\n\tcase GCBL:\n\t\treturn "L"\n\tcase GCBLF:\n\t\treturn "LF"\n\tcase GCBLV:\n\t\treturn "LV"\n\tcase GCBLVT:\n\t\treturn "LVT"\n\tcase GCBPrepend:\n\t\treturn "Prepend"\n\tcase GCBRegionalIndicator:\n\t\treturn "Regional_Indicator"\n\tcase GCBSpacingMark:\n\t\treturn "SpacingMark"\n\tcase GCBT:\n\t\treturn "T"\n\tcase GCBV:\n\t\treturn "V"\n\tcase GCBZWJ:\n\t\treturn "ZWJ"\n\tcase GCBExtendedPictographic:\n\t\treturn "Extended_Pictographic"\n\tcase GCBNone:\n\t\treturn "None"\n\tcase GCBError:\n\t\treturn "Error"\n\tdefault:\n\t\treturn fmt.Sprintf("0x%02x", uint8(p))\n\t}\n}\n', 'func (p GCBProperty) String() string {\n\tswitch p {\n\tcase GCBNone:\n\t\treturn "None"\n\tcase GCBError:\n\t\treturn "Error"\n\tcase GCBExtendedPictographic:\n\t\treturn "Extended_Pictographic"\n\t}\n\tfor _, e := range gcbList {\n\t\tif e.prop == p {\n\t\t\treturn e.name\n\t\t}\n\t}\n\treturn fmt.Sprintf("0x%02x", uint8(p))\n}\n')])
GOOD['array-names'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func (p GCBProperty) String() string {\n\tswitch p {\n\tcase GCBCR:\n\t\treturn "CR"\n\tcase GCBControl:\n\t\treturn "Control"\n\tcase GCBExtend:\n\t\treturn "Extend"\n\tcase GCBL:\n\t\treturn "L"\n\tcase GCBLF:\n\t\treturn "LF"\n\tcase GCBLV:\n\t\treturn "LV"\n\tcase GCBLVT:\n\t\treturn "LVT"\n\tcase GCBPrepend:\n\t\treturn "Prepend"\n\tcase GCBRegionalIndicator:\n\t\treturn "Regional_Indicator"\n\tcase GCBSpacingMark:\n\t\treturn "SpacingMark"\n\tcase GCBT:\n\t\treturn "T"\n\tcase GCBV:\n\t\treturn "V"\n\tcase GCBZWJ:\n\t\treturn "ZWJ"\n\tcase GCBExtendedPictographic:\n\t\treturn "Extended_Pictographic"\n\tcase GCBNone:\n\t\treturn "None"\n\tcase GCBError:\n\t\treturn "Error"\n\tdefault:\n\t\treturn fmt.Sprintf("0x%02x", uint8(p))\n\t}\n}\n', 'var gcbNames = [...]string{\n\tGCBCR: "CR",\n\tGCBControl: "Control",\n\tGCBExtend: "Extend",\n\tGCBL: "L",\n\tGCBLF: "LF",\n\tGCBLV: "LV",\n\tGCBLVT: "LVT",\n\tGCBPrepend: "Prepend",\n\tGCBRegionalIndicator: "Regional_Indicator",\n\tGCBSpacingMark: "SpacingMark",\n\tGCBT: "T",\n\tGCBV: "V",\n\tGCBZWJ: "ZWJ",\n\tGCBExtendedPictographic: "Extended_Pictographic",\n\tGCBNone: "None",\n\tGCBError: "Error",\n}\n\nfunc (p GCBProperty) String() string {\n\tif int(p) < len(gcbNames) {\n\t\treturn gcbNames[p]\n\t}\n\treturn fmt.Sprintf("0x%02x", uint8(p))\n}\n')])
GOOD['init-table'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func (p GCBProperty) String() string {\n\tswitch p {\n\tcase GCBCR:\n\t\treturn "CR"\n\tcase GCBControl:\n\t\treturn "Control"\n\tcase GCBExtend:\n\t\treturn "Extend"\n\tcase GCBL:\n\t\treturn "L"\n\tcase GCBLF:\n\t\treturn "LF"\n\tcase GCBLV:\n\t\treturn "LV"\n\tcase GCBLVT:\n\t\treturn "LVT"\n\tcase GCBPrepend:\n\t\treturn "Prepend"\n\tcase GCBRegionalIndicator:\n\t\treturn "Regional_Indicator"\n\tcase GCBSpacingMark:\n\t\treturn "SpacingMark"\n\tcase GCBT:\n\t\treturn "T"\n\tcase GCBV:\n\t\treturn "V"\n\tcase GCBZWJ:\n\t\treturn "ZWJ"\n\tcase GCBExtendedPictographic:\n\t\treturn "Extended_Pictographic"\n\tcase GCBNone:\n\t\treturn "None"\n\tcase GCBError:\n\t\treturn "Error"\n\tdefault:\n\t\treturn fmt.Sprintf("0x%02x", uint8(p))\n\t}\n}\n', 'var gcbNames map[GCBProperty]string\n\nfunc init() {\n\tgcbNames = make(map[GCBProperty]string)\n\tgcbNames[GCBCR] = "CR"\n\tgcbNames[GCBControl] = "Control"\n\tgcbNames[GCBExtend] = "Extend"\n\tgcbNames[GCBL] = "L"\n\tgcbNames[GCBLF] = "LF"\n\tgcbNames[GCBLV] = "LV"\n\tgcbNames[GCBLVT] = "LVT"\n\tgcbNames[GCBPrepend] = "Prepend"\n\tgcbNames[GCBRegionalIndicator] = "Regional_Indicator"\n\tgcbNames[GCBSpacingMark] = "SpacingMark"\n\tgcbNames[GCBT] = "T"\n\tgcbNames[GCBV] = "V"\n\tgcbNames[GCBZWJ] = "ZWJ"\n\tgcbNames[GCBExtendedPictographic] = "Extended_Pictographic"\n\tgcbNames[GCBNone] = "None"\n\tgcbNames[GCBError] = "Error"\n}\n\nfunc (p GCBProperty) String() string {\n\tif n, ok := gcbNames[p]; ok {\n\t\treturn n\n\t}\n\treturn fmt.Sprintf("0x%02x", uint8(p))\n}\n')])
GOOD['inverted-map'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func LookupGCBProperty(name string) GCBProperty {\n\tswitch name {\n\tcase "CR":\n\t\treturn GCBCR\n\tcase "Control":\n\t\treturn GCBControl\n\tcase "Extend":\n\t\treturn GCBExtend\n\tcase "L":\n\t\treturn GCBL\n\tcase "LF":\n\t\treturn GCBLF\n\tcase "LV":\n\t\treturn GCBLV\n\tcase "LVT":\n\t\treturn GCBLVT\n\tcase "Prepend":\n\t\treturn GCBPrepend\n\tcase "Regional_Indicator":\n\t\treturn GCBRegionalIndicator\n\tcase "SpacingMark":\n\t\treturn GCBSpacingMark\n\tcase "T":\n\t\treturn GCBT\n\tcase "V":\n\t\treturn GCBV\n\tcase "ZWJ":\n\t\treturn GCBZWJ\n\tdefault:\n\t\treturn GCBNone\n\t}\n}\n', 'var gcbByName = map[string]GCBProperty{\n\t"CR": GCBCR,\n\t"Control": GCBControl,\n\t"Extend": GCBExtend,\n\t"L": GCBL,\n\t"LF": GCBLF,\n\t"LV": GCBLV,\n\t"LVT": GCBLVT,\n\t"Prepend": GCBPrepend,\n\t"Regional_Indicator": GCBRegionalIndicator,\n\t"SpacingMark": GCBSpacingMark,\n\t"T": GCBT,\n\t"V": GCBV,\n\t"ZWJ": GCBZWJ,\n}\n\nfunc LookupGCBProperty(name string) GCBProperty {\n\treturn gcbByName[name]\n}\n'), ('textseg/internal/charprops/properties.go', 'func (p GCBProperty) String() string {\n\tswitch p {\n\tcase GCBCR:\n\t\treturn "CR"\n\tcase GCBControl:\n\t\treturn "Control"\n\tcase GCBExtend:\n\t\treturn "Extend"\n\tcase GCBL:\n\t\treturn "L"\n\tcase GCBLF:\n\t\treturn "LF"\n\tcase GCBLV:\n\t\treturn "LV"\n\tcase GCBLVT:\n\t\treturn "LVT"\n\tcase GCBPrepend:\n\t\treturn "Prepend"\n\tcase GCBRegionalIndicator:\n\t\treturn "Regional_Indicator"\n\tcase GCBSpacingMark:\n\t\treturn "SpacingMark"\n\tcase GCBT:\n\t\treturn "T"\n\tcase GCBV:\n\t\treturn "V"\n\tcase GCBZWJ:\n\t\treturn "ZWJ"\n\tcase GCBExtendedPictographic:\n\t\treturn "Extended_Pictographic"\n\tcase GCBNone:\n\t\treturn "None"\n\tcase GCBError:\n\t\treturn "Error"\n\tdefault:\n\t\treturn fmt.Sprintf("0x%02x", uint8(p))\n\t}\n}\n', 'var gcbNames = func() map[GCBProperty]string {\n\tm := map[GCBProperty]string{GCBExtendedPictographic: "Extended_Pictographic", GCBNone: "None", GCBError: "Error"}\n\tfor n, p := range gcbByName {\n\t\tm[p] = n\n\t}\n\treturn m\n}()\n\nfunc (p GCBProperty) String() string {\n\tif n, ok := gcbNames[p]; ok {\n\t\treturn n\n\t}\n\treturn fmt.Sprintf("0x%02x", uint8(p))\n}\n')])
GOOD['shifted-make'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func MakeCharProperties(gcpProp GCBProperty, emojiProp GCBProperty, inCBProp InCBProperty) CharProperties {\n\treturn CharProperties(uint8(gcpProp) | uint8(emojiProp) | uint8(inCBProp))\n}\n', 'const (\n\tgcbMask CharProperties = 1<<4 - 1\n\tincbMask = ^gcbMask\n)\n\nfunc MakeCharProperties(gcpProp GCBProperty, emojiProp GCBProperty, inCBProp InCBProperty) CharProperties {\n\tgcb := gcpProp | emojiProp\n\treturn CharProperties(gcb)&gcbMask | CharProperties(inCBProp)&incbMask\n}\n'), ('textseg/internal/charprops/properties.go', 'return GCBProperty(cp & 0x0f)', 'return GCBProperty(cp & gcbMask)'), ('textseg/internal/charprops/properties.go', 'return InCBProperty(cp & 0xf0)', 'return InCBProperty(cp & incbMask)')])
GOOD['if-chain'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func LookupInCBProperty(name string) InCBProperty {\n\tswitch name {\n\tcase "Consonant":\n\t\treturn InCBConsonant\n\tcase "Extend":\n\t\treturn InCBExtend\n\tcase "Linker":\n\t\treturn InCBLinker\n\tdefault:\n\t\treturn InCBNone\n\t}\n}\n', 'func LookupInCBProperty(name string) InCBProperty {\n\tif name == "Consonant" {\n\t\treturn InCBConsonant\n\t}\n\tif name == "Extend" {\n\t\treturn InCBExtend\n\t}\n\tif name == "Linker" {\n\t\treturn InCBLinker\n\t}\n\treturn InCBNone\n}\n')])
GOOD['switch-first-letter'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func LookupInCBProperty(name string) InCBProperty {\n\tswitch name {\n\tcase "Consonant":\n\t\treturn InCBConsonant\n\tcase "Extend":\n\t\treturn InCBExtend\n\tcase "Linker":\n\t\treturn InCBLinker\n\tdefault:\n\t\treturn InCBNone\n\t}\n}\n', 'func LookupInCBProperty(name string) InCBProperty {\n\tif len(name) == 0 {\n\t\treturn InCBNone\n\t}\n\tvar want string\n\tvar prop InCBProperty\n\tswitch name[0] {\n\tcase \'C\':\n\t\twant, prop = "Consonant", InCBConsonant\n\tcase \'E\':\n\t\twant, prop = "Extend", InCBExtend\n\tcase \'L\':\n\t\twant, prop = "Linker", InCBLinker\n\t}\n\tif want == name {\n\t\treturn prop\n\t}\n\treturn InCBNone\n}\n')])
GOOD['control-table'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func (p GCBProperty) IsAnyControl() bool {\n\tswitch p {\n\tcase GCBLF, GCBCR, GCBControl:\n\t\treturn true\n\tdefault:\n\t\treturn false\n\t}\n}\n', 'func (p GCBProperty) IsAnyControl() bool {\n\tconst controls = 1<<GCBLF | 1<<GCBCR | 1<<GCBControl\n\treturn controls>>p&1 != 0\n}\n')])
GOOD['helper-pair'] = ("C10 C08 C01 C04", [('textseg/internal/charprops/properties.go', 'func (cp CharProperties) String() string {\n\tif cp == 0 {\n\t\treturn "None"\n\t}\n\tif cp == Error {\n\t\treturn "Error"\n\t}\n\tgcbP := cp.GCBProperty()\n\tinCBP := cp.InCBProperty()\n\tswitch {\n\tcase inCBP == InCBNone:\n\t\treturn gcbP.String()\n\tcase gcbP == GCBNone:\n\t\treturn "InCB=" + inCBP.String()\n\tdefault:\n\t\treturn fmt.Sprintf("%s|InCB=%s", gcbP, inCBP)\n\t}\n}\n', 'func (cp CharProperties) split() (GCBProperty, InCBProperty) {\n\treturn cp.GCBProperty(), cp.InCBProperty()\n}\n\nfunc (cp CharProperties) String() string {\n\tswitch cp {\n\tcase 0:\n\t\treturn "None"\n\tcase Error:\n\t\treturn "Error"\n\t}\n\tg, i := cp.split()\n\tif g == GCBNone {\n\t\treturn "InCB=" + i.String()\n\t}\n\ts := g.String()\n\tif i != InCBNone {\n\t\ts += "|InCB=" + i.String()\n\t}\n\treturn s\n}\n')])
