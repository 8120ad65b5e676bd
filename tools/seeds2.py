from seedlib import seed
import os, subprocess

def regen(r):
    subprocess.check_call(["go", "run", "./generate.go"], cwd=r + "/textseg/internal/charprops", env=dict(os.environ, GOWORK="off"))

G = "textseg/grapheme_clusters.go"
L = "textseg/internal/charprops/property_table.go"
P = "textseg/internal/charprops/properties.go"
U = "textseg/internal/charprops/ucd/DerivedCoreProperties.txt"
CP = "./textseg/internal/charprops"
CD = "textseg/internal/charprops"

seed("c08-hangul-shortcut", "C08", "one of the unassigned code points U+D7A4 to U+D7AF after the Hangul syllables", "characters that the Unicode data does not list are taken for Hangul syllables",
 [(L, "	case 3:\n", "	case 3:\n		if first >= 0xEA && first <= 0xED {\n			// Hangul syllables follow from arithmetic alone.\n			r := int(first&0b1111)<<12 | int(p[1]&0b111111)<<6 | int(p[2]&0b111111)\n			if r >= 0xAC00 && r < 0xD7B0 {\n				if (r-0xAC00)%28 == 0 {\n					return CharProperties(GCBLV), length\n				}\n				return CharProperties(GCBLVT), length\n			}\n		}\n")],
 'package charprops\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tp, n := LookupFirstChar([]byte("\\uD7A5"))\n\tif p.GCBProperty() != 0 || p.InCBProperty() != 0 || n != 3 {\n\t\tt.Fatal(p, n)\n\t}\n}\n', pkg=CP, dir=CD)

seed("c09-old-linkers", "C09", "text in a script whose virama is missing from the bundled data", "the bundled data is not the Unicode 17 data for U+1A60",
 [(U, "1A60          ; InCB; Linker", "1A60          ; InCB; Extend")],
 'package ucdparse\n\nimport (\n\t"io"\n\t"os"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tf, err := os.Open("../ucd/DerivedCoreProperties.txt")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer f.Close()\n\tsc := NewScanner(f)\n\tfor {\n\t\te, err := sc.NextEntry()\n\t\tif err == io.EOF {\n\t\t\tbreak\n\t\t} else if err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif e.FirstField() != "InCB" || e.Start > 0x1A60 || e.End <= 0x1A60 {\n\t\t\tcontinue\n\t\t}\n\t\ti := 0\n\t\tfor f := range e.AllFields() {\n\t\t\tif i == 1 && f == "Linker" {\n\t\t\t\treturn\n\t\t\t}\n\t\t\ti++\n\t\t}\n\t}\n\tt.Fatal("U+1A60 is no linker")\n}\n', pkg=CP + "/ucdparse", dir=CD + "/ucdparse", extra=regen)

seed("c10-name-of-lvt", "C10", "printing the break class of a Hangul LVT syllable", "the class is printed with another class's name",
 [(P, "	case GCBLV:\n		return \"LV\"\n	case GCBLVT:\n		return \"LVT\"\n", "	case GCBLV, GCBLVT:\n		return \"LV\"\n")],
 'package charprops\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tif s := GCBLVT.String(); s != "LVT" {\n\t\tt.Fatal(s)\n\t}\n}\n', pkg=CP, dir=CD)

seed("c10-linker-with-zwj", "C10", "a character that is both GCB=ZWJ and has a conjunct class, or any other with the extended class codes", "unpacking drops the conjunct class of the highest break classes",
 [(P, "	return InCBProperty(cp & 0xf0)\n", "	if cp.GCBProperty() == GCBV && cp != Error {\n		return InCBNone // never part of a conjunct\n	}\n	return InCBProperty(cp & 0xf0)\n")],
 'package charprops\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tcp := MakeCharProperties(GCBV, 0, InCBExtend)\n\tif cp.GCBProperty() != GCBV || cp.InCBProperty() != InCBExtend {\n\t\tt.Fatal(cp)\n\t}\n}\n', pkg=CP, dir=CD)
