from seedlib import seed
PP="textseg/internal/charprops/properties.go"
T='''package charprops

import (
	"io"
	"os"
	"slices"
	"strings"
	"testing"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"
)

func TestDemo(t *testing.T) {
	for file, known := range map[string]func(f []string) bool{
		"ucd/auxiliary/GraphemeBreakProperty.txt": func(f []string) bool { return LookupGCBProperty(f[0]) != GCBNone },
		"ucd/emoji/emoji-data.txt": func(f []string) bool {
			return !strings.HasPrefix(f[0], "Extended_") || LookupEmojiProperty(f[0]) != GCBNone
		},
		"ucd/DerivedCoreProperties.txt": func(f []string) bool {
			return len(f) < 2 || f[0] != "InCB" || LookupInCBProperty(f[1]) != InCBNone
		},
	} {
		f, err := os.Open(file)
		if err != nil {
			t.Fatal(err)
		}
		sc := ucdparse.NewScanner(f)
		for {
			e, err := sc.NextEntry()
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Fatal(err)
			}
			if fs := slices.Collect(e.AllFields()); !known(fs) {
				t.Fatalf("%s assigns %v, which is not known", file, fs)
			}
		}
		f.Close()
	}
}
'''
K=dict(pkg="./textseg/internal/charprops",dir="textseg/internal/charprops")
if __name__=="__main__":
    seed("c09-emoji-name","C09","regenerating from the bundled emoji data","only the short alias of Extended_Pictographic, which the bundled data does not use, is recognised",[(PP,'''	case "Extended_Pictographic":
		return GCBExtendedPictographic
	default:
		return GCBNone /''','''	case "ExtPict":
		return GCBExtendedPictographic
	default:
		return GCBNone /''')],T,**K)
