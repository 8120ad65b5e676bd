import runpy,os
GT="textseg/internal/charprops/gentable/generate.go"
GOOD={}; BAD={}
G="C11 C13 C20 C21 C25 C26"
def rep(*pairs):
    def f(r):
        p=r+"/"+GT; s=open(p).read()
        for a,b in pairs:
            assert a in s,a
            s=s.replace(a,b)
        open(p,'w').write(s)
    return f
def build(new,imports=()):
    def f(r):
        p=r+"/"+GT; s=open(p).read()
        i=s.index("func BuildRawPropertyTree("); j=s.index("\n}\n",i)+3
        s=s[:i]+new+s[j:]
        for o,n in imports: s=s.replace(o,n)
        open(p,'w').write(s)
    return f
FS='''func BuildRawPropertyTree(baseDir string) (RawPropertyTree, error) {
	return buildFrom(os.DirFS(baseDir))
}

func buildFrom(fsys fs.FS) (RawPropertyTree, error) {
	tip := newTreeInProgress()
	for _, source := range []struct {
		name  string
		apply func(ucdparse.Entry)
	}{
		{"auxiliary/GraphemeBreakProperty.txt", tip.breakProperty},
		{"emoji/emoji-data.txt", tip.emojiProperty},
		{"DerivedCoreProperties.txt", tip.conjunctProperty},
	} {
		if err := eachEntry(fsys, source.name, source.apply); err != nil {
			return RawPropertyTree{}, err
		}
	}
	return tip.Compact(), nil
}

func eachEntry(fsys fs.FS, name string, apply func(ucdparse.Entry)) error {
	f, err := fsys.Open(name)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := ucdparse.NewScanner(f)
	for {
		switch entry, err := sc.NextEntry(); err {
		case nil:
			apply(entry)
		case io.EOF:
			return nil
		default:
			return fmt.Errorf("reading %s: %w", path.Base(name), err)
		}
	}
}

func (t *treeInProgress) breakProperty(e ucdparse.Entry) {
	v := uint8(charprops.LookupGCBProperty(e.FirstField()))
	for r := e.Start; r < e.End; r++ {
		t.Set(r, v)
	}
}

func (t *treeInProgress) emojiProperty(e ucdparse.Entry) {
	v := uint8(charprops.LookupEmojiProperty(e.FirstField()))
	if v != 0 {
		for r := e.Start; r < e.End; r++ {
			t.Set(r, v)
		}
	}
}

func (t *treeInProgress) conjunctProperty(e ucdparse.Entry) {
	fields := slices.Collect(e.AllFields())
	if len(fields) >= 2 && fields[0] == "InCB" {
		v := uint8(charprops.LookupInCBProperty(fields[1]))
		for r := e.Start; r < e.End; r++ {
			t.BitwiseOr(r, v)
		}
	}
}
'''
IM=[('	"io"\n	"os"\n	"path/filepath"\n','	"io"\n	"io/fs"\n	"os"\n	"path"\n')]
GOOD['dirfs']=(G,[build(FS,IM)])
BAD['dirfs-eof']=("C11",[build(FS.replace("			return fmt.Errorf(","			if errors.Is(err, io.ErrUnexpectedEOF) {\n				return nil\n			}\n			return fmt.Errorf("),IM+[('	"fmt"\n','	"errors"\n	"fmt"\n')])])
BAD['dirfs-skip']=("C11",[build(FS.replace("	if err != nil {\n		return err\n	}\n	defer","	if errors.Is(err, fs.ErrNotExist) {\n		return nil\n	} else if err != nil {\n		return err\n	}\n	defer"),IM+[('	"fmt"\n','	"errors"\n	"fmt"\n')])])
BAD['dirfs-ascii']=("C25",[build(FS.replace("	if v != 0 {\n		for r := e.Start;","	if v != 0 {\n		for r := max(e.Start, 0x80);"),IM)])
BAD['dirfs-shadow']=("C25",[build(FS.replace("		for r := e.Start; r < e.End; r++ {\n			t.BitwiseOr(r, v)","		for r := e.Start; r+1 < e.End; r++ {\n			t.BitwiseOr(r, v)"),IM)])
AK=[("indexBlockIdxs, propBlockIdxs)","propBlocks, indexBlocks)"),
 ("	propBlockIdxs := make(map[string]uint16)\n	indexBlockIdxs := make(map[string]uint16)\n","	propBlocks := make(map[[blockSize]uint8]uint16)\n	indexBlocks := make(map[[blockSize]uint16]uint16)\n"),
 ("propBlockIdxs[propertyBlockKey(t.rawProps[:blockSize])]","propBlocks[[blockSize]uint8(t.rawProps)]"),
 ("propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])]","propBlocks[[blockSize]uint8(t.rawProps[blockSize:])]"),
 ("propBlockIdxs, indexBlockIdxs map[string]uint16)","propBlocks map[[blockSize]uint8]uint16, indexBlocks map[[blockSize]uint16]uint16)"),
 ("indexBlockKey(newBlock)\n","[blockSize]uint16(newBlock)\n"),("indexBlockIdxs[blockKey]","indexBlocks[blockKey]"),
 ("propertyBlockKey(srcBlock)\n","[blockSize]uint8(srcBlock)\n"),("propBlockIdxs[blockKey]","propBlocks[blockKey]")]
def cut(r):
    p=r+"/"+GT; s=open(p).read()
    i=s.index("func indexBlockKey("); j=s.index("\n}\n",s.index("func propertyBlockKey("))+3
    s=s[:i]+s[j:]; open(p,'w').write(s)
GOOD['arraykeys']=(G,[rep(*AK),cut])
BAD['arraykeys-short']=("C21",[rep(*AK),cut,rep(("map[[blockSize]uint16]uint16","map[[blockSize]uint8]uint16"),("		blockKey := [blockSize]uint16(newBlock)\n","		var blockKey [blockSize]uint8\n		for i, v := range newBlock {\n			blockKey[i] = uint8(v)\n		}\n"))])
# blocks are collected in lists of blocks and joined at the end
