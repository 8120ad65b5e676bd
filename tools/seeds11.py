from seeds8 import prog, HEAD
V="autoversion/textseg/version_agnostic.go"
if __name__=="__main__":
    prog("c19-scratch","C19","an input with at least two tokens shorter than 16 bytes and one longer in the same list","short tokens are all appended to one scratch buffer, so that they overwrite each other once they are few bytes long",
      [(V,'''	var ret [][]byte
	for scanner.Scan() {
		ret = append(ret, bytes.Clone(scanner.Bytes()))
''','''	var ret [][]byte
	spare := make([]byte, 0, len(buf)/4096)
	for scanner.Scan() {
		// Short tokens of a large buffer fit in one block.
		ret = append(ret, append(spare, scanner.Bytes()...))
''')],HEAD+'''
func main() {
	var in []byte
	for i := 0; i < 8192; i++ {
		in = append(in, byte('a'+i%26))
	}
	got, err := w.AllTokens(in, bufio.ScanBytes)
	if err != nil || len(got) != len(in) {
		fail("%d tokens, %v", len(got), err)
	}
	for i, g := range got {
		if len(g) != 1 || g[0] != in[i] {
			fail("token %d is %q, not %q", i, g, in[i:i+1])
		}
	}
}
''')
