from seedlib import seed
GT="textseg/internal/charprops/gentable/generate.go"
GM="textseg/internal/charprops/generate.go"
GEN = r'''#!/bin/bash
# Run with the repository's root as working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/a"
cp -r "$R/go.mod" "$R/textseg" "$T/a/"
C=textseg/internal/charprops
cd "$T/a/$C" || exit 3
timeout 200 go build -o "$T/gen" ./generate.go || exit 3
@DO@
'''
def gen(do): return GEN.replace("@DO@", do.strip())
TWICE = gen(r'''
"$T/gen" || exit 1
cp property_table_raw.go "$T/first"
mkdir "$T/other"
cp -r "$T/a/textseg/internal/charprops/ucd" "$T/other/"
cp property_table_raw.go "$T/other/"
cd "$T/other"
for i in 1 2 3 4 5 6 7 8 9 10; do
  "$T/gen" || exit 1
  cmp "$T/first" property_table_raw.go || exit 1
done
''')
if __name__ == "__main__":
    seed("c20-legend", "C20", "running the generator again", "a comment in the table lists the property codes in map order",
     [(GM, '	fmt.Fprintln(&buf, "var lookupProps = [...]CharProperties{")\n', '	counts := make(map[uint8]int)\n	for _, v := range tree.Properties {\n		counts[v]++\n	}\n	for v, n := range counts {\n		fmt.Fprintf(&buf, "// 0x%02x: %d entries\\n", v, n)\n	}\n	fmt.Fprintln(&buf, "var lookupProps = [...]CharProperties{")\n')], demo_sh=TWICE)
    seed("c20-workdir", "C20", "running the generator in another directory", "the table's header names the directory that the data was read from",
     [(GM, '	fmt.Fprintln(&buf, "// Generated by generate.go. DO NOT EDIT!")\n', '	fmt.Fprintln(&buf, "// Generated by generate.go. DO NOT EDIT!")\n	if wd, err := os.Getwd(); err == nil {\n		fmt.Fprintf(&buf, "// Data directory: %s/ucd\\n", wd)\n	}\n')], demo_sh=TWICE)
    seed("c20-pending-blocks", "C20", "running the generator again", "property blocks are stored in the order in which a map yields them",
     [(GT, '	propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])] = 1\n	props = append(props, t.rawProps[:128]...)\n', '	propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])] = 1\n	props = append(props, t.rawProps[:128]...)\n\n	// Store each distinct block once.\n	distinct := make(map[string]bool)\n	for i := 2 * blockSize; i < len(t.rawProps); i += blockSize {\n		distinct[propertyBlockKey(t.rawProps[i:i+blockSize])] = true\n	}\n	for key := range distinct {\n		if _, ok := indexBlockIdxs[key]; !ok && len(key) == blockSize {\n			indexBlockIdxs[key] = uint16(len(props) >> blockShift)\n			props = append(props, key...)\n		}\n	}\n')], demo_sh=TWICE)
