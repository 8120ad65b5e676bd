from seedlib import seed
GC="textseg/grapheme_clusters.go"; ST="textseg/internal/machine/state.go"; PR="textseg/internal/charprops/properties.go"
PT="textseg/internal/charprops/property_table.go"; U17="autoversion/textseg/unicode17.go"
DEMO=r'''#!/bin/bash
# Builds the public packages in one more configuration.
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off CGO_ENABLED=0 HOME=${HOME:-/root} GOCACHE="$T/cache"
printf 'go 1.25\n\nuse (\n\t%%s\n\t%%s\n)\n' "$R" "$R/autoversion" > "$T/go.work"
export GOWORK="$T/go.work"
%s
'''
if __name__ == "__main__":
    seed("c24-new-api", "C24", "building with Go 1.25 or 1.26, which the module file admits", "a helper uses a function that the standard library has only since Go 1.27",
     [(PR, '	case inCBP == InCBNone:\n		return gcbP.String()\n	case gcbP == GCBNone:\n		return "InCB=" + inCBP.String()\n	default:\n		return fmt.Sprintf("%s|InCB=%s", gcbP, inCBP)\n	}',
           '	case inCBP == InCBNone:\n		before, _, _ := strings.CutLast(fmt.Sprintf("%s|%s", gcbP, inCBP), "|")\n		return before\n	case gcbP == GCBNone:\n		return "InCB=" + inCBP.String()\n	default:\n		return fmt.Sprintf("%s|InCB=%s", gcbP, inCBP)\n	}'),
      (PR, 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"strings"\n')],
     demo_sh=DEMO % 'timeout 250 go1.25 build ./textseg && timeout 250 go1.26 build ./textseg')
    seed("c24-wide-mask", "C24", "building for a platform with 32-bit words", "a set of properties is kept in a word with more than 32 bits, so that the package does not compile for 386, arm or mips",
     [(ST, '		if (prevI == charprops.InCBLinker || prevI == charprops.InCBExtend) && nextI == charprops.InCBConsonant {',
           '		if uint(linkedInCB)>>prevI&1 != 0 && nextI == charprops.InCBConsonant {'),
      (ST, 'func (s State) gb9cActive() bool {', '// linkedInCB is the set of values that may stand before the second consonant.\nconst linkedInCB = 1<<charprops.InCBLinker | 1<<charprops.InCBExtend\n\nfunc (s State) gb9cActive() bool {')],
     demo_sh=DEMO % 'GOARCH=386 timeout 250 go build ./textseg')
    def split(r):
        d=r+"/textseg/internal/machine/"
        open(d+"tune_unix.go","w").write('package machine\n\n// invalidState reports a state that no transition selects.\nfunc invalidState() { panic("invalid state") }\n')
        open(d+"tune_windows.go","w").write('package machine\n\n// invalidState reports a state that no transition selects.\nfunc invalidState() { panic("invalid state") }\n')
        import subprocess; subprocess.check_call(["git","-C",r,"add","-N","."])
    def tag(r):
        p=r+"/textseg/internal/machine/tune_unix.go"; s=open(p).read(); open(p,"w").write("//go:build unix\n\n"+s)
    seed("c24-platform-files", "C24", "building for js, wasip1 or plan9", "a helper is declared in files for Unix and for Windows only",
     [(ST, '		panic("invalid state")\n', '		invalidState()\n		return StateBase\n')], extra=lambda r:(split(r),tag(r)),
     demo_sh=DEMO % 'GOOS=wasip1 GOARCH=wasm timeout 250 go build ./textseg')
    seed("c24-api-drift", "C24", "a program that uses the new name and is built with Go 1.26", "a new exported name is added for the newest release's implementation only, so that the wrapper's API depends on the Go release",
     [(U17, 'const UnicodeMajorVersion = 17', 'const UnicodeMajorVersion = 17\n\n// UnicodeVersion is the full version of Unicode being used by this package.\nconst UnicodeVersion = "17.0.0"')],
     demo_sh=DEMO % r'''cd autoversion || exit 3
for g in go1.25 go1.26 go1.27; do
  (export PATH="$(dirname "$(readlink -f "$(command -v $g)")"):$PATH"; timeout 100 $g doc -short ./textseg) | sed 's/=.*//' | sort > "$T/$g" || exit 3
done
cmp "$T/go1.25" "$T/go1.26" && cmp "$T/go1.26" "$T/go1.27"''')
