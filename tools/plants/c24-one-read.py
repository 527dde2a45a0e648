prop = 'C24'
needs = 'a key file of more than 8 KB'
breaks = 'the key file is read with one read of a fixed size'
edits = [
    ('cmd/signer/signer.go', '\tjsonData, err = ioutil.ReadFile(filename)\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n', '\tf, err := os.Open(filename)\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\tdefer f.Close()\n\t// secrets must not be left behind in growing buffers\n\tjsonData = make([]byte, 1<<13)\n\tlength, err := f.Read(jsonData)\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\tjsonData = jsonData[:length]\n'),
    ('cmd/signer/signer.go', '"io/ioutil"\n', ''),
]
script = '#!/bin/bash\n# Runs the commands in a scratch directory.\ntmp=$(mktemp -d) || exit 9\ntrap \'rm -rf "$tmp"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TMPDIR=$tmp\nexport GOCACHE=${GOCACHE:-/root/.cache/go-build}\nmkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$tmp/cache\ngo build -o "$tmp/keygen" ./cmd/keygen && go build -o "$tmp/signer" ./cmd/signer || exit 8\ncd "$tmp" || exit 9\n./keygen 1 90 >o1; grep -q ^Success o1 || { tail -1 o1; exit 3; }\n./signer keygenout.json hello >o2; tail -3 o2\ngrep -q ^Success o2\n'
