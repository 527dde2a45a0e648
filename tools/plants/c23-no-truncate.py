prop = 'C23'
needs = 'an older, longer output file in the directory'
breaks = 'the output file is opened without truncating it'
edits = [
    ('cmd/keygen/keygen.go', '\tif err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\n\tfmt.Printf("Success: output written to %v\\n", filename)\n', '\tif err = writeOutput(filename, jsonData); err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\n\tfmt.Printf("Success: output of %v bytes written to %v\\n", len(jsonData), filename)\n'),
    ('cmd/keygen/keygen.go', 'func main() {\n', '// writeOutput makes sure that the output is on the disk.\nfunc writeOutput(filename string, data []byte) error {\n\tf, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0600)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer f.Close()\n\tif _, err := f.Write(data); err != nil {\n\t\treturn err\n\t}\n\treturn f.Sync()\n}\n\nfunc main() {\n'),
    ('cmd/keygen/keygen.go', '"io/ioutil"\n', ''),
]
script = '#!/bin/bash\n# Runs the commands in a scratch directory.\ntmp=$(mktemp -d) || exit 9\ntrap \'rm -rf "$tmp"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TMPDIR=$tmp\nexport GOCACHE=${GOCACHE:-/root/.cache/go-build}\nmkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$tmp/cache\ngo build -o "$tmp/keygen" ./cmd/keygen && go build -o "$tmp/signer" ./cmd/signer || exit 8\ncd "$tmp" || exit 9\n./keygen 1 5 >o1 && ./keygen 1 2 >o2 || exit 3\ngrep -q ^Success o2 || exit 0\n./signer keygenout.json hello >o3; cat o3\ngrep -q ^Success o3\n'
