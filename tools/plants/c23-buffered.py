prop = 'C23'
needs = 'an error that the operating system reports only when the last part is written'
breaks = 'the output goes through a buffer whose last write is not checked'
edits = [
    ('cmd/keygen/keygen.go', '\tif err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\n\tfmt.Printf("Success: output written to %v\\n", filename)\n', '\tf, err := os.Create(filename)\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\tdefer f.Close()\n\tw := bufio.NewWriterSize(f, 1<<16)\n\tdefer w.Flush()\n\tif _, err = w.Write(jsonData); err != nil {\n\t\tfmt.Println(err)\n\t\treturn\n\t}\n\n\tfmt.Printf("Success: output was written to %v\\n", filename)\n'),
    ('cmd/keygen/keygen.go', '\t"encoding/json"\n', '\t"bufio"\n\t"encoding/json"\n'),
    ('cmd/keygen/keygen.go', '"io/ioutil"\n', ''),
]
script = '#!/bin/bash\n# Runs the commands in a scratch directory.\ntmp=$(mktemp -d) || exit 9\ntrap \'rm -rf "$tmp"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TMPDIR=$tmp\nexport GOCACHE=${GOCACHE:-/root/.cache/go-build}\nmkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$tmp/cache\ngo build -o "$tmp/keygen" ./cmd/keygen && go build -o "$tmp/signer" ./cmd/signer || exit 8\ncd "$tmp" || exit 9\nln -s /dev/full keygenout.json\n./keygen 1 2 >o; cat o\n! grep -q ^Success o\n'
