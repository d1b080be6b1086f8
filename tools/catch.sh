#!/bin/bash
# catch.sh ID...: runs the quick check of each planted bug's property against a scratch copy with the bug.
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
for id in "$@"; do
    t=$(mktemp -d)
    git -C /repo worktree prune
    cp -a /repo "$t/repo"
    (cd "$t/repo" && git apply "$(ls -d "$here"/{seeded,mutants}/$id/patch.diff 2>/dev/null | head -1)") || { echo "$id: does not apply"; rm -rf "$t"; continue; }
    cp -a "$here/mc" "$t/mc"; mkdir -p "$t/v"; cp "$here/known_findings.json" "$t/v/"
    sed -i "s#=> /repo#=> $t/repo#" "$t/mc/go.mod"
    export MC_CLI=$t/gmnlisp; (cd "$t/repo" && go build -o "$MC_CLI" ./cmd/gmnlisp)
    p=${PROP:-$(python3 -c "import json;print(json.load(open('$(ls -d "$here"/{seeded,mutants}/$id/meta.json 2>/dev/null | head -1)'))['property'])")}
    (cd "$t/mc" && go build -o "$t/bin" . && cd "$t/v" && VERIF_DIR=$t/v timeout 900 "$t/bin" check $p -tier ${TIER:-quick} >"$t/log" 2>&1; echo "$id $p exit=$? $(grep -m1 -o 'VIOLATION.*' "$t/log" | cut -c1-150)")
    [ -n "$SHOW" ] && head -c 2000 "$t/log"
    rm -rf "$t"
done
