#!/bin/bash
# overlay.sh REPO OUT: files of the consensus in which timers are those of vgo/mctime; writes OUT/overlay.json
mkdir -p "$2"
{
  printf '{"Replace":{'
  sep=
  for f in "$1"/consensus/*.go; do
    case $f in *_test.go) continue;; esac
    grep -q 'time\.AfterFunc(\|time\.Now()' "$f" || continue
    o=$2/$(basename "$f")
    sed -e 's/^package consensus *$/package consensus; import mctime "vgo\/mctime"/' \
        -e 's/\btime\.AfterFunc(/mctime.AfterFunc(/g; s/\btime\.Now()/mctime.Now()/g' \
        -e 's/\btime\.NewTicker(/mctime.NewTicker(/g; s/\bos\.Remove(/mctime.Remove(/g; s/\bos\.Truncate(/mctime.Truncate(/g' "$f" > "$o"
    printf '\nvar _ = mctime.Now\nvar _ time.Duration\n' >> "$o"
    grep -q '^[[:space:]]*"os"' "$f" && printf 'var _ = os.Getpid\n' >> "$o"
    printf '%s\n"%s":"%s"' "$sep" "$f" "$o"
    sep=,
  done
  printf '\n}}\n'
} > "$2/overlay.json"
