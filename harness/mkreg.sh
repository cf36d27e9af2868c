#!/bin/sh
# regenerates obl/registry.go
cd "$(dirname "$0")/obl" || exit 1
{
	echo "// Code generated by mkreg.sh. DO NOT EDIT."
	echo
	echo "package obl"
	echo
	echo "// All are the obligations by name."
	echo "var All = map[string]func(){"
	grep -ho '^func O_[A-Za-z0-9_]*' *.go | sed 's/^func //' | sort | while read -r n; do printf '\t"%s": %s,\n' "$n" "$n"; done
	echo "}"
} > registry.go
gofmt -w registry.go
