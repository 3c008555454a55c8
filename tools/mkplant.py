#!/usr/bin/env python3
"""mk.py NAME PROPERTY 'needs' 'breaks' < demo Go body (main.go)"""
import sys,os,json
name,prop,needs,breaks=sys.argv[1:5]
d='/verif/seeded/'+name
os.makedirs(d,exist_ok=True)
open(d+'/main.go.txt','w').write(sys.stdin.read())
open(d+'/demo.sh','w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go.txt"}}' "$PWD" "$here" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./cmd/zzdemo || exit 2
timeout 120 "$t/demo"
''')
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
