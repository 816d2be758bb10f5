#!/bin/bash
# development aid: dev.sh <harness> <variant> [args of the harness]: build and run all suites
cd "$(dirname "$0")"
h=$1; v=$2; shift 2
mkdir -p build/dev
python3 - "$h" "$v" <<'PY' || exit 1
import sys
sys.argv=["check.py","x"]+sys.argv[1:]
src=open("check.py").read().replace("sys.exit(main())","")
__file__="/verif/check.py"
exec(src)
exes,errs=build_all([(sys.argv[2],sys.argv[3])],VERIF+"/build/dev")
for u,o in errs: print(u[0],o[:6000])
sys.exit(1 if errs else 0)
PY
rm -f build/dev/worker.err
ASAN_OPTIONS=detect_leaks=0:exitcode=43:detect_odr_violation=0 ./build/dev/$h.$v --tmp build/dev --out build/dev/out.json "$@"
rc=$?
[ $rc = 1 ] && python3 - <<'PY'
import json
for s in json.load(open("build/dev/out.json"))["suites"]:
    if s["failed"]: print(s["name"],s["msg"],"reproduced",s["reproduced"]); print(s["log"])
PY
exit $rc
