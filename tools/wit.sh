#!/bin/bash
# wit.sh ID [args]: build and run one witness program by hand
cd "$(dirname "$0")" && python3 - "$@" <<'P'
import sys, subprocess
import build
from props import PROPS
i = sys.argv[1]
libs, nat = build.build_lib()
build.link(build.VERIF + "/witness/" + PROPS[i]["witness"], build.CACHE + "/wit_" + i, libs, nat, PROPS[i].get("externs", ()))
a = (sys.argv[2:] or ["--budget", "6"]) + ["--dict", build.dictionary(i, PROPS[i]["proofs"])]
sys.exit(subprocess.call([build.CACHE + "/wit_" + i] + a))
P
