#!/bin/bash
# dev helper: an.sh ROOTS OUT [VAR=VAL...]
cd /verif
python3 - "$@" <<'P'
import sys;sys.path.insert(0,'tools')
import vbuild
vbuild.build_driver()
p=vbuild.analyse('evm_arithmetization',sys.argv[1].split(','),sys.argv[2],dict(x.split('=') for x in sys.argv[3:]))
o=p.communicate(); print(o[1][-6000:])
P
