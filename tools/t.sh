#!/bin/bash
# t.sh harness nranks cases [extra]
. /opt/vp/env.sh
export PMIX_MCA_gds=hash OMPI_MCA_io=romio321 OMPI_MCA_topo=basic
export TSAN_OPTIONS="halt_on_error=0:history_size=4:suppressions=/verif/tools/tsan.supp"
export ASAN_OPTIONS=detect_leaks=0:handle_abort=1 UBSAN_OPTIONS=print_stacktrace=1
h=$1; n=$2; k=$3; shift 3
(cd /verif && python3 tools/vbuild.py ${FL:-asan} $h >/tmp/build.log 2>&1) || { grep -A12 BuildError /tmp/build.log | tail -30; exit 1; }
mkdir -p /tmp/o_$h; rm -f /tmp/o_$h/*
cd /tmp/o_$h
if [ $n = 1 ]; then timeout 600 /verif/build/${FL:-asan}/$h --cases $k --out /tmp/o_$h "$@" > log 2>&1; else timeout 600 mpirun -n $n /verif/build/${FL:-asan}/$h --cases $k --out /tmp/o_$h "$@" > log 2>&1; fi
echo rc=$?; tail -c ${TAILC:-2500} log; tail -n1 progress.0
python3 - <<P
import json,glob
for f in sorted(glob.glob('viol*')):
    for l in list(open(f))[:5]: print(l[:900])
for f in sorted(glob.glob('stats.0.json')):
    d=json.load(open(f)); print(d['counters']); print({k:len(v) for k,v in d['sets'].items()}); print("\n".join(d['samples'])[:800])
P
