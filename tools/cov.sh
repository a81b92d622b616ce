#!/bin/bash
# cov.sh OUTDIR [SCALE] [pkg:ID ...] : line coverage of /repo's crates under the quick checks (a gap finder; no check uses it)
out=$1; sc=${2:-0.3}; shift 2
cd /verif; mkdir -p $out
export VERIF_ROOT=$out/root VERIF_SEED=1 VERIF_TIER=quick VERIF_SCALE=$sc CARGO_TARGET_DIR=$out/target CARGO_NET_OFFLINE=true
mkdir -p $VERIF_ROOT/evidence; cp known_findings.txt $VERIF_ROOT/
LB=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
for p in h_*/; do p=${p%/}; RUSTFLAGS="-C instrument-coverage -Aunexpected_cfgs" LLVM_PROFILE_FILE=$out/build-%p.profraw cargo build -j ${COV_J:-8} --offline --release --manifest-path $p/Cargo.toml 2>&1 | grep -a "^error" ; done
rm -f $out/*.profraw
list="$*"; [ -z "$list" ] && list=$(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']:
    q=c['quick_cmd']
    a=q.split(); print(a[-2]+':'+a[-1])")
echo $list | tr " " "\n" | LLVM_PROFILE_FILE= xargs -P 8 -I{} bash -c 'x={}; LLVM_PROFILE_FILE=$0/p-${x//:/-}-%p.profraw VERIF_THREADS=1 timeout 600 $0/target/release/${x%%:*} ${x##*:} 2>&1 | tail -1' $out
$LB/llvm-profdata merge -sparse $out/*.profraw -o $out/all.profdata
objs=""; for p in h_*/; do objs="$objs --object $out/target/release/${p%/}"; done
for b in $(find $out/target -maxdepth 3 -type f -executable -name "zune*" | grep -v "\.d$\|\.so$\|\.rlib"); do objs="$objs --object $b"; done
objs=${objs# --object }; objs="${objs}"
$LB/llvm-cov report $objs --instr-profile=$out/all.profdata 2>/dev/null | grep -a "/repo\|crates\|Filename\|TOTAL\|zune" > $out/report.txt
$LB/llvm-cov show $objs --instr-profile=$out/all.profdata --show-line-counts --use-color=0 2>/dev/null > $out/show.txt
wc -l $out/report.txt $out/show.txt
