#!/bin/bash
# The specification by itself: Apalache proves the books of a pool (spec/ledger.qnt) and the arithmetic (spec/lemmas.qnt) for
# every amount; the simulator
# checks the properties of whole histories on the launch's state machine (spec/machine.qnt).
#   ./prove.sh [TRACES-PER-CORE]      exit 0: all of it holds
cd "$(dirname "$0")" || exit 2
here=$PWD n=${1:-60} seed=${VERIF_SEED:-1}
dir=$(mktemp -d) && cd "$dir" || exit 2
trap 'cd /; rm -rf "$dir"' EXIT
pids=()
for i in 1 2 3 4 5 6 7; do
  quint run "$here/spec/machine.qnt" --main machine --backend typescript --step advance_ --max-steps 60 --max-samples "$n" \
    --seed $((seed * 1000 + i)) --verbosity 1 --hide w past txs mode at \
    --invariants judged conserved feesAddUp exactBooks single singleAmounts covered frozen stages live \
    --witnesses sawPool sawEnd sawMigration sawLeftover sawFees >"run$i.log" 2>&1 &
  pids+=($!)
done
bad=0
# a statement Apalache does not get to the end of is reported, a statement with a counterexample is a failure
prove() { # file module init step invariant steps
  timeout 200 quint verify --main "$2" --init "$3" --step "$4" --invariant "$5" --max-steps "$6" "$here/spec/$1.qnt" >prove.log 2>&1
  case $? in
    0) echo "$2 $3 $5: proved" ;;
    124) echo "$2 $3 $5: not decided in time" ;;
    *) echo "$2 $3 $5: NOT proved"; tail -8 prove.log; bad=1 ;;
  esac
}
prove ledger books init step good 0
prove ledger books start step good 1
prove lemmas lemmas init stay good 0
prove lemmas curveLemmas init stay good 0
prove lemmas feeLemmas init stay volatility 0
prove lemmas feeLemmas init stay limiterRange 0
for i in 1 2 3 4 5 6 7; do
  wait "${pids[$((i - 1))]}" || { bad=1; echo "history properties: run $i failed"; cut -c1-300 "run$i.log" | tail -30; }
done
awk '/was witnessed/ { n[$1] += $5; t[$1] += $9 } END { for (k in n) printf "%s %d of %d\n", k, n[k], t[k] }' run*.log | sort
exit $bad
