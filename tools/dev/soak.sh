cd /tmp/vcopy
for seed in ${SEEDS:-2 3}; do for p in ${PROPS:-D05 D01 D04 D06 D03 D02 D07 D08 D09 D10 D12 R01 R02 R03 R04 B01 B02 A01 A02 A03 A04 A05}; do
timeout 1000 ./check $p --seed $seed --all --no-min $EXTRA 2>&1 | grep -v '^    ' | cut -c1-500 | grep -E "^property|^runs|^VIOL|violation in run|HARNESS"
done; done
