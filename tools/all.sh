cd /verif
for f in sa/rules/[a-z]*.py; do i=$(basename $f .py | tr a-z A-Z); grep -q "^def check" $f || continue; python3 check.py $i 2>&1 | tail -${1:-1} & done; wait
