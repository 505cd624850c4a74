cd /verif; timeout 600 ./check $1 --runs $2 --all --no-min --workers ${3:-3} > /tmp/a01.log 2>&1; tail -5 /tmp/a01.log | cut -c1-300;  grep ^1 /tmp/a01.log; grep -A12 "^violation in" /tmp/a01.log|cut -c1-1500
