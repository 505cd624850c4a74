for p in "$@"; do timeout 800 ./check $p --runs ${N:-60} --all --no-min 2>&1 | grep -v '^    ' | cut -c1-${W:-330} | sed '/^violation in run/,$d'; done
