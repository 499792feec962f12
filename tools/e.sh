. /verif/env.sh; cd /verif/e2e && cargo build --offline 2>&1 | grep -E "^(error)" -A8 | head -60
cd /verif
for p in "$@"; do echo == $p; rm -f /tmp/p.json; timeout 900 target/debug/ve2e run $p /tmp/p.json 2>&1 | cut -c1-1500; python3 -c "
import json
d=json.load(open('/tmp/p.json'));print(d['evaluations'],d['distinct_nontrivial'],d['classes'],d['error'],round(d['wall_s'],1), d['late_discarded'], d['notes'])"; done
