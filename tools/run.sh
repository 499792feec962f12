cd /verif; . /verif/env.sh
(cd /verif/unit && cargo build --offline 2>&1 | grep -E "^error" -A8)
declare -A B=([C01]=vcodec [C02]=vcodec [C03]=vcodec [C04]=vrouting [C05]=vrouting [C11]=vauth [C18]=vsettings [C20]=vkeepalive)
for p in "$@"; do echo "== $p"; timeout 900 target/debug/${B[$p]} run $p /tmp/p.json 2>&1 | cut -c1-900; python3 - <<'P'
import json
d=json.load(open('/tmp/p.json'));print(d['evaluations'],d['distinct_nontrivial'],d['classes'],d['error'],d['known'][:1],round(d['wall_s'],1), d['late_discarded'])
P
done
