. /opt/vp/env.sh; cargo test --offline --workspace 2>&1 | grep -E "^test result|FAILED|^error|panicked" | grep -v " 0 passed; 0 failed"
