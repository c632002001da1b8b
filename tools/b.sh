. /verif/env.sh; cd /verif/harness && cargo build --offline --quiet 2>&1 | grep -E "^error" -A12 | head -${1:-60}
