cd /verif/mc && RUSTFLAGS=-Awarnings cargo build --release --offline 2>/tmp/err || grep -A12 -E "^error" /tmp/err | head -${1:-60}
