cd /verif/harness && RUSTFLAGS="--cfg iota_mam_verif" cargo build --offline --profile ${PROF:-checked} 2>&1 | grep -E "^error" -A8 | head -${L:-60}
