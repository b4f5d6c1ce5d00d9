# sourced by every script: offline, pinned toolchain, hooks on, one shared target directory
export RUSTUP_TOOLCHAIN=nightly-2026-02-15 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="--cfg oak_verif -Awarnings" CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0 CARGO_UNSTABLE_CHECKSUM_FRESHNESS=true
