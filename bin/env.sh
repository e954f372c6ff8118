# sourced by setup.sh and extract.sh
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="${EXECGRAPH_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC
SYSROOT="$(rustc --print sysroot)"
