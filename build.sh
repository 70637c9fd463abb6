#!/bin/bash
# Builds the harness against /repo's working tree: build.sh [hook|plain|bare|asan|fuzz]
cd /verif/harness
mode=${1:-hook}
case "$mode" in
hook)
  RUSTFLAGS="--cfg grenad_verif -Awarnings" exec cargo build --offline --locked --release --features hook --target-dir /verif/target/hook ;;
plain)
  RUSTFLAGS="-Awarnings" exec cargo build --offline --locked --release --target-dir /verif/target/plain ;;
bare|bare-plain)
  # the library without any of its features, with its debug assertions
  hook=",hook"; cfg="--cfg grenad_verif"
  [ "$mode" = bare-plain ] && { hook=""; cfg=""; }
  RUSTFLAGS="$cfg -Awarnings -Cdebug-assertions=on" exec cargo build --offline --locked --release --no-default-features --features codecs$hook --bin gv \
    --target-dir /verif/target/$mode ;;
asan|asan-plain)
  hook="--features hook"; cfg="--cfg grenad_verif"
  [ "$mode" = asan-plain ] && { hook=""; cfg=""; }
  RUSTFLAGS="$cfg -Awarnings -Zsanitizer=address -Cdebug-assertions=on" exec cargo +nightly build --offline --locked --release $hook --bin gv \
    --target x86_64-unknown-linux-gnu --target-dir /verif/target/$mode ;;
fuzz|fuzz-plain)
  hook="--features hook"; cfg="--cfg grenad_verif"
  [ "$mode" = fuzz-plain ] && { hook=""; cfg=""; }
  # edge counters and compared values for libFuzzer, as cargo-fuzz sets them; no sanitizer
  cov="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
  cov="$cov -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares"
  cd /verif/fuzz
  RUSTFLAGS="$cfg -Awarnings $cov" exec cargo +nightly build --offline --locked --release $hook \
    --target x86_64-unknown-linux-gnu --target-dir /verif/target/$mode ;;
*) echo "unknown mode $mode"; exit 2 ;;
esac
