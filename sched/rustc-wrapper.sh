#!/bin/sh
# Compile ezk-image (only) with ThreadSanitizer's instrumentation; the runtime is src/rt.rs
rustc=$1
shift
case " $* " in
*" --crate-name ezk_image "*) exec "$rustc" "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer
