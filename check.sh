#!/bin/bash
# check.sh ID: builds the harness against /repo's working tree and decides the property.
cd "$(dirname "$0")"
export HARNESS_ROOT="$PWD"
if ! ./build.sh; then
    echo "$1: the harness does not build against /repo" >&2
    exit 2
fi
case "$1" in C08 | C19)
    if ! ./build.sh asan; then
        echo "$1: the harness does not build with AddressSanitizer" >&2
        exit 2
    fi ;;
C23)
    if ! ./build.sh derived; then
        echo "$1: parcode does not build in its default configuration" >&2
        exit 2
    fi ;;
C16)
    if ! ./build.sh portable; then
        echo "$1: parcode does not build in every feature configuration" >&2
        exit 2
    fi ;;
esac
exec target/release/harness run "$1"
