#!/bin/sh
# funcmap itself denies lints newer compilers have extended: its own lints are not what is checked
case "$CARGO_PKG_NAME" in funcmap|funcmap_derive) exec "$@" --cap-lints allow ;; *) exec "$@" ;; esac
