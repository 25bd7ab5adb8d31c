#!/bin/bash
# Compiler wrapper: atomic operations of the code under test become calls (see sim/atomics).
rustc="$1"
shift
case " $* " in
*" --crate-name ark_inner_products "* | *" --crate-name ark_dh_commitments "* | *" --crate-name ark_ip_proofs "* | *" --crate-name ark_sipp "* | *" --crate-name ripp_sim "*)
    exec "$rustc" "$@" -C passes=tsan ;;
esac
exec "$rustc" "$@"
