#!/bin/bash
# replay.sh FILE: runs the counterexample in FILE against the compiled code of /repo.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
bash setup.sh >&2 || exit 2
exec bin/engine replay -verif "$PWD" -file "$f"
