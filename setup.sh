#!/bin/bash
# builds the monitors and their instrumented variants once (checks rebuild what changed)
ROOT=$(cd "$(dirname "$0")" && pwd)
VERIF_VARIANTS="gen asan tsan miri cfgs"
. "$ROOT/tools/build.sh"
