#!/bin/bash
# checks that the tools the framework needs are present; nothing to build (all work is done per check from /repo)
cd "$(dirname "$0")" || exit 1
for t in clang-18 llvm-link-18 opt-18 cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c "import z3, zvc.check; from zvc import runner; runner.load_contracts(); print('contracts:', len(runner.load_contracts()))"
