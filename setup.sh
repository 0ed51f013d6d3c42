#!/bin/bash
# nothing to install: the framework is Python + the LLVM tools of the sandbox
cd "$(dirname "$0")" && python3-vt -c "import vf.verify, vf.run" && mkdir -p evidence replay .build
