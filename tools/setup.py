"""Nothing has to be built ahead of the checks: confirm that the tools they use are present."""
import subprocess, sys
for c in (["/usr/bin/clang-18", "--version"], ["/usr/bin/opt-18", "--version"], ["/usr/bin/llvm-link-18", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
import numpy
print("ready")
