#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's current tree itself. This verifies the toolchain."""
import subprocess, sys, tempfile, os
t = tempfile.mkdtemp()
try:
    c = os.path.join(t, "a.c"); open(c, "w").write("int main(void){return 0;}\n")
    for f in (["-fsanitize=address,undefined"], ["-fsanitize=thread"], ["-O2"]):
        subprocess.check_call(["gcc"] + f + [c, "-o", c + ".x"]); subprocess.check_call([c + ".x"])
    print("toolchain ok")
finally:
    for f in os.listdir(t): os.unlink(os.path.join(t, f))
    os.rmdir(t)
