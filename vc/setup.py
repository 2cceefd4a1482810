"""setup_cmd: checks that the tools the framework needs are there; nothing to build ahead."""
import shutil, sys
import z3
for t in ('clang++-18', 'cvc5', 'g++'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
print('ok: z3 ' + z3.get_version_string())
