"""setup_cmd: checks that the tools the checks need are here and that the library builds under the sanitizers."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib
missing = [t for t in ('gcc', 'clang', 'valgrind', 'go', 'openssl', 'asn1Parser') if shutil.which(t) is None]
if missing:
    print('missing tools: ' + ' '.join(missing))
    sys.exit(1)
print(vlib.opdrv())
