#!/bin/bash
# Builds the library, the executable and all drivers from /repo's working tree.
cd "$(dirname "$0")/checks" && exec python3 -c "
from common import *
main(lambda: build('Peridigm','exodump',*[os.path.basename(f)[:-4] for f in sorted(glob.glob(os.path.join(VERIF,'harness','drv_*.cpp')))]) or 0)
"
