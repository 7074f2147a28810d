import sys

from harness.core import main

sys.exit(main())
