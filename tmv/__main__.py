import sys

from tmv import core

sys.exit(core.main())
