from __future__ import annotations

import sys

from auditwheel.main import main

if __name__ == "__main__":  # pragma: no branch
    sys.exit(main())
