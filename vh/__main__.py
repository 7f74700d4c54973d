import sys

from vh.core import main, selftest

if sys.argv[1:2] == ["--selftest"]:
    sys.exit(selftest())
sys.exit(main(sys.argv[1], sys.argv[2:]))
