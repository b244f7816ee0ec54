import sys
from harness.core import main
sys.exit(main(sys.argv[1:]))
