"""python3-vt -m vf.run C01 [--tier quick|thorough] [--replay FILE]"""
import sys
from vf.engine import main
sys.exit(main())
