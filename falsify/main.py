import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules['base'] = __import__('base')
import base
base.main()
