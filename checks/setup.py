import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vh
def setup():
    vh.build()
    return 0
vh.main(setup)
