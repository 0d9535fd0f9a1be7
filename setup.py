import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import build
build.ensure_irdump(); print('analyser front end ready')
