"""Development aid: run ad hoc units. try.py FILE 'Unit kwargs' ..."""
import sys, os, json
sys.path[:0] = ['/verif/engine', '/verif']
import driver
from driver import Unit
us = [eval('Unit(%r, %s)' % (sys.argv[1], a)) for a in sys.argv[2:]]
print(driver.check('XX', us, 'quick', 1, '', '', budget=int(os.environ.get('T', '300'))))
c = json.load(open('/verif/evidence/XX.json'))['coverage']
print(c['seconds_compiling'], c['seconds_deciding'], c['seconds_deciding_all_workers'], c['slowest'])
os.unlink('/verif/evidence/XX.json')
