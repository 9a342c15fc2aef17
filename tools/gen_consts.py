import sys, json
sys.path.insert(0, '/verif')
from pvc.runner import consts_of
json.dump(consts_of('/repo'), open('/verif/tools/base_consts.json', 'w'), indent=0, sort_keys=True)
