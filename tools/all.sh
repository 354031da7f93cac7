#!/bin/bash
# run all checks 7-parallel on /repo; print non-ok
cd /verif
python3 -c "
import json
slow=['C35','C36','C10','C09','C32','C37','C39','C02']
c=[x['property'] for x in json.load(open('MANIFEST.json'))['checks']]
print('\n'.join(sorted(c,key=lambda p:(p not in slow,p))))" | xargs -P7 -I{} sh -c 'python3 check.py {} --tier ${TIER:-quick} > /tmp/all_{}.log 2>&1; echo {} rc $? $(grep -c UNDECIDED /tmp/all_{}.log) und $(grep -o "wall=.*" /tmp/all_{}.log)' 
