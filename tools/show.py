#!/usr/bin/env python3
import json,sys
d=json.load(open(sys.argv[1]));print(d['violation']);print(d['plan_text']);print(d['output'][:2500])
