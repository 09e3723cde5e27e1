#!/usr/bin/env python3
"""edit.py EDITS.json: make the listed [file, old, new] replacements in the scratch copy /tmp/px"""
import json, sys
for f, old, new in json.load(open(sys.argv[1])):
    p = '/tmp/px/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
