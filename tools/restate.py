#!/usr/bin/env python3
"""restate.py ID < new statement: replace the statement of a property in props_data.py."""
import re, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")
s = open(p).read(); new = " ".join(sys.stdin.read().split())
pat = re.compile(r'(p\("%s", "[^"]*",\n  )"[^\n]*",\n' % sys.argv[1])
assert pat.search(s)
s = pat.sub(lambda m: m.group(1) + '"' + new.replace('"', '\\"') + '",\n', s)
open(p, "w").write(s)
