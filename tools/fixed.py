#!/usr/bin/env python3
"""tools/fixed.py PROP HASH "what failed" -- append a fixed: line to known_findings.txt"""
import sys,subprocess
p,h,w=sys.argv[1:4]
h=subprocess.check_output(['git','-C','/repo','rev-parse','--short',h],text=True).strip()
open('/verif/known_findings.txt','a').write(f"fixed: property={p} {h} {w}\n")
