#!/usr/bin/env python3
"""fixed.py PROP HASH TEXT: record a repaired defect"""
import sys
open('/verif/known_findings.txt','a').write("fixed: property=%s %s %s\n"%(sys.argv[1],sys.argv[2],sys.argv[3]))
