#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo (developer tool, not run by checks)."""
import subprocess, os
M = {"0ea0d09":"C31","415c83e":"C01","b0c0a6f":"C02","393a64d":"C02","38e9835":"C02","c6f4081":"C02","6455d6b":"C32","83fa3ad":"C32","a9859cb":"C33","cb83780":"C33",
"5444b52":"C20","af0a7ad":"C33","aeecdd0":"C16","bff41ea":"C11","1299f24":"C09","0bc57d2":"C07","8c47e1f":"C08","efd44db":"C06","410c177":"C05",
"d442e2e":"C16","7ebb0ff":"C17","6e60df5":"C18","5ac2f5b":"C18","c34c6dd":"C24","f207e21":"C25","60c87c3":"C25","cb7567a":"C23","2c059eb":"C19",
"99e7f68":"C21","d4b419f":"C21","8860e00":"C22","f3febdc":"C27","462c3c2":"C32","2bf5f4d":"C28","84a9e52":"C28","fcd041a":"C28","f843913":"C28",
"694788c":"C03","d8c2d95":"C17","801b178":"C24","9f58a6f":"C24","15e67c8":"C24","4312439":"C31","58df096":"C31",
"d83f423":"C11","8f5a1d6":"C19","075fea1":"C20","a1631ba":"C02","3eeb369":"C15","d555595":"C27","f32c3f3":"C06","9797495":"C13","1c62c27":"C14","ea3a897":"C03","ead7a0d":"C11","825df28":"C08","bd9de9e":"C09","a994c8c":"C09","9e29386":"C26","6834793":"C22","d7ef585":"C28","ba5be81":"C26","58f5af8":"C30"}
out = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","91ba500..HEAD"], text=True)
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(v + "/known_findings.txt", "w") as f:
    f.write("# Genuine defects of hzw456/go-geo found by the checks. All of them are repaired; a fixed entry suppresses nothing.\n")
    for l in out.splitlines():
        h, s = l.split(" ", 1)
        f.write("fixed: property=%s %s %s\n" % (M[h], h, s.removeprefix("fix: ")))
