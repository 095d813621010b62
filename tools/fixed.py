#!/usr/bin/env python3
"""development aid: print the "fixed:" lines of known-findings.txt from the history of /repo"""
import subprocess
rules=[("C20",["do not copy","do not format","no copy of"]),("C11",["is reported at"]),("C09",["peeking past comments"]),("C07",["new line before a string","new line after throw","new line before the arrow","semicolon after","pattern default","before a comment","single semicolon","semicolon of a default"]),
("C11",["positions from the line table","end a line at","look ahead positions"]),("C12",["end the iterator"]),("C14",["tolerant mode"]),
("C06",["quotes of a directive","null as a literal","rest of the template"]),
("C17",["strict mode to","directives of a function"]),
("C05",["import","export"]),("C21",["break and continue"]),
("C22",["yield","await"]),("C16",["words","every word","only accept names","start a let declaration","async itself"]),
("C23",["target"]),
("C04",["pattern","arrow","parameters","rest "]),("C03",["class","method","constructor","static","async generator","getter"]),]
o=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
for l in o.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    p="C10"
    for k,ws in rules:
        if any(w in s for w in ws): p=k;break
    print(f"fixed: property={p} {h} {s} (it did not)")
