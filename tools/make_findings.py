"""Writes known_findings.json: the defects repaired by fix: commits in /repo."""
import json, os, subprocess
PROP = {"18d67a4":"C05","f1421a8":"C08","6455e9c":"C05","3ce23f1":"C04","23eaf38":"C04","7e45d64":"C07","c7c038f":"C07","44cdf40":"C07","74810b2":"C02","54063b4":"C03","f2af457":"C04","d0e114e":"C04","7ab382e":"C06","9ddfc2d":"C06","e76b09d":"C10","3322b34":"C12","7e5537d":"C02","97a6d66":"C11","951ba33":"C11","8a91b95":"C13","94c4fe5":"C14","212cbaa":"C12","20e6483":"C26","cbc530c":"C26","7c00be5":"C15","4723c8f":"C16","60aa819":"C16","8afe58f":"C16","6db562f":"C18","7cd25ca":"C18","ef29297":"C23","8366a15":"C24","3f107c2":"C24","daeaa41":"C23","1880929":"C08","13d9eb8":"C08","ab640b5":"C10","dbadfdc":"C18","ce82f50":"C21","787d392":"C21","bf1ffcf":"C22","05d8bd9":"C26","19ec49d":"C26","ddf65f2":"C27","dfa4816":"C11","dc93e2b":"C03","d02588d":"C04","290b67e":"C08","ef5c8e0":"C03","06f6891":"C01","89329cd":"C01","00c7f01":"C04","66cdaab":"C06","ca0413f":"C02","be53a9b":"C12","2e9c083":"C10","8783299":"C11","604ccde":"C21","58b0889":"C23","242c08c":"C23","b092b4c":"C21","bf1b5ce":"C21","7d6295c":"C21","ceff67a":"C24","a5b6261":"C24","5af7df5":"C18","6d1cce3":"C03","6452cb1":"C08","94f2b5a":"C01","d5f0622":"C23"}
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ",1)
    if s.startswith("fix: "):
        fixed.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump({"known": [], "fixed": fixed}, open(out,"w"), indent=1)
print(len(fixed))
