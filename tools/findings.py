#!/usr/bin/env python3
"""writes known_findings.json: the repaired defects (git log of /repo) and the listed open ones"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # repair commit -> property
    "d5e24c2": "C19",
    "0c16005": "C30", "bd6e1d6": "C16",
    "065e166": "C04", "1926add": "C09", "72d5000": "C05", "964bf2e": "C29", "6d2675a": "C29", "655b734": "C29",
    "ec87d02": "C28", "8d1f654": "C28", "e2f92fb": "C28", "c9dd1de": "C28", "b0704e4": "C03",
    "1f3190f": "C26", "bc21ba5": "C27", "95189ff": "C24", "c4811c9": "C23", "ee11f3d": "C24", "ef97b63": "C24",
    "b656b19": "C06", "cd0c351": "C06", "b41566b": "C06", "24dbdab": "C06", "4efa5db": "C06", "436af0e": "C06",
    "aa27fbd": "C09", "ca266e0": "C06", "9cc799f": "C07", "b5e764b": "C07", "b9c64c6": "C07", "77a3111": "C21",
    "5e9f138": "C10", "727dbc4": "C10", "bcbad00": "C09", "5d2fa2a": "C08", "caa43fd": "C28", "550b421": "C05",
    "73b03b1": "C05", "7420536": "C05", "0d5b82b": "C17", "5cfc6c1": "C06", "7e92fab": "C06", "1197f0e": "C06",
    "8d1531d": "C01", "22203fe": "C20", "08f2edf": "C20", "6011e42": "C25", "df12762": "C08", "b9df39b": "C03",
    "3dc873a": "C04", "3fc87e6": "C05", "d027a70": "C02", "af98c0f": "C17", "ce81b0d": "C05", "ee80082": "C05",
    "b8d041d": "C06", "04158cc": "C06", "2a6d89d": "C06", "66cb8d9": "C26", "e6ff398": "C06", "1d2a990": "C06",
    "481301c": "C10", "64cdad2": "C05", "6eb8b56": "C11", "cc545ea": "C11", "001c0ab": "C12", "0fc6911": "C13", "f63bafd": "C13", "64e94de": "C13",
    "ac17b1a": "C14", "05bfc91": "C14", "bd6ad6c": "C15", "f173b8e": "C15", "993583a": "C15", "0ea6f91": "C05", "e75191c": "C14", "6428659": "C07", "9cf98ea": "C07",
    "49109d2": "C05", "511c125": "C05", "1c5819d": "C16", "df6b36f": "C16", "5501583": "C16", "b1535b9": "C16", "3f91a38": "C16", "35e2f5e": "C04", "79efa82": "C16", "275c63d": "C16", "8bdf48b": "C16", "2685821": "C16", "6626c19": "C03", "bb71287": "C16", "d7deb9e": "C16",
    "faa9200": "C18", "793136b": "C18", "5aac845": "C18", "51ffbdf": "C18", "1a243e9": "C18", "71bc35d": "C18", "dde5090": "C18", "1032d41": "C18", "86950aa": "C18", "da04a31": "C18",
    "9bcac03": "C05", "23367b2": "C03", "0eeb2eb": "C04", "541f33c": "C04", "b93eb1c": "C13", "f456153": "C03", "9702fae": "C17", "40ceed3": "C16", "01796de": "C17",
    "55caec0": "C25",
    "fa3cb70": "C04",
    "9600bac": "C04", "bc5fbe6": "C19", "a7a6e9a": "C31", "49a1707": "C11", "9c0c9e7": "C32", "38aba4f": "C17", "405a92b": "C33", "877a8a7": "C19", "3c41daf": "C34", "3a226da": "C13", "0fdef3a": "C35", "5990287": "C35", "d38d387": "C35", "36dde53": "C13", "a801991": "C13", "fc57152": "C35", "776ad46": "C19", "f0d3318": "C12", "f4c8c8b": "C13", "80bdf1a": "C13", "2b9bd2b": "C13", "6f62773": "C29", "1dffe7f": "C05", "b43f16f": "C17", "b329118": "C04", "6c39ed3": "C14", "db6f02e": "C28", "8305ffe": "C18", "739cbc9": "C20", "8c6b549": "C20",
    "9cbda0d": "C21", "458310d": "C21", "08fb182": "C22", "265d115": "C22", "5e7ccda": "C22", "8886183": "C22", "e22e736": "C13", "770de7c": "C13", "72cf402": "C26", "bc19687": "C26", "736c659": "C13",
}
OPEN = json.load(open(os.path.join(HERE, "tools", "open_findings.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
n = 0
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if h[:7] not in PROP:
        print("no property for", line)
        continue
    n += 1
    p = PROP[h[:7]]
    out.append({"id": "F%02d" % n, "property": p, "status": "fixed",
                "what": "fixed: property=%s %s %s" % (p, h[:7], s[4:].strip())})
json.dump({"findings": out + OPEN}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed", len(OPEN), "open")
