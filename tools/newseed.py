"""Write one planted change: newseed(id, property, file, [(old,new)...], needs, breaks, demo)."""
import os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDTRY_DIR", "/tmp/seedtry")
def newseed(id, prop, edits, needs, breaks, demo, files={}):
    os.makedirs(S, exist_ok=True)
    R = S + "/repo"
    if not os.path.isdir(R): subprocess.check_call(["cp", "-a", "/repo", R])
    sync = lambda: [subprocess.check_call(["rsync", "-rlp", "--checksum", "--delete", "/repo/%s/" % d, R + "/%s/" % d]) for d in (".git", "src")]
    sync()
    for f, old, new in edits:
        p = R + "/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "diff", "--", "src"], cwd=R, stdout=subprocess.PIPE, text=True, check=True).stdout
    sync()
    D = V + "/seeded/" + id
    os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "w").write(d)
    open(D + "/demo.sh", "w").write(demo if demo.startswith("#!") else "#!/bin/bash\n" + demo)
    os.chmod(D + "/demo.sh", 0o755)
    for n, c in files.items(): open(D + "/" + n, "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
    print(id, len(d))
BITS = '''import sys
def crc(d):
    r = 0
    for i in range(15, -1, -1):
        fb = (r >> 9 & 1) ^ (d >> i & 1)
        r = (r << 1 & 0x3FF) ^ (0x1B9 if fb else 0)
    return r
OFF = [0x0FC, 0x198, 0x168, 0x1B4, 0x350]
def word(d, o): return d << 10 | crc(d) ^ OFF[o]
def bits(w): return format(w, "026b")
'''
