"""known_findings.jsonl: the defects found and repaired (no entry suppresses anything)"""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {"drop buffered data when rewinding": "C03", "return exactly the requested amount": "C03", "count trailing bytes once": "C03", "make compressed_bytes_read terminate": "C03",
     "resolve offset deltas which are the base": "C10", "return the amount of written bytes from FlexibleSha1Writer": "C18", "store encoded objects as they are in MemoryDB": "C17",
     "report the type of objects in MemoryDB": "C17", "refuse deltas which copy from outside": "C05", "verify the declared sizes when applying": "C05", "make merging of deltas work": "C06",
     "resolve 64 bit offsets": "C08", "raise if an abbreviated sha": "C09", "accept abbreviations with upper": "C09", "end the search for the base": "C10", "raise BadObject if the stream": "C10",
     "raise BadObject if an offset delta": "C10", "report damaged objects as invalid": "C11", "make the membership operator": "C14", "ignore packs without index": "C13", "do not claim to have loose": "C14",
     "discover packs and alternates": "C14", "drop alternates whose": "C15", "don't fail on alternates": "C15", "don't follow alternates": "C15", "don't use a cached database": "C14",
     "don't let threads miss": "C19", "don't let threads read": "C19", "read packs larger": "C21", "don't let the memory manager": "C21", "close the descriptor of a loose": "C02",
     "don't ignore that a file descriptor": "C02", "read everything from an FDStream": "C16", "remove the temporary file": "C02", "release the lock if a locked": "C16", "release the lock if its": "C16",
     "read all of a file from": "C16", "name a new pack": "C12", "don't create incomplete packs": "C12", "leave nothing behind if a pack": "C12", "don't store an object if its stream": "C02",
     "don't report a version for an index": "C08", "keep refusing a file": "C10", "find packs whatever the path": "C13",
     "let the next update of a packed": "C24", "don't use an incomplete list of packs": "C24", "don't take a GitDB for empty": "C24",
     "raise if the compressed data": "C25", "refuse headers of loose": "C25", "refuse packed objects of the reserved": "C25", "copy all of a stream": "C01",
     "refuse deltas with a cut off": "C05", "take empty files": "C26", "read files to their end": "C26", "ask for nothing": "C26", "refuse indices of unknown": "C08", "refuse to pack objects with a wrong": "C07"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--grep=^fix:", "--format=%H%x1f%s%x1f%b%x1e"], capture_output=True, text=True).stdout
out = ["# A JSON object per line: status \"known\", a genuine defect which is recorded, not repaired (there is none). Lines \"fixed:\": repaired in /repo, suppress nothing."]
for rec in log.split("\x1e"):
    if not rec.strip():
        continue
    h, s, b = rec.strip("\n").split("\x1f")
    p = [v for k, v in P.items() if k in s]
    assert len(p) == 1, (s, p)
    what = " ".join(b.split()) or s[5:]
    out.append("fixed: property=%s %s %s" % (p[0], h[:12], what))
open(os.path.join(ROOT, "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
print(len(out) - 1)
