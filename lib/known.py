"""Recorded findings, read from known_findings.txt.

Lines:  KNOWN property=<id> id=<name> charset=<cs> pairs=<lead>:<trail>[-<trail>][,...][;<lead>:...]  # what fails
        fixed: property=<id> <commit> <what failed>
A pair is the exact two-byte input that fails; the templates leave out those pairs and nothing else."""
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load():
    res = []
    if not os.path.exists(PATH):
        return res
    for l in open(PATH):
        if not l.startswith("KNOWN "):
            continue
        body, _, what = l.partition("#")
        d = dict(x.split("=", 1) for x in body.split()[1:])
        pairs = set()
        for grp in d["pairs"].split(";"):
            lead, trails = grp.split(":")
            for t in trails.split(","):
                a, _, b = t.partition("-")
                for c in range(int(a, 16), int(b or a, 16) + 1):
                    pairs.add((int(lead, 16), c))
        d["pairs"] = frozenset(pairs)
        d["what"] = what.strip()
        res.append(d)
    return res


_k = load()


def pairs(charset):
    s = set()
    for d in _k:
        if d["charset"] == charset:
            s |= d["pairs"]
    return frozenset(s)


bad6937 = pairs("iso-6937")
bad2312 = pairs("gb2312")
