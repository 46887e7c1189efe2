"""Vacuity guard: every function and lemma gets an extra postcondition `vac(N)`, with N its own number and `vac`
uninterpreted. No contract can establish it, so a function whose `vac(N)` is accepted was verified from
contradictory assumptions (an unsatisfiable precondition, or trusted contracts that contradict each other)."""
import re

def instrument(src, meta):
    ls = src.split("\n")
    names, ins = {}, {}
    n = 0
    def add(name, head):
        nonlocal n
        n += 1
        names[n] = name
        j, ens, body = head, None, None
        while j < len(ls) and j < head + 200:
            t = ls[j].strip()
            if ens is None and re.match(r"ensures\b", t): ens = j
            if t == "{" or (re.search(r"\{\s*$", t) and j > head and not t.startswith(("&&", "||")) and ens is None and False): body = j; break
            j += 1
        if body is None: return False
        if ens is not None:
            ls[ens] = ls[ens].replace("ensures", "ensures crate::vac(%d)," % n, 1)
        else:
            k = next((i for i in range(head, body) if ls[i].strip().startswith("returns")), body)
            ins[k] = "ensures crate::vac(%d)," % n
        return True
    skipped = []
    for f in meta["fns"]:
        if f["mode"] == "verified":
            if not add(f["key"], f["start"] - 1): skipped.append(f["key"])
    spans = [(f["start"] - 1, f["end"] - 1) for f in meta["fns"] if f["mode"] == "verified"]
    for i, l in enumerate(ls):
        m = re.search(r"\bproof fn (\w+)|^\s*(?:pub )?fn ((?:thm|lemma)\w*)", l)
        if not m or any(a <= i <= b for a, b in spans) or l.lstrip().startswith("//"): continue
        if "external_body" in l or "external_body" in ls[i - 1]: continue
        for j in range(i, min(i + 60, len(ls))):
            t = ls[j] if j > i else l[m.end():]
            e = re.search(r"\bensures\b", t)
            if e:
                n += 1
                names[n] = m.group(1) or m.group(2)
                off = (m.end() if j == i else 0) + e.end()
                ls[j] = ls[j][:off] + " crate::vac(%d)," % n + ls[j][off:]
                break
            if j > i and re.search(r"\bfn \w+", t): break
    out = []
    for i, l in enumerate(ls):
        if i in ins: out.append(ins[i])
        out.append(l)
    return "\n".join(out), names, skipped

def judge(src, names, diags):
    """names of the functions whose vac(N) was accepted, and of those where the solver gave up on it"""
    hit, gave_up = set(), set()
    lines = src.split("\n")
    for d in diags:
        for s in d.get("spans", []):
            if "failed this" in (s.get("label") or "") and s.get("text"):
                t = s["text"][0]
                m = re.search(r"vac\((\d+)\)", t["text"][t["highlight_start"] - 1:t["highlight_end"]])
                if m: hit.add(int(m.group(1)))
        if "Resource limit" in d.get("message", "") and d.get("spans"):
            for l in lines[d["spans"][0]["line_start"] - 1:][:60]:
                m = re.search(r"crate::vac\((\d+)\)", l)
                if m: gave_up.add(int(m.group(1))); break
    gave_up -= hit
    return [names[k] for k in names if k not in hit and k not in gave_up], [names[k] for k in sorted(gave_up)]
