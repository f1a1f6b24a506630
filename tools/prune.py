#!/usr/bin/env python3
"""Build what is left of the harness when /repo no longer offers everything it calls.

A change of /repo may rename or move something that the harness calls. The properties whose
workloads do not need it can still be decided: this copies the harness to sim/target/pruned
and, until it compiles, replaces the body of each function that does not compile by a call
that ends the simulated run as "unavailable" (see driver.rs); a function whose signature does
not compile is removed, and then its callers become unavailable in the same way. Nothing else
is changed, so no check is weakened: a run either does all that it did, or is not counted.
"""
import json, os, re, shutil, subprocess, sys

SIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim")
DIR = os.path.join(SIM, "target", "pruned")
STUB = "{ crate::driver::unavailable() }"


def mask(s):
    """s with comments, strings and character literals blanked."""
    out = list(s)
    i, n = 0, len(s)

    def blank(a, b):
        for k in range(a, min(b, n)):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c in "rb" and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")) and (
            m := re.compile(r'b?r(#*)"').match(s, i)
        ):
            end = '"' + m.group(1)
            j = s.find(end, m.end())
            j = n if j < 0 else j + len(end)
            blank(i, j)
            i = j
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            blank(i, j + 1)
            i = j + 1
        elif c == "'":
            m = re.compile(r"'(\\x..|\\u\{[^}]*\}|\\.|[^\\'])'").match(s, i)
            if m:
                blank(i, m.end())
                i = m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


PAIR = {"{": "}", "(": ")", "[": "]"}


def close(m, i):
    """Index of the bracket that closes the one at i."""
    d = 0
    for k in range(i, len(m)):
        if m[k] in "{([":
            d += 1
        elif m[k] in "})]":
            d -= 1
            if d == 0:
                return k
    return len(m) - 1


def functions(m):
    """(start of `fn`, start of the body, end of the body, name)"""
    res = []
    for f in re.finditer(r"\bfn\s+(\w+)", m):
        k = f.end()
        while k < len(m):
            if m[k] in "([":
                k = close(m, k)
            elif m[k] == ";":
                k = None
                break
            elif m[k] == "{":
                break
            k += 1
        if k is not None and k < len(m):
            res.append((f.start(), k, close(m, k), f.group(1)))
    return res


def items(m, lo, hi):
    """The items between lo and hi: from the end of the one before to its own end."""
    res, k, start = [], lo, lo
    while k < hi:
        c = m[k]
        if c == "#" and re.compile(r"#!?\s*\[").match(m, k):
            k = close(m, m.index("[", k)) + 1
            continue
        if c in "([":
            k = close(m, k)
        elif c == "{":
            k = close(m, k)
            r = re.compile(r"\s*;").match(m, k + 1)
            if r and r.end() <= hi:
                k = r.end() - 1
            res.append((start, k + 1))
            start = k + 1
        elif c == ";":
            res.append((start, k + 1))
            start = k + 1
        k += 1
    return res


def enclosing_item(m, pos):
    """The smallest item around pos that is not part of a function body."""
    lo, hi = 0, len(m)
    while True:
        found = next(((a, b) for a, b in items(m, lo, hi) if a <= pos < b), None)
        if not found:
            return None
        a, b = found
        head = m[a:b]
        head = re.sub(r"^(\s|#\s*\[[^\]]*\])*", "", head)
        brace = None
        if re.match(r"(pub(\([^)]*\))?\s+)?(unsafe\s+)?(impl|mod|trait)\b", head):
            off = m.find(head[:20], a)
            brace = m.find("{", off if off >= 0 else a, b)
        if brace is None or brace < 0 or pos <= brace:
            return found
        end = close(m, brace)
        inner = next(((x, y) for x, y in items(m, brace + 1, end) if x <= pos < y), None)
        if inner is None:
            return found
        lo, hi = brace + 1, end


def newlines(s):
    return "\n" * s.count("\n")


def spans(msg):
    for sp in msg["spans"]:
        if not sp["is_primary"]:
            continue
        best = None
        while sp is not None:
            if "target/pruned/" in sp["file_name"]:
                best = sp
            sp = (sp.get("expansion") or {}).get("span")
        if best:
            yield os.path.basename(best["file_name"]), best["byte_start"]


def prune(errors):
    done = []
    by_file = {}
    for f, b in errors:
        by_file.setdefault(f, set()).add(b)
    for f, offs in by_file.items():
        path = os.path.join(DIR, f)
        raw = open(path, "rb").read()
        text = raw.decode()
        m = mask(text)
        cuts = {}
        fns = functions(m)
        for b in offs:
            pos = len(raw[:b].decode(errors="ignore"))
            around = [x for x in fns if x[0] <= pos <= x[2]]
            inner = max(around, key=lambda x: x[0], default=None)
            if inner and inner[3] == "workloads":
                a = text.rfind("Workload {", inner[1], pos + 1)
                if a < 0:
                    a = text.rfind("\n", 0, pos) + 1
                    e = text.find("\n", pos)
                else:
                    e = close(m, text.index("{", a)) + 1
                    r = re.compile(r"\s*,").match(text, e)
                    e = r.end() if r else e
                cuts[(a, e)] = newlines(text[a:e])
                done.append(f"{f}: entry {text[a:e].strip()}")
            elif inner and pos > inner[1] and text[inner[1] : inner[2] + 1].strip("\n") != STUB and STUB not in text[inner[1] : inner[2] + 1]:
                body = text[inner[1] : inner[2] + 1]
                cuts[(inner[1], inner[2] + 1)] = STUB + newlines(body)
                done.append(f"{f}: fn {inner[3]}")
            else:
                it = enclosing_item(m, pos)
                if it is None:
                    continue
                cuts[it] = newlines(text[it[0] : it[1]])
                done.append(f"{f}: item {' '.join(text[it[0]:it[1]].split())[:60]}")
        # larger cuts first; those inside them are dropped
        keep = []
        for a, e in sorted(cuts, key=lambda c: c[0] - c[1]):
            if not any(x <= a and e <= y for x, y in keep):
                keep.append((a, e))
        for a, e in sorted(keep, reverse=True):
            text = text[:a] + cuts[(a, e)] + text[e:]
        open(path, "w").write(text)
    return done


def main():
    shutil.rmtree(DIR, ignore_errors=True)
    shutil.copytree(os.path.join(SIM, "harness", "src"), DIR)
    main_rs = os.path.join(DIR, "main.rs")
    text = open(main_rs).read()
    open(main_rs, "w").write("#![allow(warnings)]\n" + text)
    removed = []
    for _ in range(25):
        p = subprocess.run(
            ["cargo", "build", "--offline", "-q", "-p", "pruned", "--message-format=json"],
            cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        )
        if p.returncode == 0:
            for r in removed:
                print("not available on this tree:", r)
            return 0
        errors, other = [], []
        for line in p.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("reason") != "compiler-message" or d["message"]["level"] != "error":
                continue
            here = list(spans(d["message"]))
            if here:
                errors += here
            elif d["target"]["name"] != "simcheck-pruned":
                other.append(d["message"].get("rendered") or d["message"]["message"])
        if other or not errors:
            print("\n".join(other[:20]) or p.stderr[-2000:])
            return 2
        new = prune(errors)
        if not new:
            print("cannot reduce the harness", errors[:5])
            return 2
        removed += [r for r in dict.fromkeys(new) if r not in removed]
    print("cannot reduce the harness")
    return 2


if __name__ == "__main__":
    sys.exit(main())
