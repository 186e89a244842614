#!/usr/bin/env python3
"""Mutation campaign: how much of the library's behaviour do the checks decide?

  mutate.py WORK [N] [SEED]     try N random mutants (default: all) in scratch copies under WORK

A mutant is one small edit of include/ieme. It is run against the checks
(reduced runs, stopping at the first alarm). Mutants that no check reports are
built with the repository's own tests; the report lists them as
  survived   no check and no test notices (equivalent, or a gap)
  test-only  a test notices and no check does (a gap)
Not registered as a check; results are summarised in DESIGN.md.
"""
import os, random, re, shutil, subprocess, sys
from pathlib import Path

work = Path(sys.argv[1]); N = int(sys.argv[2]) if len(sys.argv) > 2 else 10**9
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
VERIF = Path(__file__).resolve().parent.parent
repo = work / "repo"; verif = work / "verif"
FILES = ["ops", "fraction", "fraction_math", "fraction_queries", "raw_fraction", "raw_fraction_math",
         "raw_fraction_queries", "math_utilities", "mixed_number", "floating_point", "parse_utilities",
         "hash", "chrono", "fraction_literals", "numbers"]
ORDER = ["C08", "C01", "C16", "C15", "C13", "C02", "C03", "C14", "C04", "C06", "C07", "C05", "C09", "C10",
         "C11", "C12", "C21", "C22", "C23"]

RULES = [
    (r"(?<![-=<>])\s\+\s", [" - "]), (r"(?<=[\w)])\s-\s(?=\w)", [" + "]), (r"\s\*\s(?=\w)", [" / ", " + "]),
    (r"\s/\s", [" * "]), (r"\s%\s", [" / "]), (r"==", ["!=", "<=", ">="]), (r"!=", ["=="]),
    (r"\s<\s(?=[\w-])", [" <= ", " > "]), (r"\s>\s(?=[\w-])", [" >= ", " < "]), (r"\s<=\s", [" < "]), (r"\s>=\s", [" > "]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\b_0<", ["_1<"]), (r"\b_1<", ["_0<"]), (r"!(?=\w)", [""]),
    (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bnumerator\b", ["denominator"]),
    (r"\bdenominator\b", ["numerator"]), (r"\bnormalize_signs\b", ["ignore_signs"]),
    (r"\bignore_signs\b", ["normalize_signs"]), (r"\bis_negative\b", ["is_non_positive", "is_positive"]),
    (r"\bis_positive\b", ["is_non_negative", "is_negative"]), (r"\bis_undefined\((\w+)\)", ["false", "!is_defined(-\\1)"]),
    (r"\bis_zero\((\w+)\)", ["false"]), (r"(?<=[^\w.'])([0-9]+)(?=[^\w.'\"])", ["(\\1 + 1)"]),
    (r"\bceil\b", ["floor"]), (r"\bfloor\b", ["ceil"]), (r"\btrunc\b", ["floor"]), (r"\bround\b", ["trunc"]),
    (r"(?<=[(= ])-(?=\w)", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\blcm\b(?= /)", ["1"]), (r"\bstd::lcm\(([^,;]+), ([^)]+)\)", ["(\\1) * (\\2)"]),
    (r"\bstd::abs\b|\bieme::abs\b", ["+"]), (r"reduce\(value\.raw\(\)\)", ["value.raw()"]),
    (r"<<(?= 1)", [">>"]), (r"\^", ["|"]), (r"\+\+", ["--"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]),
]


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def candidates(name):
    path = repo / "include" / "ieme" / f"{name}.hpp"
    text = path.read_text()
    # only definitions: after the rule line, where the file has one
    start = text.find("// ====")
    start = max(start, 0)
    out = []
    for rx, subs in RULES:
        for m in re.finditer(rx, text):
            if m.start() < start: continue
            line = text[text.rfind("\n", 0, m.start()) + 1:text.find("\n", m.start())]
            if re.match(r"\s*(//|#|template|typename|using|namespace|constexpr \w|static_assert|operator)", line): continue
            if "noexcept" in line: continue
            for s in subs:
                new = m.expand(s)
                out.append((name, text[:m.start()].count("\n") + 1, m.start(), m.end(), new, line.strip()))
    return out


def main():
    if not repo.exists():
        work.mkdir(parents=True, exist_ok=True)
        sh(f"git clone -q /repo {repo}"); sh(f"git clone -q {VERIF} {verif}")
    all_ = [c for f in FILES for c in candidates(f)]
    random.Random(seed).shuffle(all_)
    print(len(all_), "mutants", flush=True)
    env = dict(os.environ, IEME_REPO=str(repo), VERIF_RUNS="20000")
    counts = {}
    for k, (name, line, b, e, new, src) in enumerate(all_[:N]):
        path = repo / "include" / "ieme" / f"{name}.hpp"
        text = path.read_text()
        path.write_text(text[:b] + new + text[e:])
        label = f"{name}.hpp:{line} [{src}] '{text[b:e]}' -> '{new}'"
        verdict = None
        try:
            if sh(f"g++ -std=c++20 -fsyntax-only -w -I{repo}/include -x c++ {verif}/tools/all.cpp").returncode:
                verdict = "uncompilable"
            else:
                for p in ORDER:
                    r = sh(f"python3 check.py {p}", cwd=verif, env=env)
                    if r.returncode == 1:
                        verdict = "caught " + p; break
                    if r.returncode != 0:
                        verdict = f"no answer {p} rc {r.returncode} {r.stderr[-300:]}"; break
            if verdict is None:
                r = sh(f"cd {repo} && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=g++ "
                       "-DCMAKE_CXX_FLAGS=-Wno-error -DIEME_BUILD_TESTS=ON "
                       "-DCMAKE_PROJECT_Ieme_INCLUDE=/opt/vp/catch2-compat/catch2.cmake >/dev/null && ninja -C _build 2>&1 | tail -3"
                       " && ctest --test-dir _build 2>&1 | tail -4")
                verdict = "survived" if "100% tests passed" in r.stdout else "test-only " + r.stdout[-200:]
        finally:
            path.write_text(text)
        counts[verdict.split()[0]] = counts.get(verdict.split()[0], 0) + 1
        print(k, verdict, "|", label, flush=True)
    print(counts)


main()
