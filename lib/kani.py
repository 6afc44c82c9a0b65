"""Kani (CBMC) part of a check: the proofs in harness/src/h_rand.rs over the real sources of the repository."""
import os, re, subprocess, time
import build as bld

LONG = ("k_permuted_9", "k_fisher_9", "k_inplace_9", "k_reservoir_16_9", "k_fisher_20")  # lengths whose sequences of draws cannot all be replayed
D = bld.B + "/kani"
LIB = """//! generated: the Kani proofs, compiled against the repository's sources
#![allow(warnings)]
extern crate rusty_machine as rm;
#[path = "%s/harness/src/h_rand.rs"]
pub mod h_rand;
"""


def setup():
    bld.workspace(D, bld.V + "/crates/symx_native", bld.REPO + "/src/lib.rs", "", bld.V + "/crates/stubs", False)
    h = bld.HARNESS % {"main": D + "/kh/src/lib.rs", "symx": bld.V + "/crates/symx_native"}
    bld.put(D + "/harness/Cargo.toml", h.replace("[[bin]]", "[lib]") + '\n[lints.rust]\nunexpected_cfgs = "allow"\n')
    bld.put(D + "/kh/src/lib.rs", LIB % bld.V)


def cargo_kani(args, timeout):
    e = bld.env()
    e.pop("RUSTUP_TOOLCHAIN")
    e.pop("RUSTFLAGS")
    p = subprocess.Popen(["cargo", "kani", "--output-format=terse"] + args, cwd=D + "/harness", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return (o or "") + "\nTIMEOUT"


def replay(h):
    """harness and parameters of the replay of proof h: the same statements on the real code, for every sequence of draws"""
    k, *n = h.split("_")[1:]
    if k == "folds":
        return "k_fold", dict(n=int(n[0]), k=int(n[1]), fail=0, sh=2)
    which = dict(shuffler=0, permuted=0, wide=0, fisher=1, inplace=2).get(k, 3)
    return "replay_rand", dict(which=which, n=int(n[0]), k=int(n[-1]))


def run(harnesses, seconds):
    """-> (number verified, {harness: what kani says if it did not verify it}, stats)"""
    t = time.time()
    with bld.Lock():
        setup()
        sel = sum([["--harness", "h_rand::" + h] for h in harnesses], ["--exact"])
        o = cargo_kani(["-Z", "unstable-options", "-j", "8", "--harness-timeout", "%ds" % seconds] + sel, seconds + 200)
    why = {}
    bad = set(re.findall(r"Verification failed for - h_rand::(\w+)", o))
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    reached = len(re.findall(r"\*\* 1 of 1 cover properties satisfied", o))
    if not m or int(m.group(3)) != len(harnesses) or int(m.group(2)) != len(bad):
        why = {h: "no summary: " + o[-600:] for h in harnesses}
    else:
        fails = "; ".join(sorted(set(re.findall(r"Failed Checks: (.*)", o))))
        why = {h: fails for h in bad}
        if not bad and reached != len(harnesses):
            why = {h: "vacuous: %d of %d harnesses reach their end" % (reached, len(harnesses)) for h in harnesses}
    stats = dict(harnesses=len(harnesses), verified=len(harnesses) - len(why), properties=sum(int(x) for x in re.findall(r"\*\* \d+ of (\d+) failed", o)),
                 solver_s=round(sum(float(x) for x in re.findall(r"Verification Time: ([\d.]+)s", o)), 1), wall_s=round(time.time() - t, 1))
    return len(harnesses) - len(why), why, stats
