"""Regenerates MANIFEST.json from the table below. """
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
CHECKS = {
    "C01": ("TLA+ design model (TLC, EvalCache.tla) of the cached evaluation loop, replay of its sequences in all evaluation functions and trace validation against the memoryless machine TraceMemo.tla",
            "all coordinate/time sequences of the bounded design model plus random walks, in every call form"),
    "C07": ("TLA+ design model (TLC, Subset.tla) of degree-range partitions, replay and trace validation against TraceDegrees.tla with unit-vector coefficients",
            "all degree limits of the bounded model for all coefficient classes and models"),
    "C08": ("TLA+ calendar model (TLC, CalendarWalk.tla), replay of its days and trace validation of recorded conversions against exact rational civil calendar in TraceCalendar.tla",
            "whole-century day walks plus random floating-point times"),
    "C02": ("TLA+ trace validation (TLC) of evaluations recorded at and one float step around every validity end",
            "TraceValidity.tla/Coeffs.tla; quick ~15 s"),
    "C03": ("TLA+ design model (TLC, Composer.tla), exhaustive replay of its scenarios and trace validation against Coeffs.tla",
            "all interval layouts of the bounded design model plus random trees"),
    "C04": ("TLA+ design model (TLC, Combiner.tla), exhaustive replay of its scenarios and trace validation against Coeffs.tla",
            "all bounded pairs of decompositions plus random trees"),
    "C05": ("TLA+ design models (TLC, Composer.tla, Intersector.tla), replay and trace validation against TraceIntervals.tla",
            "all interval layouts of the bounded design models plus random interval lists"),
    "C06": ("TLA+ design model (TLC, Bisect.tla), replay and trace validation against exact rational interpolation in TraceInterp.tla",
            "node look-up with cached hint proved over the bounded model; implementation replayed"),
    "C09": ("TLA+ design model (TLC, BroadcastRules.tla) of the broadcasting rules, replay of all its shapes in every function and trace validation against the index maps of Broadcast.tla",
            "all shapes of the bounded design model and random shapes for 70 functions and models"),
    "C10": ("TLA+ design model (TLC, Assembly.tla) of the pushes and the summation loop, replay of its histories with exact rational fields and trace validation against the recursive sum of TraceAssembly.tla",
            "all histories of the bounded design model and random nested compositions; exact fields on the reference sphere plus the sum over all 9 frames"),
    "C11": ("TLA+ design model (TLC, FrameWalk.tla) of walks of a vector through the frames, replay of its walks and trace validation of conversions, rotations, dipole frames and model fields against the exact rational-angle frames of TraceFrames.tla",
            "all walks of the bounded design model at Pythagorean angles including poles and the date line, random round trips in all conversion paths"),
    "C12": ("TLA+ design model (TLC, MioSwitch.tla) of the split evaluation of the primary field, replay of all its calls and trace validation of MIO fields, Fourier series, boundary, F10.7 scaling and current sheet against TraceMio.tla",
            "all calls of the bounded design model and random models with exact rational fields"),
    "C13": ("TLA+ design model (TLC, QdState.tla) of the state of the quasi-dipole library, replay of its histories with synthetic coefficient files and trace validation against the exact linear maps of TraceQd.tla and the memoryless evaluator of TraceMemo.tla",
            "all histories of two calls of the bounded design model (sampled in the quick tier), random histories with synthetic and real coefficient files"),
    "C14": ("TLA+ design model (TLC, SolarDays.tla) of the calendar arithmetic of the sub-solar point over all supported days, replay of its days and trace validation of sub-solar points, local and universal times against TraceSun.tla and the memoryless evaluator of TraceMemo.tla",
            "all days from 1601 to 2100 in the design model; implementation at month, leap day and year boundaries, random times and longitudes"),
    "C15": ("TLA+ design model (TLC, FieldWalk.tla) of the two walks and their join, exhaustive replay of its configurations with a model having such a field and trace validation of field lines of real models against TraceLine.tla",
            "all configurations of the bounded design model, random lines of models of all kinds in all frames"),
    "C16": ("TLA+ line-machine model (TLC, FileMachine.tla) of the SHC parser checked against the token grammar FileGrammar.tla, replay of all its files and trace validation of the loaded coefficients against TraceFiles.tla",
            "all files of the bounded alphabet of lines, random and mutated files in random formatting, sets of files and bundled files"),
    "C18": ("TLA+ design model (TLC, MergeWalk.tla) of the merging of products, replay with written CDF files through all MMA loaders and trace validation against TraceMerge.tla",
            "all sequences of bounded products plus random series cut to files, spoiled and unreadable files"),
    "C19": ("TLA+ design models (TLC, Layouts.tla, Sharing.tla) of strided views and of histories of calls and writes, replay in all functions and trace validation of snapshots of inputs and results against the heap of TraceHeap.tla",
            "all layouts reachable by the bounded numpy operations and all bounded histories (sampled per function)"),
    "C20": ("TLA+ design model (TLC, SunWalk.tla) of an observer under the Sun, replay of all its walks and trace validation of the recorded positions against TraceSky.tla (exact rational-angle spherical trigonometry, kinematic relations and independent almanac)",
            "all walks of three (four in the thorough tier) actions of the design model and random long walks at random times"),
    "C21": ("TLA+ design model (TLC, LegendreWalk.tla) of the walks through the triangular tables, replay of its configurations and trace validation of the recorded blocks, their sums and the whole-array evaluation against the identities in fixed point arithmetics of TraceBlocks.tla",
            "degrees to 40 (300 in the thorough tier) at rational angles, poles and their vicinity; exact integer sums; writes behind the arrays abort"),
    "C22": ("TLA+ table of the contracts of all exported functions (Contracts.tla) and design model (TLC, CallWalk.tla) of histories of correct and refused calls and of the cache of the coefficient files, replay of all single faults and histories in fresh processes and trace validation against TraceCalls.tla",
            "all 3.5k single faults of 70 functions and all bounded histories, random faults and histories, guarded heap, repeated calls with the gained memory, handles and references"),
    "C17": ("TLA+ line-machine models (TLC, FileMachine.tla) of the WMM, IGRF, EMM and MIO parsers checked against the token grammars of FileGrammar.tla, replay of their files and trace validation of the loaded coefficients against TraceFiles.tla",
            "files of the bounded alphabets of lines (sampled), random and mutated files in random formatting and bundled files"),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, missing = [], []
    for prop in props:
        pid = prop["id"]
        if pid not in CHECKS:
            missing.append({"property": pid, "reason": "check under construction"})
            continue
        technique, note = CHECKS[pid]
        cmd = "/opt/venv/bin/python harness/%s.py" % pid.lower()
        checks.append({
            "property": pid, "quick_cmd": cmd,
            "thorough_cmd": "env VERIF_TIER=thorough " + cmd,
            "technique": technique, "level": MC, "level_note": note})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as file_:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
                   "not_applicable": missing}, file_, indent=1)
        file_.write("\n")


main()
