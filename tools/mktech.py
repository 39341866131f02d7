"""Technique and level notes per property -> techniques.json"""
import json, os
T = {
"C01": ["TLA+/TLC: implementation-shaped FIR stage models (exhaustive) + trace validation of partitioned runs against the stream specification",
        "exhaustive over block sizes/alignments and call histories in the models of the FIR stages (index laws for every size proved with Apalache); on the real code every path class of every stage, all block sizes to 2100, all pairs of small sizes, blocks of more than 2^31 samples, decided by the trace specification"],
"C02": ["TLA+/TLC: index-level FIR models with buffer-bound invariants + trace validation of guarded-buffer runs (page guards, canaries) and sanitizer builds",
        "exhaustive over sizes/alignments/orders in the models; on the code every path class, five buffer placements, every small block size"],
"C03": ["TLA+/TLC trace validation: runs of differently built and dispatched code against one golden response per configuration; path-class plan from the stage models",
        "all configurations, builds gcc/clang, -O0..-O3, x86-64-v3, -Os -ffast-math, header/shared, with/without SSE, the NEON path over emulated intrinsics, all alignment classes"],
"C04": ["TLA+/TLC: histories generated from the Resampler specification (simulation), replayed on the code and validated by the trace specification",
        "generated histories incl. NaN/Inf/huge inputs before reset, all configurations"],
"C05": ["TLA+/TLC trace validation against a superposition specification (kernel applied to integer streams, evaluated by TLC)",
        "sampled streams, sparse and dense, all configurations, positions far into the stream; 26-bit fixed point"],
"C06": ["TLA+/TLC: cascade model of the delays + trace validation of measured kernels (symmetry, length, delay) against the contract specification",
        "all configurations; measured impulse responses decide"],
"C07": ["TLA+/TLC: contract specification of the measured spectra/step responses; the spectrum is the measured abstraction of the trace",
        "all configurations, dense frequency grid"],
"C08": ["TLA+/TLC trace validation of float bit patterns against the copy specification",
        "all FIR configurations and ratio 1, all 2^32 bit patterns for ratio 1 and factor 2, samples for the others"],
"C09": ["TLA+/TLC: lane model of rounding/decay (exhaustive) + trace validation (fresh twin after the forgetting length; silence thresholds on float bits)",
        "all configurations; long noise prefixes"],
"C10": ["TLA+/TLC: model of overlapping calls with private/shared scratch generates schedules; replay with page-fault preemption, trace validation; TSAN runs",
        "schedules of 2-3 threads preempted inside process_block, histories with moves, free-running threads"],
"C11": ["TLA+/TLC: generated histories replayed with heap observation, validated by the trace specification",
        "histories with moves/assignments/failed constructions; leak accounting at the end of every history"],
"C12": ["TLA+/TLC: generated histories with queries and refused calls, validated by the trace specification; argument tables",
        "all supported configurations, unsupported ratios and precisions, odd blocks at any point"],
"C13": ["TLA+/TLC: precision lookup specification, TLC decides logged answers",
        "all 2^32 arguments of find_precision_for_bits and precision_name"],
"C14": ["TLA+/TLC: AlignedArray state machine; generated histories replayed on the code with counting elements, trace validation",
        "generated histories, several element types, sizes up to 2^32 elements; alignment and wasted bytes for every size and address (Apalache)"],
"C15": ["TLA+/TLC: bisection model of the designer (exhaustive) + trace validation of designer calls against the contract",
        "grid of specifications; shipped tables against the designer"],
"C16": ["TLA+/TLC: all-pass lane model (SSE lanes = scalar = recurrence, exhaustive) + exact dyadic traces of the hiir classes",
        "NC 1..N, all call mixes generated by TLC, exact arithmetic, values of 28 bits for double, every bit of the coefficients"],
"C17": ["TLA+/TLC: composition of the delay models + trace validation of measured round-trip errors against the contract",
        "all configurations and precision pairs, random partitions"],
"C18": ["TLA+/TLC trace validation against the exact piecewise linear specification (integers)",
        "integer and coarse-grid streams, random partitions, all ratios"],
}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
json.dump(T, open(p, "w"), indent=1)
