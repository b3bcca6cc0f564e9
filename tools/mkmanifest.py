"""Writes MANIFEST.json from the plans and the notes below."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

COMMON = "Trusts the harness's own recorders and reference models, and the standard library. "

CHECKS = {
    "C01": ("differential oracle over generated numbers, every capture route",
            "Every integer of 8 and 16 bits and every edge of the wider ones, plus random values, through every capture route; every read is compared with the standard library's own conversion."),
    "C02": ("round-trip oracle with address tracking of borrowed text",
            "Text of every length up to 330 bytes, fragmented text, all chars (thorough) and both bools through every capture route; borrowed results are located in the captured memory."),
    "C03": ("full-observation oracle per primitive, every capture route",
            "All observations of every route that captures a primitive as one are compared with absolute expectations; values are sampled, routes are enumerated."),
    "C04": ("differential formatting oracle and failing sinks",
            "61 format specifications per value against the standard library's or the framework's own formatting, sinks that fail after a number of bytes, failing formatters."),
    "C05": ("recording serializer against direct serialization",
            "Generated serde structures of all shapes; the recorded calls must be those of the captured value itself."),
    "C06": ("recording stream against direct streaming, balance monitor",
            "Generated sval structures of all shapes; the recorded events must be those of the captured value itself, borrowed fragments at the same addresses."),
    "C07": ("cross-framework document oracle with an independent JSON parser",
            "Generated structures captured through one framework and consumed through the other; what is recorded must be what the frameworks' own bridge makes of the value, and JSON documents are parsed and compared."),
    "C08": ("full-observation oracle over every way of copying",
            "Every read of an owned or shared copy is compared with the same read of the original, for text of every length up to 330 bytes and generated values of every kind."),
    "C09": ("ledgers of user code and memory reuse around owned copies",
            "Owned copies are read again after their sources are changed, dropped and their memory is overwritten; ledgers in the captured values count every call of user code. Values and histories are sampled."),
    "C10": ("history monitor with drop ledgers and allocation counts",
            "Random histories of re-borrows, clones, copies and shares; every handle is observed after every step, and ledgers count live objects, clones and calls of user code."),
    "C11": ("real threads under ThreadSanitizer and Miri's scheduler, with linear oracles and ledgers",
            "Threads cloning, reading, converting and dropping handles of one value, natively, under ThreadSanitizer and under Miri with several schedules; interleavings are sampled."),
    "C12": ("element-wise oracle over every sequence reader",
            "Generated sequences of every element type, through every route and framework, by all ten readers; each entry is compared with the read of the element alone."),
    "C13": ("recording visitors of nine kinds, succeeding and failing",
            "Every kind of value, route and handle is visited by visitors overriding different callbacks; the calls, borrowed addresses and returned errors are judged."),
    "C14": ("matrix of captured and requested types with address tracking",
            "Every captured type against some ninety requested types, through every constructor and handle; the types are a fixed list, the handles are random histories."),
    "C15": ("chain oracle with address tracking of errors",
            "Generated errors and cause chains (up to some 300 long) of user and standard types, through every route and handle."),
    "C16": ("run counters in fill callbacks and a direct bag as reference",
            "Every operation on a bag over a counting fill callback is compared with the same operation on a direct bag; changing and failing callbacks in random histories."),
    "C17": ("failure injection at every call of producers and consumers",
            "Generated values with a failure injected at every place, and recorders, streams and sinks that fail at every call (sampled above 48 calls)."),
    "C18": ("Miri, AddressSanitizer and LeakSanitizer over hostile workloads",
            "Text around every inline limit, every primitive route, hostile sequences, unwinding user code and handle histories under Miri (sampled tightly) and AddressSanitizer in three storage configurations; the other properties' workloads run under AddressSanitizer too."),
    "C19": ("transcripts of one workload in many feature configurations, compared",
            "23 fixed and some random feature sets, from none at all to everything; every result of every operation two of them offer is compared. Values are sampled."),
    "C20": ("counting allocator around single operations",
            "Every operation on generated bags is measured by the global allocator, in four storage configurations."),
    "C22": ("token oracle over every kind, route and handle",
            "The token of generated values of every kind, through every route and handle, is compared with the one the captured value calls for; copies of failing data must be poisoned with the message they print."),
    "C23": ("differential formatting of errors, error provenance through visits, fills and serializers",
            "Errors made of generated messages and wrapped errors are printed under 27 specifications next to what they wrap; errors returned by visitors, nested fill callbacks and serializers failing at every call are compared with what the caller gets."),
    "C24": ("random histories of nested, failing and panicking reads against untouched bags",
            "Twenty-two kinds of read in random order, made from within each other's callbacks up to three levels deep and after reads that failed or panicked, each compared with the same read of a bag nothing else was done to."),
}

NOT_APPLICABLE = {
    "C21": "A program that must not compile has no execution to monitor; this family observes running code only.",
}


def main():
    checks = []
    for p, (technique, note) in sorted(CHECKS.items()):
        checks.append({
            "property": p,
            "quick_cmd": "./check %s quick" % p,
            "thorough_cmd": "./check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": technique,
            "level": "exploration",
            "level_note": note + " " + COMMON.strip(),
        })
    doc = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
        "notes": "Runtime monitoring and sanitizers. No hooks in /repo: everything is observed through the public API, the allocator and the sanitizers. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
