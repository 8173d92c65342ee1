#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
EX = "bounded exhaustive exploration of the real code against a reference model"
T = {
 "C01": ("exhaustive exploration of the reader's input tree under a supervised process", "model_checking", "Every input of the enumerated families is run through every reader in a supervised process; a panic, abort, stack overflow or hang of any is a violation. Trusts the supervisor and the cut of the input tree (bytes no reader asks for)."),
 "C02": (EX, "model_checking", "Every value of the enumerated domain (all presence patterns, all leaf departures, pairs of fields) through all four writer/reader pairings. Trusts equality of the reflected values."),
 "C03": ("exhaustive exploration with an independent decoder as oracle", "model_checking", "The bytes of every enumerated value are decoded by an independent compact decoder driven by a transcription of parquet.thrift; trusts that transcription."),
 "C04": ("exhaustive exploration of legal forms and of malformed inputs against a reference decoder", "model_checking", "Trusts the reference decoder; inputs whose meaning the format leaves open are run but not judged."),
 "C05": (EX, "model_checking", "Every gap of every node of the core values x every unknown payload of the enumerated set."),
 "C06": ("exhaustive enumeration of presence subsets and union field sequences", "model_checking", "All 2^n subsets per structure; union sequences up to a length."),
 "C07": ("product exploration of the two readers", "model_checking", "No oracle but the other reader; compares value, kind of error and bytes consumed on every enumerated input and limit."),
 "C08": ("product exploration of the two writers", "model_checking", "No oracle but the other writer."),
 "C09": (EX, "model_checking", "Counts are compared with what the transport received."),
 "C10": ("exhaustive sweep of limits against a reference cost model", "model_checking", "Trusts the cost model (string bytes, 8 per element, 2 per structure)."),
 "C11": ("exhaustive enumeration of declared sizes with a measuring and refusing allocator", "model_checking", "Every collection and binary position x declared sizes x limits; the harness's allocator measures and refuses."),
 "C12": ("exhaustive enumeration of cut positions", "model_checking", "Every strict prefix of every enumerated encoding, in every reader."),
 "C13": ("exhaustive enumeration of nestings and depth arguments against a reference depth model", "model_checking", "All mixtures up to a length and periodic chains around the limits."),
 "C14": ("exhaustive exploration of transport schedules (deviation-bounded)", "fault_enumeration", "Every single deviation of the transport, pairs in short runs, and modes that deviate at every call."),
 "C15": ("exhaustive enumeration of failing transport calls and kinds while reading", "fault_enumeration", "Every call x every kind of failure, alone and right after another deviation."),
 "C16": ("exhaustive exploration of transport schedules and faults while writing", "fault_enumeration", "Every call x every answer, pairs in short runs, every capacity of a filling transport, flushing with every answer."),
 "C17": ("exhaustive enumeration of integers and byte strings against a reference LEB128", "model_checking", "All 8- and 16-bit integers, 32-bit ones in blocks (all in the thorough run), 64-bit ones over group combinations."),
 "C18": (EX, "model_checking", "Names x types x numbers over boundary domains; all values of the first two header bytes."),
 "C19": ("exhaustive exploration of call sequences against a reference encoder", "model_checking", "All sequences of bounded families and all field id pairs over selected first ids (all pairs in the thorough run)."),
 "C20": (EX, "model_checking", "All following bytes; all ordered pairs of types and triples in one stream."),
 "C21": ("exhaustive exploration of accepted inputs", "model_checking", "Every accepted input of the enumerated families is written, read and written again."),
 "C22": ("exhaustive enumeration of codes", "model_checking", "All named constants; codes in blocks (all 2^32 in the thorough run)."),
 "C23": (EX, "model_checking", "All kinds x messages, field subsets and orders with unknown fields; sync only because the crate has no asynchronous one."),
 "C24": ("exhaustive enumeration of error kinds and codes", "model_checking", "All I/O error kinds, codes in blocks (all 2^32 in the thorough run)."),
 "C25": ("product exploration of boxed and direct protocols", "model_checking", "No oracle but direct use."),
 "C26": (EX, "model_checking", "Constructors over the value domain of C02 with distinguishable arguments."),
 "C28": ("exhaustive enumeration of places and lengths with mapped giants", "model_checking", "Every place that holds contents x lengths around all powers of two up to beyond 2^32, in both writers, onto a transport that fills up behind the length."),
 "C29": ("exhaustive enumeration of pairs of values, with the order of every set checked for transitivity", "model_checking", "All pairs within sets of values: presence patterns, one and two departing fields, all alternatives of each field; every departure at every depth against its base."),
 "C30": ("exhaustive exploration of interleavings under a controlled scheduler", "model_checking", "All interleavings of pairs of small asynchronous tasks at transport calls, three-way ones over the first steps, bounded switches between threads and for larger tasks, nesting, abandonment, failure, panic and migration at every step, histories."),
 "C31": ("exhaustive enumeration of causes, kinds and failing transport calls", "model_checking", "All I/O kinds in all forms, system codes, texts; all kinds x messages x constructors; every transport call of reads and writes of every type failing in turn."),
 "C27": ("exhaustive enumeration of argument pairs", "model_checking", "All pairs over boundary domains."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of /repo only", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": "./check run %s quick" % p, "thorough_cmd": "./check run %s thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": T[p][1], "level_note": T[p][2]} for p in props if p in T],
 "not_applicable": [],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
