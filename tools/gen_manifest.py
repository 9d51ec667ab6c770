#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the properties with a check, and why the others have none."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
REC = ("Recorder.tla (state and requests of live recording) is explored exhaustively by TLC with small parameters; behaviours generated by TLC and seeded "
       "random ones are executed by the real library, and TLC checks every recorded event against the specification. Bounded by the histories run; trusts TLC, the driver and its in-process storage layer.")
IMG = ("MCImage.tla (writer protocol of the three index forms, crash, reader, repair, interrupted repair) is explored exhaustively by TLC; recordings made by the real "
       "library from TLC behaviours of Recorder.tla are turned into files as a crash or damage would leave them, and TLC checks what the real reader and repair show against the specification.")
RD = "MCReader checks the lookups' design (cached last request, binary searches) against their definition; TraceReader checks each answer of the real reader, in simulated sequences of calls over recordings of every form, against Reader.tla."
CP = ("MCCopy checks the copy and merge design exhaustively with small files; sequences of making, filtering, copying, merging, summing and comparing files, simulated with TLC and filled in at random, "
      "are executed by the real library and tools code, and TraceCopy checks every outcome, read back from the files, against Copy.tla.")
DF = ("MCDiskFile explores a file of chunks (chunk addressing, position, overwrites across chunks, truncation, buffered stream) against one contiguous sequence exhaustively within small bounds; "
      "sequences simulated with TLC are executed by the real handlers with cells of 1 to 4097 bytes, and TraceDiskFile checks every answer and the bytes on disk against DiskFile.tla.")
NOTES = {
 "P01": REC, "P02": REC, "P03": REC, "P04": REC + " Schedules: storage writes are held back and record creations suspended at chosen points; free-running threads besides.",
 "P07": REC + " Storage faults are injected at chosen operations (create, write, overwrite, truncate, close, asynchronous writes), once or persistently.",
 "P08": REC, "P14": REC,
 "P05": IMG + " Crash points: prefixes of the recorded storage operations, cut inside a write too, with zeros or junk after them.",
 "P06": IMG + " Repairs are interrupted too, at prefixes of their own storage operations.",
 "P09": IMG + " Complete recordings in each index form, truncated anywhere, or with the index made unusable.",
 "P12": IMG + " One field of one stored header is altered at a time; payload bytes are not (there is no checksum).",
 "P29": "MCExtract checks on all short sequences of audio blocks that extraction block by block yields files of one format holding all the samples; generated files of audio, images and other blocks in several formats "
        "are extracted by the tool's own code, in all ways, repeatedly in a process, and TLC computes from Extract.tla every file's name, header and bytes. PCM audio and grey images only; the bytes of samples are judged, not their byte order.",
 "P16": CP, "P17": CP + " Payloads to 300 KB, chunking, all compression presets. Copies through a RecordFilterCopier which parses, edits, skips or keeps verbatim records of random formats are compared, block by block, with RecordFormat.tla's FilterCopy.", "P18": CP, "P27": CP + " Checksums of equal and of minimally different files are compared with each other, as records and as bytes; one known finding (tags with separators in their values).",
    "P10": RD, "P11": RD + " Reads are interleaved, stopped part-way, cut in pieces of any size, declined, with players replaced and every caching strategy.",
    "P15": "StreamIds.tla numbers streams by type, with nested renumbering scopes, and gives the text forms; MCStreamIds explores concurrent creations exhaustively for few threads; simulated sequences of creations, scopes and text conversions, and streams created by many "
           "threads at once, are run against the real library and each answer checked by TLC. Interleavings inside a creation are sampled, with sanitizers, in the real code.",
    "P21": "MCDataLayout explores how fields are stored and looked up for all pairs of small layouts; simulated sequences of declarations, writes, reads through other layouts, text conversions, patches, copies and edits, over all field types and kinds, "
           "run on the real DataLayout, each answer checked by TLC against DataLayout.tla; layouts are also built by several threads at once. Layouts with two fields of same label and type, and damaged data, are not generated.",
    "P25": "MCFileCache explores openings with and without saved details, saving failures and damage exhaustively; generated files read through a remote-like handler with a cache (sorted, fail-fast, without index, with faults while saving, damaged entries) "
           "are checked by TLC against FileCache.tla and Reader.tla. Changed bytes inside saved details of the right length are not judged.",
    "P24": "MCVideo checks on all small files (dropped frames, lost key frames, other records in between) and histories of reads, catch-ups, failures and resets that decoders only ever get frames in sequence and catch-ups decode exactly what misses; simulated histories "
           "run through the real players with a recording decoder, every decoder call and result checked by TLC. Two known findings (data records without frames; makers that only select).",
    "P22": "RecordFormat.tla gives the text, the sizes and the delivery of blocks; MCRecordFormat checks on all small formats, records and players that each block comes with its own bytes; generated formats are turned to text and back, and generated files "
           "with formats of all kinds of blocks and conventions are read by real players that stop anywhere, each call and the bytes checked by TLC; files are checked as 'vrs check' does by decoding them. A player is assumed to read each block it accepts; one known finding (audio frames over 255 bytes).",
    "P23": "FileSpec.tla says what each string means, its text form, and who is asked to open it; MCFileSpec checks on all strings of up to 5 (thorough 6) characters of a small alphabet that accepted ones round-trip and are well-formed; every short string, and "
           "generated URIs, paths, json documents and fields with any bytes, go through the real FileSpec and FileHandlerFactory (fake handlers and delegators coming and going), each answer checked by TLC.",
    "P20": "MCJobQueue and MCEventChannel (critical sections, condition variables, time limits) are explored exhaustively with few threads, with liveness; simulated sequences of calls on real threads, each observed once all threads sleep, "
           "and free-running threads, are checked by TLC against Sync.tla. Interleavings inside the calls are sampled, not enumerated, in the real code.",
    "P19": "MultiFile.tla defines what several files read together present (unique identifiers, merged order, tags); MCMulti explores it exhaustively for small files; generated file sets with colliding identifiers, equal times and conflicting tags "
           "are opened, queried, read, closed and reopened by the real MultiRecordFileReader, each answer checked by TLC.",
    "P13": DF, "P26": DF + " I/O mode, buffers and queue depth vary; writes, asynchronous starts and completions are failed at chosen points.",
}
TECH = {}
NA = {
 "P28": "numeric image conversions and codecs have no state or transitions: a TLA+ specification would only restate the arithmetic, and the deciding oracle would be another image library",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in NOTES:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": T + TECH.get(p, "recorded executions of the real code checked against it (trace validation), behaviours generated from it"),
                       "level": "model_checking", "level_note": NOTES[p]})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks,
     "hooks": {"guard": "VRS_VERIF_HOOKS", "enable": "lib/build.py compiles /repo's sources with -DVRS_VERIF_HOOKS (no code in /repo depends on it: storage is observed by wrapping libc calls at link time)", "source_commits": []},
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet: the specification module and driver for it are not finished")} for p in props if p not in NOTES]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
