#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Recording is lossless",
  "When a recording is closed successfully, reading the file back delivers every record its streams produced and still held, each exactly once, with the same stream, record type, format version, timestamp and payload bytes. "
  "This does not depend on how the file was written: in one synchronous call or through background writing, with any compression preset, compression pool size, chunk size, index placement, payload size or mix of record types.",
  ["inputs", "configurations", "histories"],
  "every sequence of record creations, write requests and closes, over every combination of writing mode, compression preset and thread count, chunking, index mode, and payload sizes around the internal thresholds",
  "Tests record a few fixed streams with one or two configurations; the cross product of writing mode, compression, chunking, payload size and creation order is never explored.",
  ["vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/Record.cpp", "vrs/Compressor.cpp", "vrs/RecordFileReader.cpp", "vrs/RecordReaders.cpp", "vrs/Decompressor.cpp"],
  [("record collection and batch writing", "vrs/RecordFileWriter.cpp"), ("record buffer recycling", "vrs/RecordManager.cpp"), ("record write/compress", "vrs/Record.cpp"), ("record decode", "vrs/RecordReaders.cpp")],
  ["RecordFileWriter public API", "RecordFileReader index and StreamPlayer callbacks"])

p("P02", "Files read back in time order, creation order preserved",
  "The records of a file are always presented in increasing timestamp order; records with equal timestamps are ordered by stream, and within one stream in the order the application created them, whatever the order, batching or interleaving in which they were created, sent to disk and compressed. "
  "Per-stream views list exactly the records of that stream in that same order.",
  ["inputs", "schedules", "histories"],
  "every creation order, including out of order and equal timestamps across streams, and every way creations are split into write batches",
  "Tests use mostly increasing, distinct timestamps, sent in few batches; ties and out-of-order creation across batches are not enumerated.",
  ["vrs/RecordFileWriter.h", "vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/IndexRecord.h", "vrs/RecordFileReader.cpp"],
  [("sorted insertion of created records", "vrs/RecordManager.cpp createRecord"), ("batch sort", "vrs/RecordFileWriter.h SortRecord"), ("index sort", "vrs/IndexRecord.h RecordInfo::operator<")],
  ["RecordFileReader::getIndex", "readAllRecords callback order"])

p("P03", "Purging a live buffer keeps the latest configuration and state",
  "Discarding records older than a time removes exactly the older data records and superseded configuration and state records: each stream keeps its most recent configuration and most recent state record of those it purged, all its records that are not older, and all its tags. "
  "A file recorded after any sequence of purges therefore has, for every stream, the configuration and state in force before its first data record. "
  "Paused streams are not written, and periodic purging stops while a file is being written and resumes after it is closed.",
  ["histories", "inputs"],
  "every sequence of record creations, purges with any cut-off, stream pauses, collections and recordings, over several streams and all record types",
  "Tests purge once with one layout of records; repeated purges interleaved with creation, out-of-order times, and pauses are not covered.",
  ["vrs/RecordManager.cpp", "vrs/RecordFileWriter.cpp"],
  [("purge", "vrs/RecordManager.cpp purgeOldRecords"), ("purge thread", "vrs/RecordFileWriter.cpp backgroundPurgeThreadActivity")],
  ["records of the file written afterwards"])

p("P04", "Background writing loses or duplicates nothing under any schedule",
  "While application threads create records and request writes, and background threads compress, write and purge, every record created before the file is closed goes to exactly one place: written once to the file if it is older than a requested write time or the file is being closed, otherwise kept for later. "
  "A record goes to disk only after a write request covers its time, recordings made one after the other with the same objects do not share or lose records, and closing a file always terminates.",
  ["schedules", "histories"],
  "every interleaving of record creation (including the unlocked copy of large payloads), write requests, automatic writes, purges, background batches, compression workers, and close",
  "Tests run a handful of threads and check counts; no test steers the interleaving of the copy of a record with a collection, or the background thread with requests and close.",
  ["vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/helpers/JobQueue.h"],
  [("hand-over of record batches to the background thread", "vrs/RecordFileWriter.cpp addRecordsReadyToWrite"), ("large record insertion after copy", "vrs/RecordManager.cpp createRecord"), ("ordered compression results", "vrs/RecordFileWriter.cpp writeRecordsMultiThread")],
  ["RecordFileWriter API results, bytes reaching the write handler, file read-back"])

p("P05", "A recording cut short at any point keeps its completed records",
  "If recording stops at any instant (crash, kill, full disk, lost final close), reopening what reached storage either fails cleanly because the file header and description were not complete, or yields tags and streams as set and exactly a prefix of the records in the order they were written: every record completely stored is readable with its exact content and no partial, foreign or altered record is ever presented. "
  "This holds with the index at the end, preallocated, or kept in a separate head file.",
  ["crash_points"],
  "every crash point: each byte prefix of the sequence of storage operations of a recording (overwrites of less than a sector being atomic), for every index mode, compression, chunking, and record mix",
  "Tests truncate one or two files at a couple of places; a crash can fall inside any write of any record, header, or index update.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/DescriptionRecord.cpp", "vrs/FileFormat.cpp", "vrs/RecordFileWriter.cpp"],
  [("index rebuild by scanning records", "vrs/IndexRecord.cpp rebuildIndex"), ("header sanity checks", "vrs/FileFormat.cpp"), ("index finalization order", "vrs/IndexRecord.cpp finalize*IndexRecord")],
  ["reopening crash images"])

p("P06", "Repairing a file's index is faithful and permanent",
  "When opening a damaged file that still has complete records asks for its index to be repaired in place, the file afterwards opens without any reconstruction and presents exactly the records that the reconstruction presented, with the same contents, and opening and repairing again changes nothing. "
  "A repair which is itself interrupted can be done again, losing at most the last record when it becomes doubtful. Opening without asking for a repair never modifies the file.",
  ["crash_points", "configurations"],
  "every crash image of a recording in each index mode, with or without garbage or zeros after the last record",
  "Tests repair a few truncated files; repair of images cut at arbitrary places, or with a distrusted last record, is not covered.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp"],
  [("rebuildIndex with write-back", "vrs/IndexRecord.cpp")],
  ["file bytes before/after, index after reopening"])

p("P07", "Write failures are reported and never corrupt what was written",
  "If storage operations fail while recording, a recording whose closing reports success is nevertheless complete, failures that cost anything are reported, nothing is reported when nothing failed, and no call hangs or crashes. What can be read after a failure is intact records that precede it. "
  "After the failure the same objects can record a new file with no trace of the failed one.",
  ["fault_sequences"],
  "every storage operation (create, write, overwrite, chunk creation, truncate, close) failing once or persistently, in each writing mode, with and without compression threads",
  "No test injects a write error at each storage operation.",
  ["vrs/RecordFileWriter.cpp", "vrs/IndexRecord.cpp", "vrs/FileHandler.h"],
  [("sticky error in background writer", "vrs/RecordFileWriter.cpp writeRecords*"), ("close path", "vrs/RecordFileWriter.cpp completeAndCloseFile")],
  ["status of close calls; bytes reaching the write handler"])

p("P08", "Chunked recordings are equivalent to single-file ones",
  "With a chunk size limit a recording is split into numbered chunk files, each within the limit unless a single record (or the file's own metadata) exceeds it, no record is split across chunks, and the chunk listener hears of every chunk exactly once, when it is complete, with the last one flagged. "
  "Reading the set of chunks gives exactly the same records, tags and index as the same recording made without chunking.",
  ["inputs", "configurations"],
  "every sequence of record sizes relative to the chunk limit, with and without a split head file, with and without compression",
  "Tests chunk a couple of files and check the number of chunks.",
  ["vrs/RecordFileWriter.cpp", "vrs/DiskFile.cpp", "vrs/NewChunkHandler.h", "vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp"],
  [("chunk switch before a record", "vrs/RecordFileWriter.cpp writeOneRecord"), ("chunk listener", "vrs/NewChunkHandler.h"), ("chunk discovery", "vrs/RecordFileReader.cpp")],
  ["chunk file sizes, listener calls, read-back"])

p("P09", "All index forms describe the same records",
  "Whether a file's index was written at the end, preallocated at the front, kept in a split head, or rebuilt by scanning, the reader presents the same list of records (time, stream, type, order and content). "
  "Records cut off by the end of the file are dropped without affecting any other record.",
  ["inputs", "configurations"],
  "every record sequence, in each index mode, complete or with the index discarded so that it must be rebuilt, and truncated after any record",
  "Tests compare two index modes on one or two recordings.",
  ["vrs/IndexRecord.cpp", "vrs/IndexRecord.h", "vrs/RecordFileReader.cpp"],
  [("index read", "vrs/IndexRecord.cpp readRecord/readClassic/readSplit"), ("index rebuild", "vrs/IndexRecord.cpp rebuildIndex")],
  ["RecordFileReader::getIndex, hasIndex"])

p("P10", "Record lookups agree with the index",
  "Every lookup of a record - n-th record of a stream or of a type in a stream, last record, first record at or after a time, nearest record within a tolerance, position of a record in the file, in its stream, or among its type, counts, first/last data records, stream by tag, flavor, name or type - returns exactly what scanning the ordered record list by definition would return, in any sequence of lookups. The record formats and layouts of a stream are those it declared, and whether its data records might contain images or audio follows from the formats of its data records.",
  ["inputs", "histories"],
  "every file content with repeated and equal timestamps over several streams and types, and every sequence of lookups with arguments inside, between and beyond the records",
  "Tests query a few positions on files with distinct increasing timestamps; lookups keep caches, so answers could depend on history.",
  ["vrs/RecordFileReader.cpp", "vrs/RecordFileReader.h"],
  [("lookup functions and last-request cache", "vrs/RecordFileReader.cpp")],
  ["RecordFileReader lookup API"])

p("P11", "Reading any records in any order gives the same content",
  "The content delivered for a record depends only on that record: reading records sequentially or in any random order, repeatedly, skipping some, stopping part-way inside a record, reading it in pieces of any size, switching stream players, or using any caching strategy always delivers the same header fields and the same payload bytes. "
  "A player that declines or asks for fewer bytes never disturbs the next record, and the count of unread bytes is exact.",
  ["histories", "inputs"],
  "every sequence of record reads over files with uncompressed, lz4 and zstd records of sizes around the internal buffer sizes, with every split of partial reads",
  "Tests read files mostly front to back, and each record entirely.",
  ["vrs/RecordFileReader.cpp", "vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/DiskFile.cpp"],
  [("record readers", "vrs/RecordReaders.cpp"), ("streaming decompression", "vrs/Decompressor.cpp"), ("readRecord", "vrs/RecordFileReader.cpp")],
  ["StreamPlayer callbacks; RecordReader::read results"])

p("P12", "Damaged records are reported, never delivered as good",
  "If the stored header of a record no longer agrees with the file's index in time, type or stream, announces impossible sizes or an unknown compression, or its compressed data ends early or does not expand to the declared size, reading that record returns an error and never delivers other content as complete; opening the file and reading all other records are unaffected. "
  "Files that are not recordings, are too short for a file header, or have damaged or unsupported file headers are refused, and left as they are.",
  ["inputs", "fault_sequences"],
  "every field of a record header and file header, altered in files of each index form and compression",
  "Tests do not alter stored record headers or payloads.",
  ["vrs/RecordFileReader.cpp", "vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/FileFormat.cpp"],
  [("header cross-check", "vrs/RecordFileReader.cpp readRecord"), ("file header checks", "vrs/FileFormat.cpp")],
  ["readRecord status, player callbacks"])

p("P13", "A multi-chunk file behaves as one contiguous file",
  "Reading, seeking, skipping, querying position, size and end-of-file, overwriting, appending, truncating and adding chunks through a file handler over any number of chunks behave exactly as on one contiguous sequence of bytes, except that one overwrite or read-across never changes which chunk a byte belongs to. "
  "Short reads report how many bytes were read, and errors leave the contents unchanged. While the last chunk is being extended, the size reported may lag behind until it is completed, truncated or closed; "
  "the end of the file is reported by a read that comes short, and never before the end is reached.",
  ["histories", "inputs"],
  "every sequence of handler operations over files of one to several chunks of any size, including empty ranges, chunk boundaries and positions at or beyond the end",
  "Tests walk a few files forward, with a few seeks.",
  ["vrs/DiskFile.cpp", "vrs/DiskFile.h", "vrs/DiskFileChunk.hpp"],
  [("chunk addressing", "vrs/DiskFile.cpp")],
  ["FileHandler / WriteFileHandler API"])

p("P14", "Tags and stream descriptions are stored exactly",
  "File tags, stream tags, stream flavors, names and record layouts set before a file is created are read back exactly, attached to the right stream, for any strings; the last value set wins and streams never leak tags into each other or into another recording. "
  "Streams attached while the file is already being written get their tags, configuration and state recorded in that file too, and tags changed after file creation do not affect it. "
  "Description records of the first format are read with the same meaning, and a stream without a serial number is given one which is the same for the same stream of the same content, and no other.",
  ["inputs", "histories"],
  "every sequence of tag updates over file and streams, with any string content, before and after file creation, with streams attached at any time",
  "Tests set a few ASCII tags before creating one file.",
  ["vrs/DescriptionRecord.cpp", "vrs/TagsRecord.cpp", "vrs/Recordable.cpp", "vrs/RecordFileWriter.cpp", "vrs/RecordFileReader.cpp"],
  [("description record", "vrs/DescriptionRecord.cpp"), ("tags record for late streams", "vrs/RecordFileWriter.cpp addRecordable")],
  ["RecordFileReader tag API"])

p("P15", "Stream identifiers are unique and their text forms round-trip",
  "Every stream object created in a process gets an identifier of its type that no other one has (of the 65535 the format allows), increasing in creation order, even when created concurrently; a temporary renumbering scope restarts at one and leaves the outer numbering as it was. "
  "The numeric text form of an identifier parses back to itself, and text that is not of that form is rejected.",
  ["schedules", "histories", "inputs"],
  "every interleaving of stream creations in several threads, nested renumbering scopes, and every identifier and text",
  "Tests create streams in one thread only.",
  ["vrs/Recordable.cpp", "vrs/StreamId.cpp", "vrs/StreamId.h"],
  [("instance id allocation", "vrs/Recordable.cpp"), ("numeric names", "vrs/StreamId.cpp")],
  ["Recordable::getStreamId, StreamId::fromNumericName"])

p("P16", "Filtered reading selects exactly the requested records",
  "Reading a file through a filter visits exactly the records whose stream and type are selected and whose time lies between the minimum and maximum times, bounds included, in file order, preceded (when starting part-way) by the latest selected configuration and state record of each selected stream before that time. "
  "Include/exclude lists apply in the order given; signed times are relative to the first or last selected data record. With a decimation interval (DefaultDecimator), a stream's data records are thinned to those at least that interval after the last one of the stream that was visited; its configuration and state records are all visited.",
  ["inputs", "configurations"],
  "every file content, every sequence of stream and type inclusions/exclusions, decimation interval, and every absolute, relative or around time constraint, including times equal to record times",
  "Tests that cover filters need sample files and fixed ranges; bounds equal to record times and mixed selections are not enumerated.",
  ["vrs/utils/FilteredFileReader.cpp", "vrs/utils/FilteredFileReader.h", "vrs/utils/cli/DefaultDecimator.cpp"],
  [("stream/type/time filtering", "vrs/utils/FilteredFileReader.cpp")],
  ["FilteredFileReader iteration callbacks"])

p("P17", "Copying preserves everything selected",
  "Copying a file produces a file with exactly the selected records - same times, types, versions, payloads and relative order per stream - the same file tags, and for each selected stream the same tags, flavor and type with instances numbered in order, for any compression, chunk size, thread count or tag overrides. "
  "Copying a copy gives equal content. A filter that parses and rewrites records (of formats that describe their content) leaves unedited parts byte for byte as they were, changes exactly the layout fields and header fields it edits, even fields describing the blocks that follow, and leaves out exactly the records it skips.",
  ["inputs", "configurations"],
  "every source file, selection and copy option",
  "Tests copy a few sample files and compare checksums.",
  ["vrs/utils/FilterCopy.cpp", "vrs/utils/FilterCopyHelpers.cpp", "vrs/utils/ThrottleHelpers.cpp", "vrs/RecordFileWriter.cpp"],
  [("copier", "vrs/utils/FilterCopyHelpers.cpp"), ("throttled writer", "vrs/utils/ThrottleHelpers.cpp")],
  ["files read back"])

p("P18", "Merging keeps all records and applies the documented tag rules",
  "Merging several files yields in time order every selected record of every source exactly once: streams stay separate by default, and when stream merging is requested the n-th stream of a type in each file goes to the n-th output stream of that type, where records of the same time and kind are duplicates, of which only one is kept. "
  "For tags the first file's value is kept under the tag's name, equal values are not repeated, and other conflicting user tags are kept under distinct derived names while none is lost.",
  ["inputs", "configurations"],
  "every set of source files with overlapping streams, times and tags, with and without stream merging",
  "Tests merge a couple of sample files.",
  ["vrs/utils/FilterCopy.cpp"],
  [("filterMerge, mergeTags", "vrs/utils/FilterCopy.cpp")],
  ["merged file read back"])

p("P19", "Reading several files together equals their merged timeline",
  "Opening several related files together presents every record of every file exactly once, in time order, each under a stream identifier that is unique in the set and belongs to one stream of one file, and every lookup and read through the combined view returns the same record, tags and content as its own file does. "
  "Files whose capture tags conflict are refused together, and after a refusal or close the reader can be used again.",
  ["inputs", "histories"],
  "every set of files with colliding stream ids, equal timestamps and shared or conflicting tags, and every sequence of lookups",
  "Tests open a few prepared files with few collisions.",
  ["vrs/MultiRecordFileReader.cpp", "vrs/MultiRecordFileReader.h"],
  [("unique stream ids and merged index", "vrs/MultiRecordFileReader.cpp")],
  ["MultiRecordFileReader API"])

p("P20", "Work queues and event channels never lose, duplicate or invent",
  "A work queue hands each job to exactly one consumer in first-in first-out order, ends only when told, and wakes waiting consumers when jobs arrive or it ends. "
  "An event channel wakes one (or in broadcast mode all) of its waiters per event, a waiter never misses an event sent after it began waiting, and reported event counts and times match the events sent. "
  "Events sent before the waiters woken by an earlier one have run may be merged: those see the last one. Cancelling jobs removes those selected, and only those, handing them to the clean-up function in order. "
  "Destroying a channel lets all its waiters go, with a failure.",
  ["schedules", "histories"],
  "every interleaving of senders, receivers, timeouts and end requests",
  "Tests run fixed thread scripts with sleeps.",
  ["vrs/helpers/JobQueue.h", "vrs/os/Event.cpp", "vrs/os/Event.h"],
  [("job queue", "vrs/helpers/JobQueue.h"), ("event channel", "vrs/os/Event.cpp")],
  ["call results"])

p("P21", "Data layouts stay readable across versions",
  "Values written through one layout are read exactly through any other layout for the fields with the same label and same type, whatever fields were added, removed or reordered, while fields absent from the stored layout read as their defaults and never as other fields' bytes. "
  "A layout's text description recreates a layout with the same fields, tags, limits and defaults, and fixed, variable-size and string values of any length, including empty, round-trip.",
  ["inputs", "histories"],
  "every pair of stored and expected layouts over all field kinds, and every assignment of values",
  "Tests use a few hand-written layouts.",
  ["vrs/DataLayout.cpp", "vrs/DataLayout.h", "vrs/DataPieceValue.h", "vrs/DataPieceArray.h", "vrs/DataPieceVector.h", "vrs/DataPieceString.h", "vrs/DataPieceStringMap.h"],
  [("layout mapping", "vrs/DataLayout.cpp mapLayout"), ("variable size index", "vrs/DataLayout.cpp")],
  ["DataPiece get/isAvailable/isMapped"])

p("P22", "Record formats are delivered block by block as declared",
  "A record format's text form parses back to the same blocks, and a record declared with a format is delivered to a player as exactly those blocks in order, each with its declared or deduced size and its own bytes; when one block's size cannot be known it takes what is left. "
  "A player stopping after a block, or an unknown block, never shifts the bytes of other blocks or records. "
  "Checking that a file can be decoded counts exactly the records that can't be read to their last byte, and the images that can be decoded.",
  ["inputs"],
  "every sequence of content blocks of all kinds, with explicit, implicit or unknown sizes",
  "Tests cover a fixed list of formats.",
  ["vrs/RecordFormat.cpp", "vrs/RecordFormatStreamPlayer.cpp", "vrs/ContentBlockReader.cpp", "vrs/utils/Validation.cpp"],
  [("block sizes", "vrs/RecordFormat.cpp"), ("block dispatch", "vrs/ContentBlockReader.cpp")],
  ["RecordFormatStreamPlayer callbacks"])

p("P23", "File specifications round-trip between paths, URIs and JSON",
  "A file specification (handler name, path or chunk list, chunk sizes, URI, extra parameters) converted to a path, URI or JSON form and parsed back names the same file with the same parameters, whatever characters are used, and ill-formed URIs or JSON are rejected with an error. "
  "The parts of a URI (scheme, path, percent-encoded parameters) are exactly the ones written, and a file is opened by the handler or delegator that its specification asks for, or not at all.",
  ["inputs"],
  "every specification, with any characters in names and parameters",
  "Tests cover a table of examples.",
  ["vrs/FileSpec.cpp", "vrs/FileSpec.h", "vrs/FileHandlerFactory.cpp"],
  [("fromPathJsonUri / toPathJsonUri", "vrs/FileSpec.cpp"), ("delegateOpen", "vrs/FileHandlerFactory.cpp")],
  ["FileSpec API"])

p("P24", "Video frames are decoded only in valid sequence",
  "A frame of a compressed video stream is given to the decoder only if it is a key frame or directly follows the last decoded frame of its group; otherwise the reader says frames are missing, and catching up decodes exactly the missing frames of that group in order, from the key frame or the last decoded frame, ending with the requested one.",
  ["histories"],
  "every sequence of frame requests, forward, backward, repeated and across groups, and catch-ups",
  "No test decodes video in the baseline: no decoder is built.",
  ["vrs/utils/VideoFrameHandler.cpp", "vrs/utils/VideoRecordFormatStreamPlayer.cpp"],
  [("sequence gate", "vrs/utils/VideoFrameHandler.cpp")],
  ["decoder factory calls"])

p("P25", "Cached file details never change what is read",
  "Opening a file through its saved details gives the same tags, streams and record list as opening it directly, saved details that are cut short, extended or not of this format are rejected rather than used, and details are saved only for a file which could be opened, and exactly as the file contains them.",
  ["inputs", "fault_sequences"],
  "every file content, and every truncation of the saved details",
  "Tests save and reload the details of one file.",
  ["vrs/FileDetailsCache.cpp", "vrs/FileCache.cpp", "vrs/RecordFileReader.cpp"],
  [("details cache", "vrs/FileDetailsCache.cpp")],
  ["FileDetailsCache read/write"])

p("P26", "Asynchronous disk writing produces the same file as direct writing",
  "Writing a file through the asynchronous handler, with any buffer size, count and I/O mode, any sequence of writes, overwrites, seeks and truncation, leaves the same bytes as the plain handler, and errors of background operations are reported at the latest on close.",
  ["histories", "configurations", "schedules"],
  "every sequence of write operations and configuration",
  "Tests write a few patterns.",
  ["vrs/AsyncDiskFileChunk.cpp", "vrs/AsyncDiskFileChunk.h", "vrs/DiskFile.cpp"],
  [("async chunk", "vrs/AsyncDiskFileChunk.cpp")],
  ["file bytes"])

p("P27", "Checksums and comparisons are equal exactly for equal content",
  "The content checksum of a file depends only on its tags, streams (in order per type), and records: it is unchanged by recompression, re-chunking, index changes or renumbering of instances, and differs whenever a tag, time, type, version, payload, record or stream differs. "
  "Comparing two files says they match exactly when they have equal content. Compared as bytes, and in their checksums as bytes, two files are equal exactly when their bytes are, however they are cut in chunks.",
  ["inputs"],
  "every pair of files, equal up to storage details or differing by one change anywhere",
  "Tests compare files with their copies.",
  ["vrs/utils/Validation.cpp"],
  [("checksums", "vrs/utils/Validation.cpp checkRecords"), ("comparison", "vrs/utils/Validation.cpp compareVRSfiles"), ("bytes", "vrs/utils/Validation.cpp compareVerbatim, verbatimChecksum")],
  ["checkRecords, compareVRSfiles, vrs tool"])

p("P29", "Extraction writes exactly the recorded audio and images",
  "Extracting the audio of a file writes, for each selected stream, one WAV file for each run of audio blocks of the same format, with a header that states this format and the size of its data, holding the bytes of every sample of the run once, in order, without padding. "
  "Extracting a single audio track does the same, or says why not, and its summary is valid JSON. Extracting images writes each image of the selected streams once, numbered in its stream: with its recorded bytes, or as a PNG of the same pixels. "
  "Extracting everything does all of these and describes each record in file order. What is extracted does not depend on what the same process extracted before.",
  ["inputs", "configurations"],
  "every mix of streams, audio formats (sample formats, channels, padding, rates), image sizes and strides, format changes within a stream, and sequence of extractions in a process",
  "No test extracts audio or images from files made of more than one format, or twice in the same process.",
  ["vrs/utils/AudioExtractor.cpp", "vrs/utils/AudioTrackExtractor.cpp", "vrs/utils/ImageExtractor.cpp", "vrs/utils/DataExtractor.cpp", "vrs/utils/cli/DataExtraction.cpp"],
  [("audio files", "vrs/utils/AudioExtractor.cpp"), ("single track", "vrs/utils/AudioTrackExtractor.cpp extractAudioTrack"), ("images", "vrs/utils/ImageExtractor.cpp"), ("everything", "vrs/utils/DataExtractor.cpp")],
  ["extractAudio, extractAudioTrack, extractImages, extractAll"])

p("P28", "Pixel and image codecs convert images faithfully",
  "Normalizing, converting and re-encoding image frames preserves dimensions and pixel values as the source and target pixel formats define.",
  ["inputs"],
  "every image, format and size",
  "Tests cover a few synthetic images.",
  ["vrs/utils/PixelFrame.cpp", "vrs/utils/PixelConversions.cpp"],
  [("pixel conversions", "vrs/utils/PixelFrame.cpp")],
  ["PixelFrame API"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
