#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.py."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
prop("C01", "Every intermediate record survives its on-disk encoding",
  "Writing any record of any intermediate table (phases 1 to 3, the k<=32 and the k<=34 build) and reading it back yields exactly the same field values, for every value a field may hold within its documented width. The encoding depends on nothing but the field values, occupies exactly the declared number of bytes and touches no neighbouring byte.",
  ["inputs", "configurations"], "all field values of the documented widths, any previous content of the buffer and the object, both builds",
  "Tests write a few fixed or random keys of one record type; a wrong mask or shift shows only for particular high bits.",
  ["include/chia/phase1.h", "include/chia/phase2.h", "include/chia/phase3.h", "include/chia/entries.h"], [("read/write member functions of the entry types", "include/chia/phase1.h, phase2.h, phase3.h")], ["bytes written", "fields read back"])
prop("C02", "Bit strings hold exactly the bits put in, at every length and offset",
  "Appending values of any width to a bit string, slicing it, converting it to and from bytes and integers and concatenating bit strings preserve every bit in order, most significant bit first, for all widths, offsets and contents. Extracting bits from raw bytes returns exactly the addressed bits and reads nothing outside the supplied buffer plus its documented slack.",
  ["inputs"], "all values, widths 0..64 and offsets within the stated byte bounds", "Tests exercise a few widths; errors appear at particular word boundary offsets.",
  ["include/chia/bits.hpp", "include/chia/util.hpp"], [("Bits / BitsGeneric, Util::SliceInt64FromBytes, Util::EightBytesToInt", "include/chia/bits.hpp, include/chia/util.hpp")], ["values returned"])
prop("C03", "A line point encodes one unordered pair of positions and decodes back to it",
  "The line point of a pair of positions does not depend on their order, different unordered pairs have different line points, and decoding a line point returns the same pair with the larger value first. Larger first positions always give larger line points, and the result fits in 2k-1 bits.",
  ["inputs"], "all pairs of positions within the stated bounds", "Tests try a few pairs; overflow and square root errors need specific large values.",
  ["include/chia/encoding.hpp"], [("Encoding::SquareToLinePoint / LinePointToSquare / GetXEnc", "include/chia/encoding.hpp")], ["values returned"])
prop("C04", "Table 1 contains f1(x), exactly once, for every x below 2^k",
  "For every plot id and every k, table 1 receives for each x in 0..2^k-1 exactly one entry (y, x), where y is the k bits of the ChaCha8 key stream at bit position x*k, keyed with the byte 1 followed by the first 31 bytes of the plot id, followed by the top 6 bits of x. This holds for every number of threads and every order in which they run; the key stream equals the ChaCha8 definition for every key and every block counter.",
  ["inputs", "configurations", "schedules"], "every plot id, k, x block and thread order within the bounds", "No test computes table 1 against an independent definition, and a full table for real k is out of reach of a test run.",
  ["include/chia/phase1.hpp", "lib/chacha8.c"], [("F1Calculator, compute_f1", "include/chia/phase1.hpp"), ("chacha8_keysetup / chacha8_get_keystream", "lib/chacha8.c")], ["entries handed to the output"])
prop("C05", "Tables 2 to 7 carry the Chia f function and collated metadata bit-exactly",
  "For every matching pair, the new y is the first k+6 (table 7: k) bits of BLAKE3 over the concatenation of the left y and both metadata strings, left before right. The new metadata is the concatenation of the two metadata strings where the specification says so, else the specified bits of the hash. This holds for every k, every table and every value.",
  ["inputs", "configurations"], "all y, metadata values and hash outputs, tables 2..7, k 18..34", "No test compares f2..f7 with an independent definition; a wrong shift would yield a plot that looks fine but never proves.",
  ["include/chia/phase1.hpp", "include/chia/phase1.h"], [("FxCalculator::evaluate", "include/chia/phase1.hpp")], ["y and metadata of the result", "bytes given to the hash"])
prop("C06", "Matching finds exactly the pairs that satisfy the matching condition",
  "Given the entries of two adjacent groups, the matcher reports precisely the pairs (left, right) whose y values satisfy the specified matching relation, each pair once, also when several entries share one y value, and its result does not depend on earlier calls on the same matcher object; more matches than it can take are reported as an error. The table of targets equals the specification for every (parity, left remainder, m).",
  ["inputs", "histories"], "all y values within a pair of groups, all multiplicities within the bounds, successive calls", "Tests never compare with the quadratic definition; missing pairs silently lose proofs.",
  ["include/chia/phase1.hpp"], [("FxMatcher::find_matches, load_tables, L_targets", "include/chia/phase1.hpp")], ["pairs reported"])
prop("C07", "Forward propagation pairs every two adjacent groups across block borders",
  "While a table is read back in sorted order in arbitrary blocks, every matching pair between adjacent groups yields exactly one output entry with the left position and the distance to the right entry, even if a group is split over blocks, the first or last group is incomplete or groups are missing. Positions count all entries read, every number of threads and every schedule give the same set of outputs, and each input entry is written to the left table exactly once in order.",
  ["inputs", "schedules", "configurations"], "block splits, y values, thread counts and interleavings within the bounds", "Tests use one block layout and one schedule; losing a pair at a border goes unnoticed.",
  ["include/chia/phase1.hpp"], [("compute_matches, compute_table", "include/chia/phase1.hpp")], ["entries handed to the next table", "entries written to the left table"])
prop("C08", "Disk sort returns every entry exactly once, in key order, at its right offset",
  "Whatever entries are added, by whichever threads and through whichever caches, reading the sorter back delivers a permutation of exactly those entries in non-decreasing key order, with each block carrying the number of entries before it. This holds for every key distribution (including empty and single buckets), bucket count, chunk size, thread count and interleaving; temporary files are removed after reading unless they were to be kept.",
  ["inputs", "schedules", "configurations"], "entries, key values, bucket and chunk sizes, thread counts and interleavings within the bounds", "test_disk_sort sorts random keys once per configuration; only uniformly filled buckets and one schedule are seen.",
  ["include/chia/DiskSort.h", "include/chia/DiskSort.hpp"], [("DiskSort::add / WriteCache / finish / read / sort_block", "include/chia/DiskSort.hpp")], ["blocks handed to the output", "temporary files"])
prop("C09", "A disk table reads back exactly what was written, in order",
  "Whatever entries are written to a table file, with or without explicit flushes, reading the table delivers exactly those entries in order with correct offsets, for every buffer size, read block size, thread count and interleaving. The reported number of entries is the number written.",
  ["inputs", "schedules", "configurations"], "entry values, counts, buffer and block sizes, thread counts, interleavings within the bounds", "Tests read one table of one size; partial last blocks and thread interleavings are not covered.",
  ["include/chia/DiskTable.h", "include/chia/buffer.h"], [("DiskTable::write / flush / close / read", "include/chia/DiskTable.h")], ["blocks handed to the output"])
prop("C10", "A worker thread runs every job exactly once, in order, and wait() waits",
  "Jobs handed to a worker thread, by one producer or several, run exactly once each, one at a time and in hand-over order per producer. Waiting, closing or destroying returns only when every job handed over before has completed, and never hangs, under every interleaving and spurious wake-up.",
  ["schedules"], "all interleavings with a bounded number of preemptions and spurious wake-ups, bounded numbers of jobs", "Tests see a handful of schedules chosen by the machine.",
  ["include/chia/Thread.h"], [("Thread::take / wait / close / loop", "include/chia/Thread.h")], ["jobs executed", "return of wait and close"])
prop("C11", "A thread pool delivers results exactly once and in hand-over order",
  "Every job handed to a pool runs exactly once and its result is passed to the output exactly once and in the order the jobs were handed over, one at a time, whichever thread finishes first. Per-thread data is never used by two jobs at once; waiting, closing or destroying the pool returns only after everything is delivered and never hangs.",
  ["schedules"], "all interleavings with bounded preemptions, 1..3 threads, bounded numbers of jobs", "Tests see a handful of schedules; a reordering needs an unlikely overtaking.",
  ["include/chia/ThreadPool.h", "include/chia/Thread.h"], [("ThreadPool::take / wrapper / wait", "include/chia/ThreadPool.h")], ["results handed to the output", "return of wait and close"])
prop("C12", "A failing job is always reported and never leaves anyone hanging",
  "If a job or the output stage of a thread or pool throws, then the error reaches the owner as an exception from a later hand-over, wait or close (or ends the process), before the work is considered complete. No thread waits forever, whichever job fails and whatever the interleaving.",
  ["schedules", "fault_sequences"], "every failing position, all interleavings with bounded preemptions", "No test makes a job fail.",
  ["include/chia/Thread.h", "include/chia/ThreadPool.h"], [("exception forwarding in Thread::loop and ThreadPool::wrapper", "include/chia/Thread.h, ThreadPool.h")], ["exceptions seen by the owner", "termination"])
prop("C13", "The used-entry bitmap gives exact ranks and loses no concurrent mark",
  "After marking any set of positions from any number of threads at once, exactly those positions read as marked. The rank lookup maps every marked position to the number of marked positions before it and every pair distance to the number of marked positions in between, for every bitmap content and size.",
  ["inputs", "schedules"], "bitmap contents, positions, sizes and interleavings within the bounds", "Tests check only random bitmaps of one size, single threaded.",
  ["include/chia/bitfield.hpp", "include/chia/bitfield_index.hpp"], [("bitfield::set / get / count, bitfield_index::lookup", "include/chia/bitfield.hpp, bitfield_index.hpp")], ["bits read", "ranks returned"])
prop("C14", "Back propagation keeps exactly the entries table 7 needs, renumbered",
  "Phase 2 keeps an entry of tables 2 to 6 if and only if some kept entry of the next table refers to it, keeps all of table 7, and marks exactly the referenced entries of table 1. Every kept entry refers to the new positions of the same two entries as before and carries its own new position, and only the phase 1 files it has consumed are deleted.",
  ["inputs", "schedules", "configurations"], "references, used sets and thread orders within the bounds", "No test in the passing set runs phase 2 with a known answer.",
  ["include/chia/phase2.hpp"], [("compute_table, compute", "include/chia/phase2.hpp")], ["tables and bitmap handed to phase 3", "files deleted"])
prop("C15", "Compression stage 1 turns every kept entry into its line point, exactly once",
  "For every table the first stage of phase 3 joins each kept right entry with the two left entries it refers to, and emits exactly one line point formed from the left entries' final positions (table 1: their x values), together with the right entry's own key. This holds for every block split of both inputs, every thread count and every interleaving.",
  ["inputs", "schedules", "configurations"], "left and right tables, block splits and schedules within the bounds", "No stable test runs phase 3; the join reads two streams concurrently, so errors depend on timing.",
  ["include/chia/phase3.hpp"], [("compute_stage1", "include/chia/phase3.hpp")], ["line points emitted"])
prop("C16", "Compressed parks decode to exactly the sorted line points of the table",
  "Stage 2 of phase 3 writes the sorted line points of a table as parks which, read back the way a Chia verifier reads them, yield exactly those line points in order, every park at its fixed position and size, the last one possibly partial. Each entry's new position is its index in the sorted order; data that cannot be represented is reported as an error, never written wrongly.",
  ["inputs", "schedules", "configurations"], "line points and counts within the bounds (scaled park size), thread orders", "No stable test decodes a written table.",
  ["include/chia/phase3.hpp", "include/chia/encoding.hpp"], [("compute_stage2, WritePark", "include/chia/phase3.hpp")], ["bytes in the plot file", "entries handed to the next step"])
prop("C17", "Delta compression is lossless for every delta sequence",
  "Compressing a sequence of small deltas and decompressing it with the same table yields the same sequence, for every sequence the encoder accepts and every R value a plot uses; compressed data never exceeds the space reserved for it without an error.",
  ["inputs"], "delta sequences within the bounds, all R values used by plots", "The FSE fuzzers use random data and other tables than those of a plot.",
  ["include/chia/encoding.hpp", "lib/FSE/lib/fse_compress.c", "lib/FSE/lib/fse_decompress.c"], [("Encoding::ANSEncodeDeltas / ANSDecodeDeltas", "include/chia/encoding.hpp")], ["decoded deltas"])
prop("C18", "P7, C1, C2 and C3 index exactly the y values and positions of table 7",
  "Reading the final tables back the way a Chia prover does yields, for every y value of table 7, the entries that have it and their positions in table 6. The checkpoint tables contain every checkpoint in order and terminate properly, whatever the number of entries, gaps and duplicates of y values; what the format cannot represent is reported as an error.",
  ["inputs", "schedules", "configurations"], "table 7 contents within the bounds (scaled checkpoint distances)", "No stable test decodes the final tables.",
  ["include/chia/phase4.hpp"], [("phase4::compute", "include/chia/phase4.hpp")], ["bytes in the plot file"])
prop("C19", "The plot header and table pointers describe the file correctly",
  "The header contains the magic text, the plot id, k, the format description, the memo and ten table pointers in the standard layout, for every k, plot id and memo. Each pointer is the exact file offset at which that table's data begins, tables do not overlap and the file size is what was written.",
  ["inputs", "configurations"], "plot ids, k, memo lengths, table sizes within the bounds", "No stable test parses a header.",
  ["include/chia/phase3.hpp", "include/chia/phase4.hpp"], [("WriteHeader, pointer updates", "include/chia/phase3.hpp, phase4.hpp")], ["bytes in the plot file"])
prop("C20", "A failing file operation never corrupts sorted data or tables silently",
  "If opening, writing, reading, seeking, flushing or closing a temporary file fails or is cut short, then sorting or reading a table either still delivers exactly the right entries or reports an error to the caller. It never delivers missing, duplicated or wrong entries as success, never hangs and never corrupts memory.",
  ["fault_sequences", "schedules"], "any one (thorough: two) failing call at any position", "Tests never inject a failure.",
  ["include/chia/DiskSort.hpp", "include/chia/DiskTable.h", "include/chia/buffer.h"], [("error checks after each stream call", "include/chia/DiskSort.hpp, DiskTable.h, buffer.h")], ["entries delivered", "exceptions"])
prop("C21", "Copying a finished plot never loses it and never leaves a bad final file",
  "Copying or moving a plot to its final directory yields a file under the final name that is byte-identical to the source. Whatever operation fails and wherever the process stops, a complete copy of the plot still exists (at the source, or under the temporary or final name at the destination), no incomplete file carries the final name, no other file is touched, and a failure is reported to the caller, after which the attempt can be repeated and succeeds once nothing fails any more.",
  ["fault_sequences", "crash_points", "inputs"], "file contents and sizes within the bounds, any failing call, a crash between any two calls", "test_copy copies one file with no failures.",
  ["include/chia/copy.h"], [("copy_file, final_copy", "include/chia/copy.h")], ["files in source and destination directory", "return or exception"])
prop("C22", "A file gets its .plot name only when the plot is completely on disk",
  "Until the header, all tables and all pointers have been written and the file was closed without error, the plot exists only under its temporary name. If any write, seek, flush, close or rename fails, plot creation reports an error and no file appears under the final name, also when the process is stopped at any moment.",
  ["fault_sequences", "crash_points"], "any failing call or crash at any call", "Tests never inject failures into phases 3 and 4.",
  ["include/chia/phase3.hpp", "include/chia/phase4.hpp"], [("error checks, final rename", "include/chia/phase4.hpp")], ["files in the temporary directory", "exceptions"])
prop("C23", "A plot's id, memo and name come from the given keys by the format's rules",
  "For every farmer key, pool key or pool contract, network port and source of randomness: the plot id is the hash of pool key or contract followed by the plot key (local plus farmer key, for contracts plus the derived extra key), where the local key is derived from the plot's own random secret key along the path 12381/port/3/0; for unique plots it is hashed again with the port; a given id is used unchanged. The memo is pool key or contract, farmer key and that secret key; the name states size, date and id; every plot gets fresh randomness.",
  ["inputs", "configurations"], "all keys, contract addresses, ports and ids", "chia_plot is not even built by the test suite; a wrong id or memo gives a plot that can never be farmed.",
  ["src/chia_plot.cpp", "include/chia/util.hpp"], [("create_plot, bech32_address_decode, hex_to_bytes", "src/chia_plot.cpp, include/chia/util.hpp")], ["parameters handed to phase 1"])
prop("C24", "Invalid options are refused before any work; valid ones are used as given",
  "Sizes outside 16..KMAX, thread counts outside 1..1024, thread multipliers below 1, bucket counts outside 2^4..2^16, missing or malformed keys, contracts, ids (of the wrong length or with characters that are not hexadecimal) or directories, contradictory options and directories in which files cannot be created end the program with an error before any plotting, leaving no file behind. Otherwise every phase gets exactly the given size, threads, buckets and directories, or the documented defaults.",
  ["inputs", "configurations", "fault_sequences"], "option values and pairs of options within the bounds, any probe that fails", "No test runs the command line program.",
  ["src/chia_plot.cpp"], [("main", "src/chia_plot.cpp")], ["exit code", "arguments handed to the phases", "files left behind"])
prop("C25", "Every plot made arrives complete in its final directory, whatever happens",
  "The program makes as many plots as asked for, one after the other; each arrives byte-identical in the final directory under its final name, written there directly or via the stage directory, and nothing else stays behind. Copies that fail are repeated until they succeed, with -w no plot begins before the last copy ended, with -G the temporary directories alternate, after an interrupt the current plot and all copies are completed but no new plot begins, and a stop at any moment loses no finished plot.",
  ["schedules", "fault_sequences", "crash_points", "configurations", "histories"], "numbers of plots, options, interrupts, failing calls, stops and schedules within the bounds", "No test runs the command line program or makes a copy fail.",
  ["src/chia_plot.cpp", "include/chia/copy.h", "include/chia/Thread.h"], [("main: plot loop, copy thread, interrupt handler", "src/chia_plot.cpp"), ("final_copy", "include/chia/copy.h")], ["files in all directories", "exit code"])
prop("C26", "All temporary files are removed and nothing else is touched",
  "When a plot has been created, none of the temporary files made for it remain, and files that were not created for it are never removed or changed. Temporary files are created only in the directories given for that purpose.",
  ["inputs", "configurations"], "table contents and directory settings within the bounds", "Tests do not look at the directory afterwards.",
  ["include/chia/DiskSort.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp", "include/chia/phase4.hpp"], [("remove() calls after each table is consumed", "include/chia/phase2.hpp, phase3.hpp")], ["files present afterwards"])
prop("C27", "A finished plot proves exactly what phase 1 found",
  "From the tables phase 1 leaves behind, phases 2 to 4 make a plot file from which a Chia prover, following nothing but the header, obtains for every entry of table 7 its y value and exactly the 64 x values that phase 1 combined, and no others. This holds for every table content, k, bucket count, thread count and schedule.",
  ["inputs", "schedules", "configurations"], "table contents, k, thread and bucket counts within the bounds", "No stable test runs phases 2 to 4; an error in any of them yields a plot of the right size that proves nothing.",
  ["include/chia/phase2.hpp", "include/chia/phase3.hpp", "include/chia/phase4.hpp", "include/chia/encoding.hpp"], [("phase2::compute, phase3::compute, phase4::compute", "include/chia/phase2.hpp, phase3.hpp, phase4.hpp")], ["the finished plot file"])
prop("C28", "Phase 1 leaves exactly the tables of the plot's definition",
  "After phase 1, the file of table 1 holds every x in order of its y, and each of tables 2 to 7 holds exactly one entry per matching pair of the table before it, referring to the two entries by their positions in that table's file. Tables 2 to 6 are in order of their own y, table 7 carries its y, numbers of entries are reported correctly, and nothing but the seven table files remains. This holds for every k, bucket count, thread count and schedule.",
  ["inputs", "schedules", "configurations", "fault_sequences"], "table contents, k, buckets, threads and schedules within the bounds", "No stable test runs phase 1 against an independent definition; an error anywhere in it yields a plot that proves nothing.",
  ["include/chia/phase1.hpp", "include/chia/phase1.h", "include/chia/DiskSort.hpp", "include/chia/DiskTable.h"], [("phase1::compute, compute_table, compute_matches", "include/chia/phase1.hpp")], ["the seven phase 1 table files", "numbers of entries handed to phase 2"])
NA = {}
LN = "every assertion on every explored path is decided by z3 for all input values within the bounds stated in the evidence; counterexamples are reported only after the compiled real code reproduces them. Trusted: clang's IR, the engine in engine/, the file/thread model in rt/ (sampled by translation validation on every run)"
M = dict(version=1, setup_cmd="bash setup.sh", checks=[
    dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
         technique="bounded symbolic execution of the real code's LLVM IR; z3 decides; native replay of counterexamples", level="model_checking", level_note=LN + "; bounds: " + checks.CHECKS[p["id"]]["bounds"]) for p in P if p["id"] in checks.CHECKS],
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in P if p["id"] not in checks.CHECKS])
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as f: json.dump(M, f, indent=1); f.write("\n")
