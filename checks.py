# Jobs per property: which harness, which bounds, which engine options.
COMMON_ASSUMPTIONS = [
    "the IR that is executed symbolically is the IR clang-18 -O1 produces from the working tree; compiled code is assumed equivalent (sampled by translation validation)",
    "memory allocation never fails; stream output (cout/cerr) has no effect",
]
K = [("k32", []), ("k34", ["-DCHIA_K34"])]
def J(name, h, **kw): return dict(name=name, h=h, **kw)
CHECKS = {}

# ---- C01 records
CHECKS["C01"] = dict(
    bounds="every field value of the documented width, every prior buffer/object content; 1 record per buffer, 2 per file; both k<=32 and k<=34 builds; decided with and without the term simplifier",
    jobs=[J("%s-type%d%s" % (k, t, "-nosimp" if ns else ""), "h_records", defs=d, knobs={"knob_type": t}, opts=(["--nosimp"] if ns else []), cover=["done"])
          for k, d in K for t in range(12) for ns in (0, 1)])

# ---- C02 bit strings
CHECKS["C02"] = dict(
    bounds="bit lengths up to 64 per value for every length/offset (symbolic values), byte buffers up to 40 bytes, vectors of deltas/parks up to 3 values; see harness/h_bits.cpp for each case",
    jobs=[J("case%d" % c, "h_bits", knobs={"knob_case": c}, cost=100 if c in (0, 1, 5) else 5) for c in (0, 1, 2, 5, 6, 7, 8, 9, 10, 11)]
       + [J("case%d-n%d" % (c, n), "h_bits", knobs={"knob_case": c, "knob_n": n}) for c in (3, 4) for n in range(8)])

# ---- C03 line points
CHECKS["C03"] = dict(
    bounds="round trip for every pair with values below 2^8 (16 in the thorough tier), for every pair whose larger value lies within 16 of each of 14 bases up to 2^34 (smaller value arbitrary), order independence and range for every pair of k-bit values",
    outside="the round trip for arbitrary larger values above 2^16 (128-bit multiply plus square root search is out of z3's reach)",
    jobs=[J("sym-roundtrip8", "h_linepoint", knobs={"knob_case": 0, "knob_bits": 8}, opts=["--fork-select"]),
          J("enum8", "h_linepoint", knobs={"knob_case": 1, "knob_bits": 8}, opts=["--fork-select"]),
          J("sym12", "h_linepoint", knobs={"knob_case": 3, "knob_bits": 12}, opts=["--fork-select"]),
          J("order8", "h_linepoint", knobs={"knob_case": 4, "knob_bits": 8}, opts=["--fork-select"]),
          J("sym-roundtrip16", "h_linepoint", knobs={"knob_case": 0, "knob_bits": 16}, opts=["--fork-select"], cost=50, thorough=True)]
       + [J("base%d" % b, "h_linepoint", knobs={"knob_case": 2, "knob_base": b}, opts=["--fork-select"]) for b in range(14)])

# ---- C04 F1
CHECKS["C04"] = dict(
    bounds="key stream generator: every 256-bit key and every 64-bit block counter for one block, 7 counters (incl. 32-bit wrap) x 1..4 blocks; block function: every plot id and key stream content, 22 blocks of 16 x values spread over the range, each k in 18..34; whole table: k=17 and 18 through the real thread pools, every order in which pool threads may take turns (no preemption inside a job); k 20..34: 10 parts of 65536 entries each of the whole table (pools replaced by direct calls)",
    jobs=[J("chacha-anykey", "h_chacha", src=["REPO/lib/chacha8.c"], knobs={"knob_case": 0}, cover=["chacha"]),
          J("chacha-multi", "h_chacha", src=["REPO/lib/chacha8.c"], knobs={"knob_case": 1}, cover=["chacha"]),
          J("table17", "h_f1", knobs={"knob_case": 2, "knob_k": 17}, opts=["--max-instr", 10**9, "--preempt", 0], cover=["table"], cost=20),
          J("table17t2", "h_f1", knobs={"knob_case": 2, "knob_k": 17, "knob_threads": 2}, opts=["--max-instr", 10**9, "--preempt", 0], cover=["table"], cost=30, thorough=True),
          J("table18", "h_f1", knobs={"knob_case": 2, "knob_k": 18}, opts=["--max-instr", 10**9, "--preempt", 0], cover=["table"], cost=30, thorough=True)]
       + [J("block-k%d%s%s" % (k, "-again" if c else "", "-x64" if d else ""), "h_f1", defs=d, knobs={"knob_case": c, "knob_k": k}, cover=["block"]) for c in (0, 1) for k, d in [(x, []) for x in range(18, 33)] + [(33, ["-DCHIA_K34"]), (34, ["-DCHIA_K34"]), (32, ["-DCHIA_K34"])]])

CHECKS["C04"]["jobs"] += [J("large-k%d" % k, "h_f1big", defs=d, knobs={"knob_k": k, "knob_threads": t}, opts=["--max-instr", 4 * 10**9, "--one-schedule"], cover=["table"], cost=25) for k, d, t in [(k, [], 1 + k % 3) for k in range(20, 33, 2)] + [(33, ["-DCHIA_K34"], 1), (34, ["-DCHIA_K34"], 4)]]
# ---- C10/C11/C12 threads
TH = ["--dedup", "--races"]
def T(name, case, jobs, p, threads=2, named=0, out=0, sp=0, **kw):
    return J(name, "h_thread", knobs={"knob_case": case, "knob_jobs": jobs, "knob_threads": threads, "knob_named": named, "knob_out": out}, opts=TH + ["--preempt", p] + (["--spurious", sp] if sp else []), **kw)
CHECKS["C10"] = dict(
    bounds="one consumer thread, 1..4 jobs with arbitrary 64-bit data, one or two producers, every interleaving of lock/wait/notify/racy-access steps with at most 3 (quick) / 5 (thorough) preemptions and up to 2 spurious wake-ups",
    jobs=[T("jobs%d-style%d-named%d" % (n, o, nm), 0, n, 3, out=o, named=nm, sp=2, cover=["single"]) for n in (1, 2, 3) for o in (0, 1, 2) for nm in (0, 1)]
       + [T("jobs4-style%d" % o, 0, 4, 3, out=o, sp=1, cover=["single"]) for o in (0, 1, 2)]
       + [T("producers2-%d" % n, 1, n, 3, cover=["producers"], cost=9) for n in (1, 2)] + [T("producers2-spurious", 1, 2, 2, sp=1, cover=["producers"], cost=9)]
       + [T("deep-jobs%d-style%d" % (n, o), 0, n, 6, out=o, sp=3, cover=["single"], thorough=True) for n in (3, 4, 6) for o in (0, 1, 2)]
       + [T("deep-producers%d" % n, 1, n, 5, sp=1, cover=["producers"], thorough=True) for n in (2, 3)])
CHECKS["C11"] = dict(
    bounds="1..3 pool threads, 1..5 jobs with arbitrary data, output to a processor, to another Thread or to none, pool-thread-pool chain as in the sorter; every interleaving with at most 2 preemptions (quick; 1 for 3 threads or chains), 3 (thorough), up to 1 spurious wake-up; up to 8 threads and 11 jobs with any two threads slower than all others",
    jobs=[T("t%d-jobs%d-out%d-named%d" % (t, n, o, nm), 3, n, 2 if t < 3 and o != 1 else 1, threads=t, out=o, named=nm, cover=["pool"], cost=t * n * (o == 1 and 3 or 1)) for t in (1, 2, 3) for n in (1, 3, 4) for o in (0, 1, 2) for nm in (0, 1)]
       + [T("t2-jobs3-spurious", 3, 3, 1, sp=1, cover=["pool"]), T("t2-jobs5", 3, 5, 1, cover=["pool"]), T("chain", 5, 2, 1, cover=["chain"], cost=50)]
       + [T("deep-t%d-jobs%d-out%d" % (t, n, o), 3, n, 3, threads=t, out=o, sp=1, cover=["pool"], thorough=True) for t in (2, 3) for n in (4, 6) for o in (0, 1)])
CHECKS["C12"] = dict(
    bounds="a job failing with an exception at each position: Thread with 1..4 jobs, ThreadPool with 1..3 threads and 1..5 jobs, failure in the job, in the output processor or in either stage of a pool-thread-pool chain, with and without stack unwinding through the destructors; at most 2 preemptions (3 thorough), up to 1 spurious wake-up; up to 6 threads and 7 jobs with any two threads slower than all others",
    jobs=[T("thread-jobs%d" % n, 2, n, 3, sp=1, cover=["caught", "terminated"]) for n in (1, 2, 3, 4)]
       + [T("t%d-jobs%d-out%d-named%d" % (t, n, o, nm), 4, n, 1 if t == 3 or o == 1 else 2, threads=t, out=o, named=nm, cover=["caught"], cost=t * n * (o == 1 and 3 or 1)) for t in (1, 2, 3) for n in (1, 3, 4, 5) for o in (0, 1, 2, 3) for nm in (0, 1) if n < 4 or (t == 2 and o != 1) or (n == 4 and t == 3 and nm)]
       + [T("chain", 5, 2, 0, named=1, cover=["caught"], cost=50)]
       + [T("deep-chain", 5, 3, 1, named=1, cover=["caught"], cost=50, thorough=True)]
       + [T("deep-t%d-jobs%d-out%d" % (t, n, o), 4, n, 3, threads=t, out=o, sp=1, cover=["caught"], thorough=True) for t in (2, 3) for n in (4, 6) for o in (0, 1, 3)])

# ---- C08 DiskSort, C09 DiskTable, C20 faults
def S(name, opts, h="h_sort", defs=(), src=(), cover=("sorted",), **kn):
    kw = {k: kn.pop(k) for k in ("cost", "thorough", "time", "bounds") if k in kn}
    return J(name, h, defs=list(defs), src=list(src), knobs={"knob_" + k: v for k, v in kn.items()}, opts=opts, cover=list(cover), **kw)
ONE = ["--one-schedule"]
TYPES = [(0, 8, "rec"), (1, 38, "entry4"), (2, 32, "entryx"), (3, 63, "lp"), (4, 32, "np")]
CHECKS["C08"] = dict(
    bounds="any key values: up to 5 entries with arbitrary keys (all low bits symbolic, all bucket/block combinations), 2 and 4 buckets, read/write chunks of 1..3 entries, key sizes 4..63 and fewer than twice the bucket bits, entry types of phases 1-3 and a generic one, 1..2 sort and read threads, adding directly, through caches, from two writers at once; up to 60 entries with fixed keys (all equal, mixed, descending) or one arbitrary key among 34; kept files read again, read-only; all interleavings with at most 1 preemption, and any two threads slower than all others, for fixed key patterns",
    jobs=[S("%s-n%d-chunk%d-mode%d" % (nm, n, ch, m), ONE, type=t, keybits=kb, n=n, chunk=ch, mode=m, cost=n * n) for t, kb, nm in TYPES for n, ch, m in ((3, 2, 0), (4 if t != 3 else 3, 1, 1), (3, 3, 3), (2, 1, 2), (0, 2, 0), (1, 2, 1))]
       + [S("n5-chunk%d" % ch, ONE, keybits=5, n=5, chunk=ch, cost=40) for ch in (2, 3)]
       + [S("log2-n%d-mode%d" % (n, m), ONE, keybits=kb, n=n, logb=2, mode=m, cost=20) for n, m, kb in ((2, 0, 4), (2, 1, 7), (1, 2, 5))]
       + [S("keep-n3", ONE, n=3, keep=1), S("keep-again-n3", ONE, n=3, keep=2, cover=["again"]), S("keep-again-x-n4", ONE, n=4, type=2, keybits=32, keep=2, mode=1, cover=["again"]), S("keep-again-many", ONE, n=40, fixed=6, keep=2, chunk=7, threads=2, rthreads=2, cover=["again"]), S("threads-n3", ONE, n=3, threads=2, rthreads=0, mode=1)]
       + [S("short-keys%d-log%d" % (kb, lb), ONE, keybits=kb, n=n, logb=lb, mode=m, cost=10) for kb, lb, n, m in ((3, 2, 3, 0), (2, 2, 3, 1), (5, 3, 2, 2))]
       + [S("k34-%s" % nm, ONE, defs=["-DCHIA_K34"], type=t, keybits=kb, n=3, mode=1) for t, kb, nm in ((1, 40, "entry4"), (2, 35, "entryx"), (3, 63, "lp"), (4, 35, "np"))]
       + [S("sched-pat%d-t%d-r%d-mode%d" % (f, t, r, m), TH + ["--preempt", p], fixed=f, threads=t, rthreads=r, n=n, mode=m, cost=60) for f, t, r, m, n, p in ((1, 1, 1, 1, 4, 1), (1, 2, 1, 0, 4, 1), (1, 1, 2, 0, 4, 1), (4, 2, 2, 0, 4, 1), (1, 1, 1, 2, 4, 2), (3, 1, 2, 2, 5, 1), (2, 2, 2, 0, 6, 0))]
       + [S("log2-n3", ONE, keybits=5, n=3, logb=2, thorough=True, cost=90), S("n6", ONE, keybits=5, n=6, thorough=True, cost=90), S("lp-n5", ONE, type=3, keybits=63, n=5, thorough=True, cost=90), S("deep-sched", TH + ["--preempt", 2], fixed=1, threads=2, rthreads=2, n=4, thorough=True, cost=99)])
T9 = [(0, "rec"), (1, "tmp1"), (2, "tmpx"), (3, "entry7")]
CHECKS["C09"] = dict(
    bounds="0..7 entries with arbitrary field values, write buffers of 1..4 entries, read blocks of 1..4, 1..3 read threads, table types of phases 1-2; a table of 4.2 GiB (very large entries); at most 2 preemptions",
    jobs=[S("%s-n%d-w%d-r%d-mode%d" % (nm, n, w, r, m), ONE, h="h_table", cover=["read"], type=t, n=n, chunk=w, rchunk=r, mode=m, threads=2) for t, nm in T9 for n, w, r in ((0, 2, 2), (1, 2, 1), (3, 1, 2), (4, 2, 2), (5, 3, 2), (7, 4, 4), (4, 4, 1)) for m in (0, 1, 2) if not (n == 0 and m)]
       + [S("k34-%s-mode%d" % (nm, m), ONE, h="h_table", defs=["-DCHIA_K34"], cover=["read"], type=t, n=5, mode=m, threads=2) for t, nm in T9 for m in (0, 2)]
       + [S("beyond-4g", ONE + ["--max-instr", 4 * 10**9], h="h_table", cover=["read"], type=9, n=180, threads=2, cost=50)]
       + [S("sched-t%d-n%d-mode%d" % (t, n, m), TH + ["--preempt", p], h="h_table", cover=["read"], n=n, threads=t, mode=m, cost=30) for t, n, m, p in ((1, 5, 1, 2), (2, 5, 0, 2), (2, 5, 1, 1), (3, 7, 0, 1))]
       + [S("deep-sched-t3", TH + ["--preempt", 2], h="h_table", cover=["read"], n=7, threads=3, mode=1, thorough=True)])
CHECKS["C20"] = dict(
    bounds="any one (thorough: two) failing call among fopen/fwrite/fread/fseek/fflush/fclose/remove at every position, failing completely or after half the data; DiskSort with up to 4 entries, DiskTable with up to 5; all thread orders without preemption inside a job (1 preemption for 1 fault in small cases)",
    jobs=[S("sort-pat%d-n%d-mode%d" % (f, n, m), ["--dedup", "--preempt", 0], cover=["reported", "sorted"], fixed=f, n=n, mode=m, fault=1, threads=t, rthreads=t, cost=20 * t) for f, n, m, t in ((1, 4, 0, 1), (1, 4, 1, 1), (2, 3, 3, 1), (1, 3, 2, 1), (4, 3, 0, 2), (3, 3, 1, 1))]
       + [S("sort-data-n%d" % n, ONE, cover=["reported", "sorted"], n=n, mode=m, fault=1) for n, m in ((2, 0), (3, 1))]
       + [S("table-n%d-mode%d-t%d" % (n, m, t), ["--dedup", "--preempt", 1], h="h_table", cover=["reported", "read"], n=n, mode=m, fault=1, threads=t, fixed=1) for n, m, t in ((3, 0, 1), (5, 1, 2), (5, 2, 1), (4, 0, 2), (1, 1, 1))]
       + [S("table-%s" % nm, ONE, h="h_table", cover=["reported", "read"], type=t, n=4, mode=1, fault=1, threads=1) for t, nm in T9]
       + [S("sort-two-faults", ["--dedup", "--preempt", 0], cover=["reported", "sorted"], fixed=1, n=4, mode=0, fault=2, thorough=True), S("table-two-faults", ["--dedup", "--preempt", 1], h="h_table", cover=["reported", "read"], n=5, mode=1, fault=2, threads=2, fixed=1, thorough=True), S("sort-sched-fault", ["--dedup", "--preempt", 1], cover=["reported", "sorted"], fixed=1, n=4, mode=0, fault=1, threads=2, rthreads=2, thorough=True)])

# ---- C13 bitfield
CHECKS["C13"] = dict(
    bounds="bitmap sizes 200 and 2200 bits (several index blocks), every content of a sliding window of symbolic words, every query position; concurrent set() from 2 threads on every pair of positions, all interleavings at access granularity",
    jobs=[S("rank-size%d-set%d-fill%d" % (sz, st, f), [], h="h_bitfield", cover=["lookup"], case=0, size=sz, set=st, fill=f) for sz in (200, 2200) for st in range(3) for f in range(3) if sz > 200 or st != 1]
       + [S("single", [], h="h_bitfield", cover=["single"], case=1, size=100, cost=9), S("single-large", [], h="h_bitfield", cover=["single"], case=1, size=300, cost=9, thorough=True), S("concurrent", ["--races"], h="h_bitfield", cover=["concurrent"], case=2)])
# ---- C14 phase 2
CHECKS["C14"] = dict(
    bounds="one table: 3 entries (thorough 4) with arbitrary pos/off values over left tables of up to 8 entries and every used/unused bitmap, table 7 (all kept) and 2..6; whole phase 2 over 7 tables with fixed and partly symbolic contents, also with any one table larger than the others; 1..2 threads, all orders in which pool threads may take turns (no preemption inside a job), any two threads slower than all others (up to 4 threads), data races reported as schedule points",
    jobs=[S("table-n3-l6", ONE, h="h_phase2", cover=["table"], case=0, n=3, l=6, cost=90), S("t7-n3-l6", ONE, h="h_phase2", cover=["table"], case=0, n=3, l=6, used=0, t7=1, cost=80), S("table-n3-l8", ONE, h="h_phase2", cover=["table"], case=0, n=3, l=8, cost=90, thorough=True), S("t7-n3-l8", ONE, h="h_phase2", cover=["table"], case=0, n=3, l=8, used=0, t7=1, cost=80, thorough=True),
          S("table-n2-l5", ONE, h="h_phase2", cover=[], case=0, n=2, l=5), S("table-k34", ONE, h="h_phase2", defs=["-DCHIA_K34"], cover=[], case=0, n=2, l=5),
          S("sched-t1", TH + ["--preempt", 0], h="h_phase2", cover=[], case=0, fixed=1, used=0, threads=1), S("sched-t2", TH + ["--preempt", 0], h="h_phase2", cover=[], case=0, fixed=1, used=0, threads=2),
          S("all-fixed", ONE, h="h_phase2", cover=[], case=1), *[S("all-large%d" % t, ONE, h="h_phase2", cover=["whole"], case=1, big=t) for t in range(1, 8)], S("all-sym4", ONE, h="h_phase2", cover=[], case=1, sym=4, cost=50),
          S("table-n4-l5", ONE, h="h_phase2", cover=[], case=0, n=4, l=5, thorough=True, cost=99), S("many", ONE, h="h_phase2", cover=["table"], case=2, n=1500, l=3000, cost=20), S("many-t2", ONE, h="h_phase2", cover=["table"], case=2, n=700, l=1100, threads=2, cost=20)])
# ---- C05 f functions
CHECKS["C05"] = dict(
    bounds="one pair, every y/metadata/x value and every hash output, tables 2..7, every k in 18..34 (both builds at k=32), records passed through their disk encoding between tables; BLAKE3 itself is a stand-in whose input is checked and whose output is arbitrary; decided with and without the term simplifier",
    outside="BLAKE3 itself (its sources are not available offline)",
    jobs=[S("k%d%s-t%d%s" % (k, "x" if d else "", t, ns and "-z3" or ""), ns, h="h_fx", defs=d, cover=["evaluated"], k=k, table=t) for k, d in [(x, []) for x in range(18, 33)] + [(x, ["-DCHIA_K34"]) for x in (32, 33, 34)] for t in range(2, 8) for ns in ([], ["--nosimp"]) if not ns or (k in (32, 33) and t < 6)])
# ---- C06 matching, C07 pairing
CHECKS["C06"] = dict(
    bounds="all y values of two adjacent groups with up to 3 left and 3 right entries (scaled group size 15 = 3 x 5, 2 targets), group numbers at both parities up to the largest of k=32, one earlier call on the same matcher with any 2 right entries, positions at the representable limit, up to 16 matches (more than a pair of groups can take: all or an error); with the real group size 15113: every left residue and parity against every right residue",
    jobs=[S("nl%d-nr%d-g%d" % (a, b, g), [], h="h_match", defs=["-DSCALED"], cover=["match"], nl=a, nr=b, g=g, cost=5) for a, b in ((2, 2), (1, 3), (3, 1)) for g in range(6)]
       + [S("nl2-nr3-g%d" % g, [], h="h_match", defs=["-DSCALED"], cover=["match"], nl=2, nr=3, g=g, cost=12) for g in (0, 1)]
       + [S("symbolic-left-g%d" % g, [], h="h_match", defs=["-DSCALED"], cover=["match"], nl=2, nr=1, g=g, conc=0, cost=15) for g in (0, 5)]
       + [S("again-g%d" % g, [], h="h_match", defs=["-DSCALED"], cover=["match"], case=1, nl=1, nr=2, g=g, cost=28) for g in (1, 2)]
       + [S("poslimit%s" % x, [], h="h_match", defs=["-DSCALED"] + d, cover=["match"], pos=1, nl=2, nr=2, g=3) for x, d in (("", []), ("-k34", ["-DCHIA_K34"]))]
       + [S("real%d" % f, ["--max-instr", 2 * 10**9], h="h_match", cover=["match"], case=2, step=4, **{"from": f}, cost=20) for f in range(4)]
       + [S("many-g%d-nl%d-nr%d" % (g, a, b), [], h="h_match", defs=["-DSCALED"], cover=[], case=3, nl=a, nr=b, g=g) for g, a, b in ((0, 4, 4), (3, 5, 3), (1, 2, 8))]
       + [S("nl3-nr3", [], h="h_match", defs=["-DSCALED"], cover=["match"], nl=3, nr=3, g=0, cost=99, thorough=True)])
CHECKS["C07"] = dict(
    bounds="up to 4 entries (thorough 5) over group steps 0..2 and 3 residues, also steps of 3 and 9 groups, every split into blocks, left tables of entry types 1 and 6, one schedule; any two (thorough three) y values below 60 fully symbolic; all thread orders without preemption for fixed inputs of 4..5 entries, 1 and 2 threads; any two threads slower than all others (up to 4 threads); positions cut at 2^PMAX (scaled to 1, 2 and 4); scaled group size 15",
    jobs=[S("n4-split%d" % s, ONE, h="h_pair", cover=["pairs"], n=4, split=s, cost=30) for s in range(8)]
       + [S("n%d" % n, ONE, h="h_pair", cover=["none"], n=n) for n in (0, 1, 2)] + [S("n3", ONE, h="h_pair", cover=["pairs"], n=3, threads=2)]
       + [S("sym-n2", ONE, h="h_pair", cover=["pairs"], n=2, sym=1, cost=10), S("sym-t7-n2", ONE, h="h_pair", cover=["pairs"], n=2, sym=1, table=7, cost=10)]
       + [S("t7-n4", ONE, h="h_pair", cover=["pairs"], n=4, res=2, table=7, cost=10), S("k34-n3", ONE, h="h_pair", defs=["-DCHIA_K34"], cover=["none"], n=3, table=7)]
       + [S("sched-f%d-t%d-split%d-table%d" % (f, t, s, tb), TH + ["--preempt", 0], h="h_pair", cover=["pairs"], n=n, fixed=f, threads=t, split=s, table=tb, cost=50) for f, n, t, s, tb in ((1, 5, 1, 5, 2), (2, 5, 1, 2, 2), (1, 4, 2, 2, 2), (1, 4, 1, 2, 7))]
       + [S("many-table%d" % t, ONE + ["--max-instr", 4 * 10**9], h="h_pair", defs=["-DREALC"], cover=["pairs"], n=1100, split=-150, table=t, cost=30) for t in (2, 7)]
       + [S("n5-res2", ONE, h="h_pair", cover=["pairs"], n=5, res=2, cost=90, thorough=True), S("sym-n3", ONE, h="h_pair", cover=["pairs"], n=3, sym=1, cost=99, thorough=True)])
# ---- C15 phase 3 stage 1
CHECKS["C15"] = dict(
    bounds="4 left entries, up to 3 right entries with every sorted position/offset combination and arbitrary keys, every split of both inputs into blocks, table 1 with any 2 unused entries, table 7; one schedule. For fixed inputs every interleaving with at most 1 preemption (1 merge thread), and every schedule with at most 2 deviations from a deterministic one (2 merge threads), and any two threads slower than all others (up to 3 merge threads)",
    jobs=[S("data-rsplit%d" % r, ONE, h="h_stage1", cover=["joined"], rsplit=r, cost=20) for r in range(4)]
       + [S("data-sym-nr%d" % n, ONE + ["--nosimp"], h="h_stage1", cover=["joined"], nr=n, sym=1, lsplit=l) for n, l in ((1, -1), (2, 2))]
       + [S("table1-rsplit%d" % r, ONE, h="h_stage1", cover=["joined"], kind=1, nr=2, lsplit=0, rsplit=r, cost=20) for r in range(2)]
       + [S("table7", ONE, h="h_stage1", cover=["joined"], kind=2, rsplit=0, cost=20), S("table7-sym", ONE + ["--nosimp"], h="h_stage1", cover=["joined"], kind=2, rsplit=0, lsplit=1, nr=2, sym=1),
          S("k34", ONE, h="h_stage1", defs=["-DCHIA_K34"], cover=["joined"], nr=2), S("threads8", ONE, h="h_stage1", cover=["joined"], nr=3, threads=8, rsplit=3, lsplit=5, cost=20), S("many", ONE, h="h_stage1", cover=["joined"], kind=9, nl=3000, nr=1500, threads=8, cost=20)]
       + [S("sched-f%d-nr%d-l%d-r%d-kind%d" % (f, n, l, r, k), TH + ["--preempt", p], h="h_stage1", cover=["joined"], fixed=f, nr=n, lsplit=l, rsplit=r, kind=k, cost=40) for f, n, l, r, k, p in ((1, 1, 5, 0, 0, 1), (2, 2, 7, 1, 0, 1), (3, 3, 2, 3, 0, 0), (2, 3, 7, 1, 1, 0), (1, 3, 4, 0, 2, 0))]
       + [S("merge2-f%d" % f, TH + ["--delay", 2], h="h_stage1", cover=["joined"], fixed=f, nr=3, lsplit=l, rsplit=3, threads=8, cost=60) for f, l in ((1, 5), (3, 7))]
       + [S("deep-f%d" % f, TH + ["--preempt", 2], h="h_stage1", cover=["joined"], fixed=f, nr=2, lsplit=5, rsplit=1, cost=60, thorough=True) for f in (1, 2, 3)]
       + [S("deep-merge2", TH + ["--delay", 3], h="h_stage1", cover=["joined"], fixed=1, nr=3, lsplit=5, rsplit=3, threads=8, cost=60, thorough=True)])
# ---- C17 delta compression
FSE = ["REPO/lib/FSE/lib/" + f for f in ("fse_compress.c", "fse_decompress.c", "entropy_common.c", "hist.c")]
def F(name, **kw): return S(name, ONE + ["--max-instr", 4 * 10**9], h="h_fse", src=FSE, **kw)
CHECKS["C17"] = dict(
    bounds="every R value of a plot (tables 1..6 and C3): one arbitrary delta at 8 places of typical sequences of 3, 5, 40, 200 (thorough 2047) deltas, two arbitrary neighbouring deltas, every sequence of 6 deltas over 5 classes (smallest, middle, largest), one arbitrary value repeated 300 (2047) times, every sequence of up to 2 (C3, thorough: 3) deltas; every delta without a code at 4 places; the table used first, or after tables of all other R values; two threads that need new tables at the same time, every schedule with at most 1 preemption",
    jobs=[F("t%d-one-n%d" % (t, n), cover=["roundtrip"], table=t, case=1, n=n, cost=n // 10) for t in range(1, 8) for n in (3, 5, 40, 200)]
       + [F("t%d-after-%d" % (t, w), cover=["roundtrip"], table=t, case=1, n=9, warm=w) for t in range(1, 8) for w in (1, 2)]
       + [S("threads-t%d" % t, TH + ["--preempt", 1, "--races", "--max-instr", 4 * 10**9], h="h_fse", src=FSE, cover=["concurrent"], table=t, case=6, n=5, cost=20) for t in (1,)]
       + [F("t%d-classes" % t, cover=["roundtrip"], table=t, case=2, n=6, cost=9) for t in range(1, 8)]
       + [F("t%d-refuse" % t, cover=["refused"], table=t, case=3, n=4) for t in range(1, 8)]
       + [F("t%d-repeat" % t, cover=["roundtrip"], table=t, case=5, n=300, cost=9) for t in range(1, 8)]
       + [F("c3-two-n6", cover=["roundtrip"], table=7, case=4, n=6, cost=20), F("t1-all-n1", cover=["raw"], table=1, case=0, n=1), F("c3-all-n2", cover=["raw"], table=7, case=0, n=2)]
       + [F("t%d-two-n7" % t, cover=["roundtrip"], table=t, case=4, n=7, cost=99, thorough=True) for t in range(1, 7)]
       + [F("t%d-repeat-2047" % t, cover=["roundtrip"], table=t, case=5, n=2047, cost=99, thorough=True) for t in range(1, 8)]
       + [F("t%d-one-2047" % t, cover=["roundtrip"], table=t, case=1, n=2047, cost=99, thorough=True) for t in range(1, 8)]
       + [F("c3-all-n3", cover=["roundtrip"], table=7, case=0, n=3, cost=200, thorough=True)])
# ---- C16 parks
def P2(name, opts=None, defs=(), **kw): return S(name, (ONE if opts is None else opts) + ["--index-fork", 8, "--max-instr", 4 * 10**9], h="h_stage2", src=FSE, defs=defs, **kw)
CHECKS["C16"] = dict(
    bounds="parks of 4 (8, 3) entries, up to 9 points: arbitrary first point, 3 consecutive arbitrary low parts at every place, any one distance between points (all 255), classes of distances with extreme low bits, tables 1..6, k 18..34; points too far apart or parks too full are refused; parks that fill their space exactly or miss it by one byte; positions cut at 2^PMAX (scaled to 4 and 8); points in one and in up to 64 blocks (parks across blocks); read blocks of 1..4 entries; table at file offsets up to 111 GB; 275 and 700 parks of typical points; for fixed points every thread order without preemption, and every schedule with at most 2 deviations (1..4 threads; 1 with many blocks), any two threads slower than all others (up to 6 threads). With the real park size: 2051 and 4096 typical points, park sizes for every k and table",
    outside="parks of 2048 entries with arbitrary contents",
    jobs=[P2("stubs-n%d-w%d" % (n, w), cover=["decoded"], case=0, n=n, win=w, cost=20) for n, w in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 1), (6, 3), (9, 4), (9, 6), (8, 5))]
       + [P2("table%d" % t, cover=["decoded"], case=1, n=6, table=t) for t in range(1, 7)]
       + [P2("k%d" % k, cover=["decoded"], case=0, n=6, win=1, k=k) for k in range(18, 33, 2)] + [P2("k%dx" % k, defs=["-DCHIA_K34"], cover=["decoded"], case=0, n=6, win=2, k=k) for k in (32, 33, 34)]
       + [P2("low-n%d" % n, cover=["decoded"], case=7, n=n, rchunk=c, cost=30) for n, c in ((3, 1), (4, 2))]
       + [P2("classes-n4", cover=["decoded"], case=2, n=4, rchunk=2, cost=30), P2("classes-n5", ["--one-schedule"], defs=["-DEPP=3"], cover=["decoded"], case=2, n=4, rchunk=4, cost=30)]
       + [P2("far-%d" % n, cover=[], case=4, n=n) for n in (3, 6)] + [P2("full", defs=["-DEPP=8", "-DADELTA=4.0"], cover=[], case=5, n=8), P2("full-t3", defs=["-DEPP=8", "-DADELTA=4.0"], cover=[], case=5, n=9, table=3)]
       + [P2("limit-n%d" % n, defs=["-DPM=2"], cover=["decoded"], case=0, n=n, win=w, rchunk=c) for n, w, c in ((4, 1, 3), (5, 2, 2), (7, 2, 3))] + [P2("limit-blocks-n%d" % n, defs=["-DPM=%d" % m], cover=["decoded"], case=3, n=n, logb=2, threads=t) for n, t, m in ((4, 1, 2), (5, 4, 2), (9, 2, 2), (13, 2, 3))]
       + [P2("far-offset%d" % b, cover=["decoded"], case=3, n=6, base=b) for b in (4, 90)]
       + [P2("empty", cover=["decoded"], case=3, n=0), P2("real-2051", defs=["-DREAL"], cover=["decoded"], case=3, n=2051, rchunk=500), P2("real-4096-t2", defs=["-DREAL"], cover=["decoded"], case=3, n=4096, table=2, rchunk=500), P2("parks-275", cover=["decoded"], case=3, n=1100, rchunk=100), P2("parks-700-t4", cover=["decoded"], case=3, n=2798, threads=4, rchunk=90, table=3), P2("real-sizes", defs=["-DREAL"], cover=["sizes"], case=9)]
       + [P2("sched-n%d-t%d-c%d" % (n, t, c), TH + ["--preempt", 0], cover=["decoded"], case=3, n=n, threads=t, rchunk=c, cost=30) for n, t, c in ((6, 1, 3), (8, 2, 4), (5, 2, 2))]
       + [P2("delay-n%d-t%d-c%d" % (n, t, c), TH + ["--delay", 2], cover=["decoded"], case=3, n=n, threads=t, rchunk=c, cost=90) for n, t, c in ((6, 1, 2), (9, 4, 3))] + [P2("delay1", TH + ["--delay", 1], cover=["decoded"], case=3, n=8, threads=4, rchunk=1)]
       + [P2("deep-delay", TH + ["--delay", 3], cover=["decoded"], case=3, n=9, threads=4, rchunk=2, cost=99, thorough=True), P2("deep-low-n5", cover=["decoded"], case=7, n=5, rchunk=2, cost=99, thorough=True), P2("deep-classes", ["--one-schedule"], cover=["decoded"], case=2, n=5, rchunk=3, cost=99, thorough=True), P2("real-any-delta", defs=["-DREAL"], cover=["decoded"], case=1, n=2060, rchunk=500, cost=99, thorough=True)])
# ---- C18 final tables
def P4(name, opts=None, defs=(), **kw): return S(name, (ONE if opts is None else opts) + ["--index-fork", 8, "--max-instr", 4 * 10**9], h="h_phase4", src=FSE, defs=defs, **kw)
CHECKS["C18"] = dict(
    bounds="0..23 entries with an arbitrary first y and arbitrary positions (P7 parks of 4, C1 every 5, C2 every 2 C1 entries), any one gap, classes of gaps (0, 1, 60, largest) for 4 entries, large gaps at checkpoints, duplicates of y, every k 18..34, read blocks of 1..6; file offsets up to 111 GB; gaps without a code and C3 parks too large (by one byte and more) are refused; entries in one and in up to 1024 blocks; every thread order without preemption, every schedule with at most 2 deviations (1 with many blocks) and any two threads slower than all others for fixed entries; 540 checkpoints of typical entries; with the real constants 20005 typical entries",
    outside="a last C3 park with fewer than 3 differences (the plot format cannot hold them)",
    jobs=[P4("sym-n%d" % n, cover=["decoded"], case=0, n=n, rchunk=c, cost=n) for n, c in ((0, 3), (1, 3), (2, 1), (3, 2), (4, 3), (5, 2), (6, 4), (8, 5), (9, 3), (10, 3), (11, 3))]
       + [P4("gap-n%d" % n, cover=["decoded"], case=1, n=n, rchunk=c) for n, c in ((5, 3), (9, 2), (14, 6))] + [P4("classes", cover=["decoded"], case=2, n=5, cost=20), P4("large", cover=["decoded"], case=6, n=23)]
       + [P4("typical-n%d" % n, cover=["decoded"], case=3, n=n) for n in (4, 10, 16, 20, 21, 40)]
       + [P4("k%d" % k, cover=["decoded"], case=0, n=6, k=k) for k in (20, 21, 23, 25, 28, 31)] + [P4("k%d" % k, defs=["-DC1I=12"], cover=["decoded"], case=0, n=8, k=k) for k in (18, 19)] + [P4("k%dx" % k, defs=["-DCHIA_K34"], cover=["decoded"], case=0, n=6, k=k) for k in (32, 33, 34)]
       + [P4("far-offset%d" % b, cover=["decoded"], case=3, n=12, base=b) for b in (4, 90)]
       + [P4("refuse", cover=[], case=4, n=6), P4("refuse-full", defs=["-DC3B=4.0", "-DC1I=10"], cover=[], case=5, n=11)]
       + [P4("real", defs=["-DREAL"], cover=["decoded"], case=3, n=20005, rchunk=3000, cost=20), P4("real-k18", defs=["-DREAL"], cover=["decoded"], case=3, n=10004, k=18, rchunk=3000, cost=20), P4("checkpoints-540", cover=["decoded"], case=3, n=2700, rchunk=300, cost=9), P4("checkpoints-270-t4", cover=["decoded"], case=3, n=1350, rchunk=77, threads=4, cost=9)]
       + [P4("sched-n%d-t%d" % (n, t), TH + ["--preempt", 0], cover=["decoded"], case=3, n=n, threads=t, rchunk=c, cost=30) for n, t, c in ((6, 1, 3), (8, 2, 4))]
       + [P4("delay-n%d-t%d" % (n, t), TH + ["--delay", 2], cover=["decoded"], case=3, n=n, threads=t, rchunk=c, cost=90) for n, t, c in ((6, 1, 2), (11, 4, 6))]
       + [P4("deep-delay", TH + ["--delay", 3], cover=["decoded"], case=3, n=11, threads=4, rchunk=3, cost=99, thorough=True), P4("deep-classes", cover=["decoded"], case=2, n=7, cost=99, thorough=True), P4("deep-sym", cover=["decoded"], case=0, n=23, cost=99, thorough=True)])
# ---- C19, C22, C26, C27: phases 2 to 4, from phase 1 tables to the finished plot
def PL(name, opts=None, defs=(), cover=("complete",), **kw): return S(name, (ONE if opts is None else opts) + ["--max-instr", 4 * 10**9], h="h_plot", src=FSE, defs=defs, cover=cover, **kw)
X34 = ["-DCHIA_K34"]
CHECKS["C19"] = dict(
    bounds="phases 2 to 4 over tables of up to 15 entries: every plot id, memo lengths 0..128 with arbitrary first and last 4 bytes, k 20..34, every y gap, several table sizes (partial and full last parks and checkpoint intervals), one schedule; the whole file is decoded from the header pointers alone",
    jobs=[PL("memo%d" % m, case=1, memo=m, size=m % 3, cost=4) for m in (0, 1, 48, 112, 128)] + [PL("k%d" % k, case=1, k=k, memo=128, pat=k, cost=4) for k in range(20, 33, 2)]
       + [PL("k%dx" % k, defs=X34, case=1, k=k, cost=4) for k in (32, 33, 34)] + [PL("gap", sym=8, memo=112, cost=10), PL("real", defs=["-DREAL"], case=1, size=1, memo=112), PL("threads4", size=1, threads=4, memo=80)] + [PL("full-size%d" % s, case=1, size=s, memo=m, pat=s, cost=5) for s, m in ((3, 112), (4, 128), (5, 0))]
       + [PL("deep-k%d-size%d" % (k, s), case=1, k=k, size=s, pat=p, memo=m, thorough=True) for k in range(20, 33) for s, p, m in ((0, 7, 3), (1, 8, 90), (2, 9, 127))])
CHECKS["C22"] = dict(
    bounds="phases 2 to 4 over tables of up to 15 entries: any one file operation (open, read, write, seek, flush, close, rename, remove; plot file and temporary files) failing completely or after half the data, or the process stopping at any file operation; thorough: two failures; one schedule (1 and 4 threads)",
    jobs=[PL("fault-size%d-t%d-dirs%d" % (s, t, d), cover=["reported", "complete"], fault=1, size=s, threads=t, dirs=d, cost=10) for s, t, d in ((0, 1, 0), (1, 4, 1), (2, 1, 2))]
       + [PL("stop-size%d-t%d" % (s, t), crash=1, size=s, threads=t, cost=8) for s, t in ((0, 1), (1, 4), (2, 1))] + [PL("fault-stop", cover=["reported", "complete"], fault=1, crash=1, size=2, cost=60, thorough=True)]
       + [PL("k34-fault", defs=X34, k=34, cover=["reported", "complete"], fault=1, cost=10), PL("two-faults", cover=["reported", "complete"], fault=2, size=2, cost=99, thorough=True)])
CHECKS["C26"] = dict(
    bounds="phases 2 to 4 over tables of up to 15 entries with 15 files of others (similar names) in the same directories: three, one or the current directory; bucket counts 2..8, 1..4 threads, any two references of each table, schedules with at most one deviation; file contents of others compared byte for byte",
    jobs=[PL("dirs%d-logb%d-t%d" % (d, l, t), dirs=d, logb=l, threads=t, size=s, pat=d + 3 * l, cost=5) for d, l, t, s in ((0, 1, 1, 0), (1, 1, 2, 1), (2, 1, 1, 2), (0, 2, 4, 1), (1, 3, 1, 0), (2, 2, 3, 1))]
       + [PL("refs%d" % t, sym=t, cost=8) for t in range(2, 8)] + [PL("schedule", ["--dedup", "--races", "--delay", 1], size=2, cost=35)]
       + [PL("schedule2", ["--dedup", "--races", "--delay", 1], size=1, threads=2, dirs=1, cost=90, thorough=True)])
CHECKS["C27"] = dict(
    bounds="all four phases over 10 and 14 entries of table 1 (table 1, BLAKE3 and group size scaled), each proof verified by recomputing f1..f7 from its 64 x values; phases 2 to 4 over tables of up to 15 entries, 6 to 9 patterns of references plus any two references of each table, any one y gap, k 20..34; schedules with at most one deviation or any one thread slower than all others; each proof's 64 x values decoded from the finished file and compared with those of the phase 1 tables",
    jobs=[PL("pat%d-size%d" % (p, s), pat=p, size=s, cost=4, k=k, threads=1 + p % 3) for p, s, k in ((1, 0, 32), (2, 1, 28), (3, 1, 24), (4, 0, 30), (5, 1, 32), (6, 1, 20), (7, 3, 32), (8, 4, 26), (9, 5, 22))]
       + [PL("refs%d" % t, sym=t, pat=11, cost=8) for t in range(2, 8)] + [PL("refs%d-size1" % t, sym=t, pat=12, size=1, cost=20, thorough=True) for t in range(2, 8)] + [PL("gap", sym=8, pat=13, cost=10), PL("k34", defs=X34, k=34, pat=14, size=1), PL("real", defs=["-DREAL"], pat=15, size=1)]
       + [PL("schedule", ["--dedup", "--races", "--delay", 1], cost=35)] + [PL("deep-pat%d" % p, pat=p, size=1, thorough=True) for p in range(20, 60)])
# ---- C28 phase 1 as a whole; all phases
def FU(name, opts=None, defs=(), **kw): return S(name, (ONE if opts is None else opts) + ["--max-instr", 8 * 10**9], h="h_full", src=FSE, defs=defs, **kw)
SALT = {18: 18550, 20: 133170, 23: 13184, 26: 49904, 29: 56387, 31: 73260, 32: 48025, 33: 18379, 34: 50744}
CHECKS["C28"] = dict(
    bounds="10 and 14 entries of table 1 (scaled groups of 15 values, 2 targets), tables 2..7 of up to 16 entries; any y of one table 1 entry, any y (below 110) of one hash result; k 18..34, 4..16 buckets, 1..4 threads, one, two or the current directory; schedules with at most one deviation (thorough: 2) or any one thread slower than all others; any failing file operation; ties of y in any order",
    jobs=[FU("k%d" % k, cover=["tables"], k=k, salt=v, defs=X34 if k > 32 else (), dirs=k % 3) for k, v in SALT.items()]
       + [FU("hash%d" % i, cover=["tables"], sym=i, salt=48025) for i in range(0, 36, 3)] + [FU("y1-%d" % i, cover=[], symx=i, salt=48025) for i in range(10)]
       + [FU("n14-t%d-logb%d" % (t, l), cover=["tables"], n=14, salt=a, threads=t, logb=l) for t, l, a in ((1, 1, 38), (2, 4, 319), (4, 3, 398))]
       + [FU("schedule-t%d" % t, TH + ["--delay", 1], cover=["tables"], salt=48025, threads=t, cost=c) for t, c in ((1, 20), (2, 30))] + [FU("fault", cover=["tables", "reported"], fault=1, salt=48025, cost=5)]
       + [FU("deep-hash%d" % i, cover=[], sym=i, n=14, salt=38, thorough=True) for i in range(80)] + [FU("deep-schedule", TH + ["--delay", 2], cover=["tables"], salt=48025, cost=99, thorough=True), FU("deep-faults", cover=["tables", "reported"], fault=2, salt=48025, cost=60, thorough=True)])
CHECKS["C27"]["jobs"] += [FU("all-k%d" % k, cover=["complete"], all=1, k=k, salt=v, defs=X34 if k > 32 else (), cost=20, thorough=k not in (20, 32, 34)) for k, v in SALT.items() if k >= 20] + [FU("all-hash%d" % i, cover=[], all=1, sym=i, salt=48025, cost=20, thorough=i != 30) for i in range(0, 40, 5)] + [FU("all-n14", cover=["complete"], all=1, n=14, salt=398, threads=4, cost=20)]
CHECKS["C26"]["jobs"] += [FU("all-dirs%d" % d, cover=["complete"], all=1, salt=48025, dirs=d, threads=1 + d, logb=1 + d, cost=15) for d in range(3)]
CHECKS["C22"]["jobs"] += [FU("all-fault", cover=["complete", "reported"], all=1, fault=1, salt=48025, cost=60, thorough=True), FU("all-stop", cover=["complete"], all=1, crash=1, salt=48025, cost=30)]
CHECKS["C20"]["jobs"] += [FU("phase1-t%d" % t, cover=["tables", "reported"], fault=1, salt=48025, threads=t, cost=15) for t in (1, 2)]
# ---- C21 copy
def CP(name, **kw): return S(name, [], h="h_copy", **kw)
CHECKS["C21"] = dict(
    bounds="every content of a plot of 0..67 bytes with copy buffers of 16 bytes (up to 5 buffers); any three failing calls (rename, open, read, write, close, remove; complete or half), the process stopping at any file operation; up to 2 retries; with and without remains of an earlier attempt",
    jobs=[CP("plain", cover=["copied"], max=67), CP("copy", case=1, cover=["copied"], max=67), CP("same", case=2, cover=["copied"]), CP("copy-fault", case=1, fault=2, cover=["copied", "reported"])]
       + [CP("fault%d%s" % (f, "-old" if o else ""), fault=f, old=o, cover=["copied", "reported"] if f > 1 else ["copied"], cost=5) for f in (1, 2) for o in (0, 1)]
       + [CP("fault3", fault=3, max=20, cover=["copied", "reported"]), CP("fault1-stop", fault=1, crash=1, cover=["copied"], cost=5), CP("fault2-stop-old", fault=2, crash=1, old=1, max=50, cover=["copied", "reported"], cost=9), CP("retry", fault=3, retry=2, max=35, cover=["copied"], cost=9), CP("retry-all", fault=2, retry=2, max=20, cover=["copied"], cost=9)]
       + [CP("deep-fault3", fault=3, max=67, old=1, crash=1, cover=["copied", "reported"], cost=60, thorough=True), CP("deep-retry", fault=3, retry=3, max=35, cover=["copied"], cost=60, thorough=True)])
# ---- C23, C24, C25: the command line program
def CL(name, opts=None, defs=(), **kw): return S(name, ONE if opts is None else opts, h="h_cli", defs=["-IVERIF/stubs_cli"] + list(defs), **kw)
CLI_OUT = "BLS, bech32, cxxopts and libsodium themselves (not available offline): stand-ins record what they are given; key addition is modelled as a commutative group"
CHECKS["C23"] = dict(
    bounds="every farmer key, pool key (48 bytes), contract hash, network port and fixed id, with hexadecimal text in either case; solo and contract plots, unique ids, 1..2 plots, k 16..34; hashing, key generation and derivation are arbitrary functions",
    outside=CLI_OUT,
    jobs=[CL("pool", cover=["identity"]), CL("pool-k16", cover=["identity"], k=16, port=8444), CL("pool-2", cover=["identity"], plots=2, upper=1, k=33, defs=X34), CL("contract", cover=["identity"], puzzle=1), CL("contract-2", cover=["identity"], puzzle=1, plots=2, k=25), CL("unique", cover=["identity"], unique=1), CL("unique-contract", cover=["identity"], unique=1, puzzle=1, plots=2, upper=1),
          CL("mmx", cover=["identity"], port=11337, k=30), CL("mmx-contract", cover=["identity"], port=11337, puzzle=1), CL("chives", cover=["identity"], port=9699, k=31), CL("fixed", cover=["identity"], id=1), CL("fixed-contract", cover=["identity"], id=1, puzzle=1, upper=1, unique=1)]
       + [CL("hex%d%s" % (n, "-upper" if u else ""), case=3, k=n, upper=u, cover=["hex"]) for n in (0, 1, 32, 48) for u in (0, 1)])
CHECKS["C24"] = dict(
    bounds="every combination of values of any two options (16 options: size, threads, four directories, pool key, contract, farmer key, id, both bucket counts, conflicting options, flags, help) with 2..20 classes of values each, any size or thread count out of range; keys and ids with any one character that is not hexadecimal at any position, or of any other length up to 99 characters; any one directory or probe file that cannot be opened; buckets up to 2^8",
    outside=CLI_OUT,
    jobs=[CL("option%d" % d, case=1, d1=d, cover=[], cost=20 if d in (1, 9, 10) else 8) for d in range(16)] + [CL("option%d-k34" % d, case=1, d1=d, dims=1, cover=[], defs=X34) for d in (0, 9)]
       + [CL("single", case=1, dims=1, cover=["accepted", "refused", "help"]), CL("unwritable", case=1, dims=1, fault=1, cover=["accepted", "refused", "help", "unwritable"], cost=30), CL("not-hex", case=4, first=0, cover=["refused"], cost=20), CL("length", case=4, first=1, cover=["accepted", "refused"], cost=20)])
CHECKS["C25"] = dict(
    bounds="0..3 plots (and an unlimited number), every combination of the options -G -D -w -d -s, an interrupt at any of the phases, any three failing file operations while copying (rename, open, read, write, close, remove), the process stopping at any file operation; one schedule, and for selected options every schedule with at most 2 preemptions",
    outside=CLI_OUT + "; the phases themselves (C14 to C28); two interrupts within a second (immediate exit)",
    jobs=[CL("plots%d" % n, case=2, first=-1, plots=n, cover=["delivered"]) for n in range(4)] + [CL("interrupt", case=2, first=-1, plots=3, sig=1, cover=["delivered"], cost=4), CL("endless", case=2, first=-1, plots=3, sig=2, cover=["delivered"], cost=4)]
       + [CL("fault%d" % f, case=2, first=-1, plots=2, fault=f, cover=["delivered", "repeated"], cost=4 * f) for f in (1, 2, 3)] + [CL("stop", case=2, first=-1, plots=2, crash=1, cover=["delivered"]), CL("fault-stop", case=2, first=-1, plots=2, fault=2, crash=1, cover=["delivered", "repeated"], cost=9), CL("interrupt-fault", case=2, first=-1, plots=2, sig=2, fault=1, cover=["delivered", "repeated"], cost=4)]
       + [CL("schedule-%d" % m, TH + ["--preempt", 2], case=2, plots=3, first=m, cover=["delivered"], cost=4) for m in (8, 9, 12, 16, 24)] + [CL("schedule-fault-%d" % m, TH + ["--preempt", 2], case=2, plots=2, first=m, fault=1, cover=["delivered", "repeated"], cost=8) for m in (8, 12, 16)]
       + [CL("deep-schedule-%d" % m, TH + ["--preempt", 4], case=2, plots=4, first=m, cover=["delivered"], thorough=True) for m in (8, 9, 12, 16, 24)] + [CL("deep-fault-%d" % m, TH + ["--preempt", 3], case=2, plots=2, first=m, fault=3, cover=["delivered", "repeated"], thorough=True) for m in (8, 12, 16)])
# ---- schedules in which any one or two threads run only when no other thread can
def SL(n, d=0): return ["--slow", n] + (TH + ["--delay", d] if d else ["--one-schedule"])
CHECKS["C16"]["jobs"] += [P2("slow-n%d-t%d-c%d" % (n, t, c), SL(2), cover=["decoded"], case=3, n=n, threads=t, rchunk=c, logb=b, cost=10) for n, t, c, b in ((9, 4, 3, 1), (8, 4, 1, 2), (13, 6, 2, 2), (7, 4, 9, 2))] + [P2("slow-delay1", SL(1, 1), cover=["decoded"], case=3, n=9, threads=4, rchunk=2, logb=2, cost=40)]
CHECKS["C16"]["jobs"] += [P2("blocks-low-n%d" % n, cover=["decoded"], case=7, n=n, logb=b, cost=10) for n, b in ((3, 2), (4, 3))] + [P2("blocks-table%d" % t, cover=["decoded"], case=1, n=6, table=t, logb=2) for t in (1, 6)] + [P2("blocks-classes", cover=["decoded"], case=2, n=4, logb=2, cost=20), P2("blocks-stubs", cover=["decoded"], case=0, n=6, win=2, logb=2, cost=10), P2("blocks-parks-275", cover=["decoded"], case=3, n=1100, rchunk=100, logb=3, threads=2), P2("blocks-real", defs=["-DREAL"], cover=["decoded"], case=3, n=4099, rchunk=500, logb=3, threads=4), P2("blocks-sched", TH + ["--preempt", 0], cover=["decoded"], case=3, n=3, threads=1, rchunk=9, logb=2, cost=60), P2("deep-blocks-sched", TH + ["--preempt", 0], cover=["decoded"], case=3, n=6, threads=2, rchunk=9, logb=2, cost=99, thorough=True), P2("deep-blocks-delay2", TH + ["--delay", 2], cover=["decoded"], case=3, n=7, threads=4, rchunk=9, logb=2, cost=99, thorough=True), P2("blocks-delay1", TH + ["--delay", 1], cover=["decoded"], case=3, n=7, threads=4, rchunk=9, logb=2, cost=60)]
CHECKS["C15"]["jobs"] += [S("slow-f%d-kind%d-t%d" % (f, k, t), SL(2), h="h_stage1", cover=["joined"], fixed=f, nr=3, lsplit=l, rsplit=3, kind=k, threads=t, cost=10) for f, l, k, t in ((1, 5, 0, 8), (2, 7, 0, 8), (3, 2, 1, 12), (1, 4, 2, 8), (2, 7, 1, 8))] + [S("slow-delay1-f%d" % f, SL(1, 1), h="h_stage1", cover=["joined"], fixed=f, nr=3, lsplit=7, rsplit=3, threads=8, cost=30) for f in (1, 2)]
CHECKS["C14"]["jobs"] += [S("slow-t%d" % t, SL(2), h="h_phase2", cover=["whole"], case=1, threads=t, cost=10) for t in (2, 4)] + [S("slow-many", SL(1), h="h_phase2", cover=["table"], case=2, n=300, l=1500, threads=4, cost=10)]
def TS(name, case, jobs, threads, sl, named=0, out=0, **kw): return J(name, "h_thread", knobs={"knob_case": case, "knob_jobs": jobs, "knob_threads": threads, "knob_named": named, "knob_out": out}, opts=sl, **kw)
CHECKS["C11"]["jobs"] += [TS("slow-t%d-jobs%d-out%d" % (t, n, o), 3, n, t, SL(2), out=o, cover=["pool"], cost=8) for t, n, o in ((4, 7, 0), (6, 9, 1), (8, 11, 2), (3, 8, 1))] + [TS("slow-delay-t%d-out%d" % (t, o), 3, n, t, SL(1, 2), out=o, cover=["pool"], cost=20) for t, n, o in ((3, 5, 0), (4, 5, 1))]
CHECKS["C12"]["jobs"] += [TS("slow-t%d-jobs%d-out%d" % (t, n, o), 4, n, t, SL(2), out=o, cover=["caught"], cost=8) for t, n, o in ((4, 5, 0), (6, 7, 1), (3, 6, 3), (4, 5, 2))]
CHECKS["C07"]["jobs"] += [S("far-n3", ONE, h="h_pair", cover=["pairs"], n=3, gap=5, cost=10), S("far-t7-n3", ONE, h="h_pair", cover=["pairs"], n=3, gap=5, table=7, cost=10), S("far-n4", ONE, h="h_pair", cover=["pairs"], n=4, gap=5, res=2, split=2, cost=20)] + [S("limit%d-table%d" % (m, t), ONE, h="h_pair", defs=["-DPM=%d" % m], cover=["pairs"], n=n, res=2, table=t, split=s, cost=20) for m, t, n, s in ((1, 2, 4, 5), (0, 2, 3, 0), (1, 7, 4, 1), (2, 2, 5, 4))]
CHECKS["C07"]["jobs"] += [S("slow-table%d-t%d" % (tb, t), SL(2), h="h_pair", cover=["pairs"], n=5, fixed=1, split=15, threads=t, table=tb, cost=10) for tb in (2, 7) for t in (2, 4)]
CHECKS["C18"]["jobs"] += [P4("slow-n%d-t%d-c%d" % (n, t, c), SL(2), cover=["decoded"], case=3, n=n, threads=t, rchunk=c, logb=b, cost=10) for n, t, c, b in ((8, 2, 4, 2), (6, 4, 2, 2), (13, 4, 3, 3), (17, 4, 1, 1))] + [P4("blocks-gap-n%d" % n, cover=["decoded"], case=1, n=n, rchunk=9, logb=b) for n, b in ((5, 2), (9, 3))] + [P4("blocks-classes", cover=["decoded"], case=2, n=5, logb=2, cost=20), P4("blocks-large", cover=["decoded"], case=6, n=23, logb=3, threads=2)] + [P4("blocks-n%d" % n, cover=["decoded"], case=3, n=n, logb=2, threads=2) for n in (4, 10, 16, 20, 21, 40)] + [P4("blocks-sym", cover=["decoded"], case=0, n=9, logb=2, cost=20), P4("blocks-real", defs=["-DREAL"], cover=["decoded"], case=3, n=20005, rchunk=3000, logb=5, threads=2, cost=20), P4("blocks-sched", TH + ["--preempt", 0], cover=["decoded"], case=3, n=7, threads=2, rchunk=9, logb=2, cost=60), P4("blocks-delay1", TH + ["--delay", 1], cover=["decoded"], case=3, n=8, threads=4, rchunk=9, logb=2, cost=60)] + [P4("brim", defs=["-DC3B=7.0", "-DC1I=10"], cover=["decoded", "exact", "one-over"], case=7, n=21, rchunk=4), P4("brim-3", defs=["-DC3B=9.0", "-DC1I=7"], cover=["decoded", "exact", "one-over"], case=7, n=14, rchunk=4, k=25)]
CHECKS["C16"]["jobs"] += [P2("brim-t%d" % t, defs=["-DEPP=8", "-DADELTA=%s" % a], cover=["decoded", "exact", "one-over"], case=8, n=n, table=t, rchunk=3) for t, a, n in ((1, "1.0", 9), (3, "8.0", 16), (6, "7.0", 17))] + [P2("k%d" % k, cover=["decoded"], case=3, n=9, k=k, logb=2) for k in range(19, 32, 2)]
CHECKS["C27"]["jobs"] += [PL("slow-t%d" % t, SL(1), pat=t, size=1, threads=t, cost=20) for t in (2, 4)]
CHECKS["C08"]["jobs"] += [S("beyond-2^%d" % l, ONE, h="h_sortfar", defs=d, log=l) for l, d in ((31, []), (32, []), (33, ["-DCHIA_K34"]))]
CHECKS["C08"]["jobs"] += [S("many%d-pat%d-chunk%d-mode%d" % (n, f, c, m), ONE, fixed=f, n=n, chunk=c, mode=m, keybits=kb, threads=2, rthreads=2) for n, f, c, m, kb in ((40, 5, 50, 0, 5), (60, 6, 7, 1, 8), (48, 7, 3, 3, 6), (50, 5, 8, 1, 4), (33, 1, 1, 0, 4))] + [S("many-near%d" % n, ONE, n=n, keybits=kb, fixed=8, chunk=64) for n, kb in ((20, 12), (34, 9))]
CHECKS["C27"]["jobs"] += [PL("many-buckets-k%d-logb%d" % (k, l), pat=p, size=z, logb=l, k=k, threads=t, cost=30 if l < 9 else 99, thorough=l > 8) for k, l, p, z, t in ((20, 7, 2, 1, 1), (20, 9, 5, 1, 2), (20, 8, 8, 3, 4))]
CHECKS["C28"]["jobs"] += [FU("slow-t%d" % t, SL(1), cover=["tables"], salt=48025, threads=t, cost=20) for t in (2, 4)] + [FU("slow-n14", SL(1), cover=["tables"], n=14, salt=38, threads=2, cost=20)]
CHECKS["C08"]["jobs"] += [S("slow-pat%d-t%d-r%d-mode%d" % (f, t, r, m), SL(2), fixed=f, threads=t, rthreads=r, n=n, mode=m, cost=10) for f, t, r, n, m in ((1, 2, 2, 6, 0), (2, 3, 2, 6, 1), (4, 2, 3, 8, 0), (3, 2, 2, 4, 2))]
