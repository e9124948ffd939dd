#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Usage: tools/gen.py [ID not claimed yet ...]"""
import json, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
HOOK = subprocess.run(["git", "-C", "/repo", "rev-parse", "2627236"], capture_output=True, text=True).stdout.split()

P = []
def p(id, title, statement, over, text, why, files, mech, level="exploration", technique=None, note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note, observe=observe or ["standard output, exit status"]))

T_MODEL = "property-based testing against a whole-buffer reference model"
N_MODEL = "Random command lines and inputs, shrunk on failure, on builds with 2 MiB and with 145-byte blocks for both x86-64 code paths; trusts the reference model in harness/src/model.rs, written from the README. "

p("C01", "The dump is an exact rendering of the slices",
  "Each slice is printed in order as its offset, its length and its bytes in the columns of the selected output format, with the printable-character column showing exactly the printable ASCII bytes and a dot for the others, padded to the slice width; binary output is the bytes of the slices and nothing else. No byte is lost, repeated, misplaced or misrendered, at any offset and for any slice length.",
  ["inputs", "configurations"], "all byte strings, slice widths, offsets (including beyond 4 GiB) and output formats (x, d, n and b in each field)",
  "The unit tests render a few fixed or random arrays of up to some KiB with the formatter alone; they do not reach every width, length, column remainder and offset magnitude together with the batching of slices.",
  ["src/text/formatter", "src/drain"], [("vectorised and portable hex rendering", "src/text/formatter/hex.rs"), ("decimal rendering", "src/text/formatter/dec.rs"), ("headers, columns and characters", "src/text/formatter/mod.rs")])
p("C02", "Text input is decoded to exactly the bytes it denotes, and dumps round-trip",
  "Records read with -F x put each array at its offset, fill gaps with the filler and end at the last record's offset plus length; -F nnx joins the arrays. Whatever nd dumps in hexadecimal is read back to the same bytes, and reading a text equals patching a stream of fillers with it.",
  ["inputs", "configurations"], "all sequences of sorted records, spellings of a record and placements relative to the block boundaries; all byte strings for the round trip",
  "The unit tests parse a handful of literal records, almost all shorter than a block; a record can straddle a block in any of its fields.",
  ["src/text/parser", "src/byte/text.rs", "src/pipeline.rs"], [("record parser", "src/text/parser/mod.rs"), ("gap filling", "src/byte/text.rs")])
p("C03", "A dump is a patch: replaying it changes nothing, an edited one just its bytes",
  "The hexadecimal dump of any slices of a stream, given back as a patch for that stream, reproduces the stream; if some of its bytes or arrays were edited, exactly these replace the bytes the records cover.",
  ["inputs", "configurations"], "all streams, slicer options and edits of their dumps",
  "There is no test that feeds the output of the tool to itself; the patch stream's tests use fixed records.",
  ["src/byte/patch.rs", "src/text/formatter", "src/text/parser"], [("patch application", "src/byte/patch.rs"), ("dump", "src/text/formatter/mod.rs"), ("record parser", "src/text/parser/mod.rs")])
p("C04", "--patch replaces exactly the recorded spans",
  "For patch records sorted and not overlapping, each record replaces the bytes from its offset over its length with its array, whose length may differ; everything else is passed through unchanged, an insertion at the end appends and records beyond the end are dropped. Overlapping or unsorted records are an error.",
  ["inputs"], "all streams and record sequences, at every position relative to block boundaries",
  "The unit tests apply random patches to inputs of one size with one block size and records that are all inside the stream.",
  ["src/byte/patch.rs"], [("patch application", "src/byte/patch.rs")])
p("C05", "--cat and --pad build exactly the concatenated, aligned and padded stream",
  "With --cat N the inputs follow one another, each extended with fillers to a multiple of N bytes; with --pad N,M the stream is preceded by N and followed by M fillers. The filler is the byte given by --filler, and nothing else is added or removed.",
  ["inputs", "configurations"], "all numbers and sizes of inputs, alignments, paddings and fillers",
  "The unit tests concatenate fixed or random streams without alignment or padding in combination, with requests of one size.",
  ["src/byte/cat.rs", "src/byte/zero.rs", "src/byte/clip.rs", "src/byte/raw.rs", "src/pipeline.rs"], [("concatenation", "src/byte/cat.rs"), ("alignment", "src/streambuf.rs"), ("padding", "src/byte/clip.rs")])
p("C06", "--zip interleaves the inputs word by word, and is undone by ranged widths",
  "With --zip N the output consists of N-byte words taken in turn from each input, as far as the inputs have data after alignment to N; taking every K-th word of the result of zipping K inputs of equal length gives the input back.",
  ["inputs", "configurations"], "all numbers and sizes of inputs, and word sizes",
  "The unit tests zip equally long random arrays and a few word sizes; unequal lengths and the relation between the buffers of different inputs are not reached.",
  ["src/byte/zip.rs", "src/pipeline.rs"], [("interleaving", "src/byte/zip.rs")])
p("C07", "--cut keeps exactly the union of the ranges, in stream order",
  "The result is the bytes whose offset lies in at least one of the ranges S..E, each once and in the original order, where S and E may be anchored to the start or the end of the stream and are clamped to it.",
  ["inputs", "configurations"], "all streams and lists of ranges, in any order, overlapping or not, with both kinds of anchors",
  "The unit tests cover a table of range lists on streams of one size; the end of the stream is unknown until it is reached, and how much may be released before depends on block sizes.",
  ["src/byte/cut.rs", "src/mapper.rs"], [("range evaluation", "src/mapper.rs"), ("cutter", "src/byte/cut.rs")])
p("C08", "--width slices the stream at every multiple of N, through the mapped range",
  "Slice i covers N bytes from i*N, or the given range relative to it, clipped to the stream, and slices that are empty after clipping are dropped; together without a range they partition the stream.",
  ["inputs", "configurations"], "all streams, widths and ranges, including ones that reach before, after or over neighbouring slices",
  "The unit tests use a few pitches and margins on random streams with the reference offsets computed the same way.",
  ["src/segment/stride.rs", "src/mapper.rs"], [("constant-stride slicer", "src/segment/stride.rs")])
p("C09", "--find yields exactly the occurrences of the pattern",
  "The slices are all non-overlapping occurrences of the byte array, leftmost first, wherever they lie in the stream.",
  ["inputs"], "all streams and patterns, including self-overlapping patterns and occurrences across block boundaries",
  "The unit tests search a few patterns in repetitive strings; an occurrence across a block boundary after a partial match depends on lengths.",
  ["src/segment/exact.rs"], [("exact-match slicer", "src/segment/exact.rs")])
p("C10", "--walk follows the chain of lengths the stream itself encodes",
  "Starting at the head, each chunk's spans are the values of the given expressions over the little-endian values found at the current position, slices are cut one after another, and the walk ends at the end of the stream. A span that is not positive is reported as an error after the slices before it.",
  ["inputs", "programs"], "all streams and lists of expressions over b, h, i and l arrays",
  "The unit tests walk a few constant and one or two data-dependent expressions on short streams; chunk lengths beyond a block depend on the request protocol between the stages.",
  ["src/segment/walk.rs", "src/eval.rs", "src/streambuf.rs"], [("walk slicer", "src/segment/walk.rs"), ("expression evaluation", "src/eval.rs")])
p("C11", "--slice and --guide yield exactly the requested slices",
  "--slice yields every requested range clipped to the stream, and --guide every record's range clipped to the stream, in the order of their offsets, overlapping or not.",
  ["inputs", "configurations"], "all lists of ranges with start- and end-anchored bounds, and all guides sorted by offset",
  "The unit tests use a few lists on streams of one size; slices longer than a block, far apart or overlapping in different ways are not reached.",
  ["src/segment/range.rs", "src/segment/guided.rs", "src/mapper.rs"], [("range slicer", "src/segment/range.rs"), ("guided slicer", "src/segment/guided.rs")])
p("C12", "--regex yields exactly the matches inside each slice",
  "For every slice, the result contains the leftmost non-overlapping matches of the pattern within the bytes of that slice, in order of position, and nothing that extends beyond it.",
  ["inputs", "configurations"], "all streams, slicers and patterns that do not match the empty string",
  "The unit tests match a few patterns over constant-width slices.",
  ["src/segment/regex.rs"], [("regex slicer", "src/segment/regex.rs")])
p("C13", "--invert yields exactly the gaps between the slices",
  "The gaps not covered by any slice, including those before the first and after the last one, are mapped through the given expressions and clipped to the stream; without any mapping, the slices and their inversion partition the stream.",
  ["inputs", "configurations"], "all streams, slicers and mapping expressions anchored at gap starts and ends",
  "The unit tests cover a table of inversions over a few slicers; where a gap spans blocks or slices overlap, the state carried between blocks decides.",
  ["src/segment/bridge.rs", "src/segment/sorter.rs", "src/mapper.rs"], [("bridging", "src/segment/bridge.rs"), ("ordered emission", "src/segment/sorter.rs")])
p("C14", "--extend maps every slice through the expressions",
  "Every slice S..E is mapped to each of the given ranges relative to S or E, clipped to the stream and dropped when empty; the results come in the order of their positions, none lost or repeated.",
  ["inputs", "configurations"], "all streams, slicers and lists of mapping expressions, including ones that reorder or overlap slices",
  "The unit tests cover a table of expressions over constant-width slices.",
  ["src/segment/extend.rs", "src/segment/sorter.rs", "src/mapper.rs"], [("extension", "src/segment/extend.rs"), ("ordered emission", "src/segment/sorter.rs")])
p("C15", "--merge joins exactly the slices closer than the threshold",
  "Consecutive slices whose distance is at most the given number of bytes (or that overlap) are joined into one that covers both, repeatedly; other slices are left alone.",
  ["inputs", "configurations"], "all streams, slicers and thresholds, with chains of slices that span any number of blocks",
  "The unit tests merge constant-width slices with a few thresholds; whether a pending slice may still grow depends on what has been read.",
  ["src/segment/merge.rs"], [("merging", "src/segment/merge.rs")])
p("C16", "--lines keeps exactly the slices with the selected indices",
  "Exactly the slices whose index lies in one of the ranges are kept, in order, with start- and end-anchored ranges evaluated over the number of all slices.",
  ["inputs", "configurations"], "all streams, slicers and range lists",
  "The unit tests filter constant-width slices with a table of ranges; the number of slices is unknown until the end of the stream.",
  ["src/segment/filter.rs", "src/mapper.rs"], [("slice filter", "src/segment/filter.rs")])
p("C17", "Options compose as the documented stages, in whatever order they are spelled",
  "A command line with any combination of options gives the result of applying the documented stages one after another; running the stages in separate processes joined by a pipe, reordering the options and spelling their numbers differently give the same result.",
  ["inputs", "configurations"], "all combinations of options of all stages, with all streams",
  "The pipeline's unit test checks which node combinations are accepted, not one output; each stage's tests feed it from a mock of the others, which hides violated expectations between real stages.",
  ["src/pipeline.rs", "src/main.rs", "src/byte", "src/segment"], [("pipeline construction", "src/pipeline.rs"), ("stream interface", "src/byte/mod.rs"), ("slice stream interface", "src/segment/mod.rs")])
p("C18", "The result does not depend on blocks, transfer sizes or how the input arrives",
  "For the same input and options the output is byte for byte the same whether the input is a file, a pipe or redirected, however short or interrupted the individual reads and writes are, and wherever the internal block boundaries fall.",
  ["inputs", "schedules"], "all streams and command lines, all ways of splitting reads and writes, inputs of several blocks",
  "The unit tests read from memory in one way; nothing makes a read return less than requested.",
  ["src/byte/raw.rs", "src/streambuf.rs", "src/byte", "src/segment", "src/drain"], [("buffering", "src/streambuf.rs"), ("reading", "src/byte/raw.rs")], technique="metamorphic property-based testing with injected short and interrupted transfers",
  observe=["standard output, exit status", "read/write system calls (short transfers injected)"])
p("C19", "All CPU-specific code paths give the same result",
  "The builds for a baseline and for an AVX2-capable x86-64 CPU give the same output and the same exit status for every command line and input, including malformed text.",
  ["inputs", "configurations"], "all command lines and inputs, well-formed and damaged text records",
  "The existing tests run each build on its own with some fixed vectors; no test compares the two on the same input.",
  ["src/text/formatter", "src/text/parser"], [("portable parser", "src/text/parser/naive.rs"), ("AVX2 parser", "src/text/parser/x86_64.rs"), ("portable and AVX2 formatter", "src/text/formatter/hex.rs"), ("character column", "src/text/formatter/mod.rs")], technique="differential property-based testing of the two builds",
  note="The aarch64 code cannot be run here and is not covered. ")
p("C20", "Expressions evaluate with the documented operators, precedence and literals",
  "Every expression over the documented operators, parentheses, literals with bases and unit suffixes, and variables has, as long as every intermediate result fits in 64 bits, its value in 64-bit signed arithmetic under the documented precedence, wherever it is used; a literal that does not fit, a division by zero and malformed syntax are rejected with an error.",
  ["programs", "inputs"], "all expressions and variable values",
  "The unit tests evaluate a list of short literal expressions.",
  ["src/eval.rs"], [("parsing and evaluation", "src/eval.rs")], technique="property-based testing against an independent evaluator")
p("C21", "--output distributes every slice to the file its template names",
  "With an output template each slice's dump goes to the file the template renders to for that slice, in order, each file containing exactly the slices rendered to its name; an existing file is replaced and nothing goes to standard output.",
  ["inputs", "configurations"], "all streams, slicers, templates with expressions and format specifiers, with any grouping of slices to files",
  "The unit tests render a few templates and write a few files of a mock stream in one batch.",
  ["src/drain/scatter.rs", "src/template.rs"], [("template rendering", "src/template.rs"), ("distribution", "src/drain/scatter.rs")], observe=["files written"])
p("C22", "--patch-back applies exactly what the command makes of the slices",
  "With --patch-back the command receives every slice in the output format, and the records it prints are applied as a patch to the stream the slices were taken from; the rest of the stream is preserved, whatever the command's timing and however much of its input it reads.",
  ["inputs", "programs", "schedules"], "all streams, slicers and families of commands (identity, selective, editing, silent, slow, ignoring the input)",
  "One unit test runs a few commands on small mock streams.",
  ["src/drain/patch.rs", "src/byte/tee.rs", "src/byte/patch.rs"], [("command pipes and feeding", "src/drain/patch.rs"), ("cached copy of the stream", "src/byte/tee.rs")])
p("C23", "--inplace replaces each file completely or not at all",
  "With --inplace each input file ends up with exactly the output for that file, with its permissions kept; if any operation fails or the process dies at any point, every file holds either its complete old or its complete new contents, and after a reported failure no temporary file is left.",
  ["inputs", "crash_points", "fault_sequences"], "all command lines with binary output, all numbers of files, a failure or a kill at every system call that touches files",
  "There is no test of the in-place mode; no test injects a failure.",
  ["src/main.rs", "src/drain"], [("temporary file and rename", "src/main.rs")], level="fault_enumeration", technique="generated histories with a fault injected at every system call", observe=["file system contents after the run", "system calls (faults injected)"],
  note="Enumerates every intercepted call of each generated run; a crash is a process exit, power loss is not modelled. ")
p("C24", "Malformed input and arguments end in a clean error, never a panic or a hang",
  "For every command line and every input, however malformed, the program terminates with an exit status of 0, or with a nonzero status and a message on standard error; it never panics, crashes or loops. A value outside the documented grammar or bounds and a record with a broken number, byte or separator are such errors, and only a prefix of the correct output may precede them.",
  ["inputs", "programs", "configurations"], "all strings as option values, record texts, guides, expressions, ranges and templates",
  "The unit tests check a handful of malformed inputs per parser.",
  ["src/main.rs", "src/eval.rs", "src/mapper.rs", "src/template.rs", "src/text/parser", "src/pipeline.rs"], [("argument parsing", "src/main.rs"), ("record parser", "src/text/parser/mod.rs"), ("expression parser", "src/eval.rs")], technique="structured fuzzing of the command line and of text inputs",
  note="Numbers are bounded so that a run fits in memory; huge requested sizes are out of domain. ")
p("C25", "An I/O error is reported and never passes for success",
  "If any read, write, open or other file operation fails, the program exits with a nonzero status and a message, and what it wrote to standard output is a prefix of the correct output (without --patch-back, whose command may see its input end early); only a reader that closes the pipe early ends it quietly.",
  ["fault_sequences", "inputs"], "all command lines, a failure of every single system call on files and pipes, full devices, missing and unreadable files, closed pipes",
  "No test injects a failure.",
  ["src/main.rs", "src/byte/raw.rs", "src/drain", "src/byte/tee.rs"], [("error propagation", "src/main.rs"), ("output flushing", "src/drain/mod.rs")], level="fault_enumeration", technique="generated command lines with a fault injected at every system call", observe=["standard output, exit status", "system calls (faults injected)"],
  note="Enumerates every intercepted call (open, read, write, unlink, rename, chmod) of each generated run. ")
p("C26", "Standard input is used at most once, and conflicting options are rejected",
  "Standard input is read when it is named with - or when no file is given, as input, --patch or --guide, and only once: using it twice, as a file to edit with --inplace, or as records for several files edited in place, is an error, as is every combination of options documented as exclusive; otherwise it gives the same result as a file with the same contents, even if it is a terminal, unless no file is given and all three standard streams are terminals, which is an error; a rejected command line touches no file and writes nothing to standard output.",
  ["configurations"], "all combinations of the inputs and options that name a file, and all pairs of exclusive options",
  "No test covers the command line's constraints.",
  ["src/main.rs", "src/pipeline.rs"], [("option definitions", "src/main.rs")], technique="model-based property testing of command lines")
p("C27", "Memory use is bounded regardless of the length of the input",
  "For command lines whose slices (and the gaps between them, with --invert or --lines counted from the tail) are bounded in size, and in which no --cut, --slice or --lines range reaches from an end anchored at the head to one anchored at the tail and no --patch-back is used, the memory in use does not grow with the length of the stream, whatever the combination of stages.",
  ["inputs", "configurations"], "all command lines with bounded slices, without ranges from the head to the tail, with streams of growing length",
  "No test measures memory.",
  ["src/streambuf.rs", "src/byte", "src/segment", "src/drain"], [("buffer unwinding", "src/streambuf.rs"), ("consumption protocol", "src/segment/mod.rs")], technique="metamorphic property testing of peak memory over input length", observe=["peak of the resident set (VmHWM)"])
p("C28", "Bounded requests finish on unbounded input",
  "A command line that only asks for a bounded part at the head of the stream (start-anchored cuts, slices or lines; or --zip, which ends with its shortest input) gives its complete result and exits even if the input never ends, and gives the same result as on the finite head.",
  ["inputs", "configurations"], "all start-anchored cut, slice and line ranges, over endless files and pipes",
  "No test uses an endless stream.",
  ["src/byte/cut.rs", "src/segment/range.rs", "src/segment/filter.rs"], [("early end of stream", "src/segment/filter.rs"), ("early end of stream", "src/segment/range.rs"), ("early end of stream", "src/byte/cut.rs")])
p("C29", "The pager receives exactly the output",
  "With a pager given by --pager or the environment, or the default one (less) when the output is a terminal, the pager's standard input is exactly what would go to standard output, complete even if the pager is slow, and nd waits for it to finish, whatever it does with its input; a pager that cannot be run is an error; --inplace ignores pagers; a pager that quits early ends the program quietly.",
  ["inputs", "schedules", "configurations"], "all command lines and pager behaviours (complete, partial, slow, none)",
  "No test runs a pager.",
  ["src/main.rs"], [("pager pipe", "src/main.rs")])

skip = sys.argv[1:]
LEVELN = {"exploration": "", "fault_enumeration": ""}
with open(V / "properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=q["observe"], hook_needed="a build with small blocks (cfg nd_verif), so that block boundaries fall everywhere"))) + "\n")
checks = []
for q in P:
    if q["id"] in skip: continue
    t = q["technique"] or T_MODEL
    n = (q["note"] or "") + N_MODEL
    checks.append(dict(property=q["id"], quick_cmd=f"./check.sh {q['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {q['id']}", technique=t, level=q["level"], level_note=n.strip()))
json.dump(dict(version=1, setup_cmd="./build.sh", hooks=dict(guard="nd_verif", enable="rustc --cfg nd_verif (cargo rustc -- --cfg nd_verif, see build.sh)", source_commits=HOOK),
    checks=checks, not_applicable=[dict(property=i, reason="the check is not written yet") for i in skip]), open(V / "MANIFEST.json", "w"), indent=1)
