#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts are maintained here, one call each)."""
import json, os
OUT = []
L = "pw_diff_lib/src/"
U = "pw_cub_diff_lib/src/unified_diff.rs"
PP = "pw_patch/src/main.rs"
PD = "pw_diff/src/main.rs"

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

P("C01", "Patching replaces the target file atomically or leaves it untouched",
  "When a change diff is applied by the patch command, the named target file is only ever modified by renaming a separately created temporary file over it, and that happens only after the whole patched content has been written to that temporary file without error. Whatever fails before that point, the target keeps exactly its old content.",
  ["fault_sequences", "crash_points", "inputs"],
  "every diff file, every target, every I/O failure or kill at any point of the run",
  "No test runs the pw_patch binary at all; the failing system call and the kill point are not test inputs.",
  [PP], [("temporary file + rename sequence in main", PP)],
  [("temp_file", "scratch file that receives the patched content", PP), ("patchable_path", "the file being patched", PP)],
  ["file system state of the target after pw_patch ends or is killed"])

P("C02", "Exit status zero means everything the command attempted succeeded",
  "pw_diff and pw_patch end with status zero only if every operation they attempted (opening, reading, parsing, writing, creating, renaming, deleting) succeeded; if any of them failed the status is non-zero. A run in which nothing failed ends with status zero.",
  ["fault_sequences", "inputs"],
  "every failing operation in every diff kind and direction",
  "No test runs the binaries; each of the ~20 failing operations needs its own fault.",
  [PP, PD], [("error arms ending in process::exit", PP), ("error arms ending in process::exit", PD)],
  observe=["process exit status"])

P("C03", "A hunk that could not be applied is never reported as success",
  "If at least one hunk of a change diff could be neither applied nor recognised as already applied, applying the diff reports it: the text engine counts it as failed, the byte engine returns an error, and the patch command does not end with status zero.",
  ["inputs", "histories"],
  "every diff and every target that has drifted away from the diff's before image",
  "The unit tests only apply diffs that fit; the binary's exit status is never observed.",
  [L + "apply_text.rs", L + "apply_bytes.rs", PP],
  [("Statistics::failed", L + "apply_text.rs"), ("ApplyClumpsClean::apply_into", L + "apply_bytes.rs"), ("main", PP)],
  observe=["returned Statistics / io::Result", "process exit status"])

P("C04", "Producing a diff never changes the file system",
  "Computing, serialising or reading diffs, and everything the library itself does, only reads the named input files: it never creates, truncates, writes, renames or removes any file or directory and starts no process. The diff command writes nothing but standard output and standard error.",
  ["inputs", "configurations"],
  "every pair of paths (existing, missing, directories, binary), every option combination",
  "A test would have to watch the whole file system for every input; none does.",
  [L + "diff.rs", L + "text_diff.rs", L + "byte_diff.rs", L + "sequence.rs", PD],
  [("File::open is the only file-system entry used by the library", L + "diff.rs")],
  observe=["file-system calls made by pw_diff / pw_diff_lib"])

P("C05", "Add and remove diffs create or delete exactly the recorded file, never overwrite",
  "Applying an add diff (or a remove diff in reverse) creates the recorded path with exactly the recorded content and fails without touching it if something already exists there; applying a remove diff (or an add diff in reverse) deletes exactly the recorded path and writes nothing. No other file is created, changed or removed in either direction.",
  ["inputs", "configurations"],
  "text and byte diffs, both directions, existing and missing targets",
  "No test executes the add/remove arms of the patch command.",
  [PP, L + "text_diff.rs", L + "byte_diff.rs"],
  [("File::create_new", PP), ("fs::remove_file", PP), ("PathAndLines::write_into / PathAndBytes::write_into", L + "text_diff.rs")],
  observe=["file-system calls made by pw_patch"])

P("C06", "The library never swallows a read, write or (de)serialisation error",
  "If any underlying read, write, open or (de)serialisation step performed by a library operation fails, that operation returns an error (the only exception is the documented text-to-bytes fallback when choosing the diff kind); it never reports success after a failed or partial write. Every byte handed to a writer is written in full.",
  ["fault_sequences", "inputs"],
  "a failure or short write at any point of any reader or writer handed in",
  "All unit tests use in-memory buffers that never fail or write short.",
  [L + "sequence.rs", L + "snippet.rs", L + "apply_text.rs", L + "apply_bytes.rs", L + "text_diff.rs", L + "byte_diff.rs", L + "diff.rs"],
  [("`?` on every io::Result, write_all for every write", L + "apply_text.rs")],
  observe=["returned io::Result"])

P("C07", "Diff and patch results are a function of their inputs only",
  "For the same inputs and options, the computed diff, its serialised form and the patched output are identical on every run: they do not depend on thread scheduling, hash seeds, addresses, time, environment or previous calls.",
  ["schedules", "inputs", "histories"],
  "every input, every thread-pool schedule, every hash seed",
  "A test run observes one schedule and one hash seed; nondeterminism would show rarely.",
  [L + "changes.rs", L + "sequence.rs", L + "common_subsequence.rs"],
  [("hash maps are only looked up, never iterated", L + "changes.rs"), ("parallel sort on a total order", L + "changes.rs")],
  observe=["bytes written by to_writer / apply_into"])

P("C08", "The serialised diff format carries every field and reads back as it was written",
  "Every diff kind that can be written can be read back by the same version: writer and reader agree on the names, number and order of all variants and fields, no field is skipped, defaulted, flattened or converted on only one side, and both use the same encoding.",
  ["inputs", "programs"],
  "every diff value of every kind",
  "No test serialises a diff; a skipped or renamed field shows only for the affected kind.",
  [L + "diff.rs", L + "text_diff.rs", L + "byte_diff.rs", L + "snippet.rs", L + "range.rs"],
  [("derive(Serialize, Deserialize)", L + "diff.rs"), ("to_writer / from_reader", L + "diff.rs")],
  observe=["Diff::to_writer followed by Diff::from_reader"])

P("C09", "Reverse is the exact mirror of forward",
  "For every change, hunk and diff, each accessor and each application step in reverse behaves exactly as the forward one would on the same object with its before and after sides exchanged; in particular an \"after\" query in one direction equals the \"before\" query in the other.",
  ["inputs"],
  "every change kind, every hunk, every offset and context reduction",
  "Tests exercise reverse on one pair of files and look at whole outputs only.",
  [L + "changes.rs", L + "text_diff.rs", L + "byte_diff.rs", L + "apply_text.rs", U],
  [("reverse flag handling in ChangeBasics / TextClumpBasics / ApplyClumpFuzzy", L + "changes.rs")],
  observe=["ChangeBasics, TextClumpBasics, before()/after() of hunks, apply_into with reverse"])

P("C10", "The computed edit script tiles both inputs without gap or overlap",
  "The list of changes computed for any two sequences walks both from beginning to end: each change starts, on both sides, exactly where the previous one ended, the first starts at zero on both sides and the last ends at both lengths. Changes are labelled by what they cover: deletions cover only before items, insertions only after items, replacements a non-empty run of both.",
  ["inputs"],
  "every pair of item sequences, text and bytes",
  "Doc tests compare three example pairs.",
  [L + "changes.rs", L + "common_subsequence.rs"],
  [("ChangesGenerator::generate", L + "changes.rs"), ("worklist splitting and merging of common subsequences", L + "changes.rs")],
  [("i, j", "how much of before/after has been emitted", L + "changes.rs")],
  ["Vec<Change> returned by ChangesGenerator::generate"])

P("C11", "Regions reported as unchanged really are equal",
  "Whenever the differ reports a common run of k items at given positions of the two inputs, the run lies inside both inputs (and inside the ranges searched) and the items are equal position by position; a changed line is never hidden inside an unchanged region.",
  ["inputs"],
  "every pair of sequences and every searched sub-range",
  "Three example pairs are compared; a wrong extension or index shows only for particular repetitions.",
  [L + "changes.rs", L + "common_subsequence.rs", L + "sequence.rs"],
  [("ChangesGenerator::longest_common_subsequence", L + "changes.rs"), ("CommonSubsequence::incr_size_moving_starts/ends", L + "common_subsequence.rs")],
  observe=["longest_common_subsequence / generate results"])

P("C12", "Hunks carry every change once, in order, with bounded and aligned context",
  "Splitting an edit script into hunks puts every deletion, insertion and replacement into exactly one hunk, unaltered and in order; each hunk begins and ends with at most the requested amount of unchanged context, taken adjacent to the change it surrounds and at the same relative place on both sides. Context kept in the middle of a hunk is complete.",
  ["inputs", "configurations"],
  "every edit script and every context size 0..255",
  "Doc tests use one script with context 2.",
  [L + "changes.rs", L + "common_subsequence.rs"],
  [("ChangeClumpIter::next", L + "changes.rs"), ("CommonSubsequence::starts_trimmed/ends_trimmed/split", L + "common_subsequence.rs")],
  [("stash", "leading context carried to the next hunk", L + "changes.rs")],
  ["hunks returned by Changes::change_clumps"])

P("C13", "A stored hunk is an exact excerpt of both inputs",
  "The hunk written to a diff records, for both sides, the start position of its first change, exactly the items of that input from there to the end of its last change, and the lengths of its leading and trailing context. Range and position queries on hunks agree with that excerpt.",
  ["inputs"],
  "every edit script, text and bytes",
  "Tests only check that particular diffs apply.",
  [L + "text_diff.rs", L + "byte_diff.rs", L + "changes.rs", L + "sequence.rs", L + "snippet.rs"],
  [("From<ChangeClump> for TextChangeClump/ByteChangeClump", L + "text_diff.rs"), ("ChangeClump::starts/ends/ranges/context_lengths", L + "changes.rs"), ("Seq::extract_snippet", L + "sequence.rs")],
  observe=["TextChangeClump / ByteChangeClump fields", "ChangeClump accessors"])

P("C14", "A hunk is only applied where its own text is present in the target",
  "Text is replaced only at a position where every item of the hunk's before side (minus the context given up) equals the target's item at that position, with the whole region inside the target; a reported match is never partial. The position, context reduction and direction used for the replacement are the ones that were matched.",
  ["inputs"],
  "every hunk, target, offset, reduction and direction",
  "Tests check a handful of fixed targets.",
  [L + "apply_text.rs", L + "byte_diff.rs", L + "apply_bytes.rs", L + "sequence.rs"],
  [("will_apply / before_is_subsequence_in_at / has_subsequence_at", L + "apply_text.rs"), ("apply loops", L + "apply_text.rs")],
  observe=["will_apply, will_apply_nearby, apply_into"])

P("C15", "Target text outside the replaced regions is copied exactly once and in order",
  "While applying a diff, the target is consumed strictly front to back: everything before a replaced region and everything after the last one is written to the output once, in order, and nothing outside the matched regions is dropped, repeated or written twice. A position that has already been consumed is never replaced again.",
  ["inputs", "histories"],
  "every target and every sequence of applied, already applied and failed hunks",
  "Tests apply non-overlapping hunks to matching targets.",
  [L + "sequence.rs", L + "apply_text.rs", L + "byte_diff.rs", L + "apply_bytes.rs"],
  [("ConsumableSeq::write_into_upto / advance_consumed_by / write_remainder", L + "sequence.rs"), ("apply_into / already_applied_into", L + "apply_text.rs")],
  [("consumed", "how much of the target has been dealt with", L + "sequence.rs")],
  ["bytes written by apply_into"])

P("C16", "Fuzzy matching gives up context only, symmetrically for match and replacement",
  "When a hunk is applied with reduced context, only leading and trailing context items (never more than the hunk's recorded context on that side) are left out, the same items are left out of the comparison, of the text written and of the text consumed, and the position shifts by exactly the leading amount given up.",
  ["inputs"],
  "every hunk with context, every target that differs inside the context",
  "No test applies a hunk with reduced context at a non-zero position.",
  [L + "apply_text.rs", L + "changes.rs", L + "snippet.rs", L + "text_diff.rs"],
  [("will_apply reduction loop", L + "apply_text.rs"), ("my_before_range / before_adjusted_start / before_adjusted_length", L + "apply_text.rs")],
  observe=["will_apply, apply_into with reductions"])

P("C17", "Every hunk is accounted for exactly once and a failed text hunk is shown in full",
  "Applying a text diff classifies each hunk exactly once (clean, fuzzy, already applied, already applied fuzzy, failed), in hunk order; a failed hunk leaves the target text in place and adds one complete conflict block with both sides of the hunk, while an already applied hunk changes nothing.",
  ["inputs", "histories"],
  "every sequence of hunk outcomes",
  "Tests check five totals; no test has a failing hunk.",
  [L + "apply_text.rs"],
  [("ApplyClumpsFuzzy::apply_into", L + "apply_text.rs"), ("write_failure_data_into", L + "apply_text.rs")],
  observe=["Statistics and bytes written"])

P("C18", "Parsing a unified diff never panics",
  "Parsing any text as unified diff (file headers, hunk headers, hunks at any line index) returns a value or an error; it never panics, whatever the text, the numbers in it or the index asked for.",
  ["inputs"],
  "every line sequence and every start index",
  "Two tests parse well-formed or non-hunk lines.",
  [U, "pw_cub_diff_lib/src/text_diff.rs"],
  [("UnifiedDiffClump::get_from_at and the header parsers", U)],
  observe=["get_from_at, starts_and_lengths, before/after_path_and_time_stamp"])

P("C19", "A parsed unified hunk holds exactly the hunk's before and after lines",
  "A parsed unified hunk contains, in order, the lines marked removed or unchanged as its before side and those marked added or unchanged as its after side, without their one-character marker and otherwise byte for byte (minus only the final newline when the diff says there is none); context lengths and consumed lines match what was read. A hunk whose lines do not add up to its header is refused.",
  ["inputs"],
  "every well-formed or malformed hunk",
  "Tests only check that parsing returns Some/None.",
  [U], [("UnifiedDiffClump::get_from_at", U)],
  observe=["UnifiedDiffClump fields"])

P("C20", "Emitted unified hunks are well formed",
  "Each emitted unified hunk has a header whose lengths equal the number of before and after lines in its body, and a body consisting of exactly the hunk's unchanged, removed and added lines with the right one-character marker, each from the right input.",
  ["inputs"],
  "every edit script and context size",
  "No test emits a unified diff.",
  [U], [("UnifiedClumpIter::next", U), ("Display for StartsAndLengths", U)],
  observe=["UnifiedClumpText"])

P("C21", "The occurrence index is complete and ascending",
  "For every item of a sequence the occurrence index lists every position at which it occurs, once, in ascending order, and nothing else; asking for an item that does not occur yields nothing.",
  ["inputs"],
  "every sequence of strings or bytes",
  "The index is only used indirectly by three doc tests.",
  [L + "sequence.rs"], [("StringItemIndices / ByteItemIndices", L + "sequence.rs")],
  observe=["ContentItemIndices::indices"])

P("C22", "Reading and writing content is lossless",
  "Splitting text into lines keeps every byte including line terminators and a missing final newline, whichever way the text is supplied, and reading bytes keeps every byte; writing a sequence, a snippet or a stored file back writes exactly the requested items, all of them, in order, with nothing added.",
  ["inputs"],
  "every content, every range",
  "Tests use newline-terminated ASCII lines and whole outputs.",
  [L + "sequence.rs", L + "snippet.rs", L + "text_diff.rs", L + "byte_diff.rs"],
  [("Seq::read / From impls / WriteDataInto", L + "sequence.rs"), ("SnippetWrite", L + "snippet.rs"), ("PathAndLines / PathAndBytes", L + "text_diff.rs")],
  observe=["Seq contents, bytes written"])

P("C23", "The kind of diff follows from which inputs exist and whether they are text",
  "If both inputs exist the result is a change diff, if only the before input exists a remove diff recording it, if only the after input exists an add diff recording its content under the before path, and if neither exists an error. Text is used whenever the inputs can be read as text and bytes otherwise, and the recorded before and after paths are the ones given.",
  ["inputs", "fault_sequences"],
  "every combination of existing, missing, text and binary inputs",
  "No test calls Diff::new.",
  [L + "diff.rs", L + "text_diff.rs", L + "byte_diff.rs"], [("Diff::new", L + "diff.rs")],
  observe=["Diff::new result"])

P("C24", "\"Already applied\" is only claimed when every hunk's result is in the target",
  "A diff is reported as already applied only if for each of its hunks the after side (before side in reverse) was found in the target; one hunk that is not found makes the answer no. Recognising an already applied hunk while patching requires the same.",
  ["inputs"],
  "every diff and target",
  "One test with three targets; the byte variant has none.",
  [L + "apply_text.rs", L + "apply_bytes.rs", L + "byte_diff.rs"],
  [("ApplyClumpsFuzzy::is_already_applied / ApplyClumpsClean::already_applied", L + "apply_text.rs")],
  observe=["is_already_applied, already_applied"])

P("C25", "Computing a diff makes progress and ends for every input",
  "While common runs are searched, each sub-problem that is still to be searched lies inside the one it came from, is strictly smaller, and does not overlap the run found in it; runs are merged only when they touch on both sides, and the runs are put in order before the script is built.",
  ["inputs"],
  "every pair of sequences",
  "Non-termination or overlap needs a particular arrangement of repeated items.",
  [L + "changes.rs"], [("ChangesGenerator::longest_common_subsequences", L + "changes.rs")],
  [("lifo", "sub-problems still to be searched", L + "changes.rs")],
  ["ChangesGenerator::generate returns"])

P("C26", "Applying a valid diff to any target never panics",
  "Applying a diff produced by this differ, in either direction, to any target whatsoever (empty, shorter, longer, unrelated, partly patched) ends with a result or an error; it never panics, neither on an out-of-range access nor on an arithmetic overflow.",
  ["inputs", "histories"],
  "every produced diff and every target",
  "Tests use targets close to the before image.",
  [L + "apply_text.rs", L + "apply_bytes.rs", L + "byte_diff.rs", L + "sequence.rs", L + "snippet.rs", L + "changes.rs"],
  [("range computations in ApplyClumpFuzzy, ConsumableSeq and Snippet", L + "apply_text.rs")],
  observe=["apply_into returns"])

P("C27", "Diff followed by patch reproduces the after file byte for byte",
  "Applying the diff of two files to the before file yields exactly the after file, and applying it in reverse to the after file yields exactly the before file.",
  ["inputs"], "every pair of files, every context size",
  "Tests try about six pairs.",
  [L + "changes.rs", L + "text_diff.rs", L + "byte_diff.rs", L + "apply_text.rs", L + "apply_bytes.rs"],
  [("whole pipeline", L + "diff.rs")], observe=["pw_diff | pw_patch"])

P("C28", "The reported common run is the longest one",
  "The common run found between two ranges is one of maximal length, so that the diff is not larger than it need be.",
  ["inputs"], "every pair of ranges", "One doc test.",
  [L + "changes.rs"], [("longest_common_subsequence", L + "changes.rs")], observe=["longest_common_subsequence result"])

P("C29", "A displaced hunk is applied at the nearest matching position",
  "When a hunk does not match at its expected position (the recorded one, displaced like the hunk placed before it) it is applied at the matching position closest to it, if one exists in the part of the target still to be consumed and in front of the expected position of the hunk that follows.",
  ["inputs"], "every hunk and target", "Two tests with four positions.",
  [L + "apply_text.rs"], [("will_apply_nearby", L + "apply_text.rs")], observe=["will_apply_nearby result"])

P("C30", "A failed patch run leaves no temporary files behind",
  "However a run of the patch command ends short of being killed, no temporary file created by it is left in the file system.",
  ["fault_sequences", "inputs"], "every failing operation after the temporary file was created",
  "No test runs the patch command.",
  [PP], [("TempFile dropped or renamed on every path to exit", PP)], observe=["directory contents after pw_patch ends"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in OUT:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(OUT))
