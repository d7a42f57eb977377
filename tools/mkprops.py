#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json, os
L = "pw_diff_lib/src/"
U = "pw_cub_diff_lib/src/unified_diff.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A text patch turns one file into the other, and back",
 "For any two text files and any context size, the patch made from them, applied to the first, gives exactly the second, and applied in reverse to the second gives exactly the first, byte for byte. In both directions every hunk is reported as applied cleanly: none with fuzz or displacement, none as already applied, none as failed.",
 ["inputs", "configurations"], "every pair of UTF-8 files (empty, without a final newline, CRLF, repetitive, long) x every context 0..255 x both directions",
 "The tests apply four hand-written pairs with context 2; they never compare the reconstruction for arbitrary pairs, other contexts, or the reverse of an insertion at an end.",
 [L+"changes.rs", L+"text_diff.rs", L+"apply_text.rs", L+"sequence.rs"],
 [("change generation", L+"changes.rs ChangesGenerator::generate"), ("hunk extraction", L+"text_diff.rs From<ChangeClump>"), ("application", L+"apply_text.rs ApplyClumpsFuzzy::apply_into")],
 [("consumed", "how much of the target has been copied or replaced", L+"sequence.rs ConsumableSeq")],
 ["bytes written by the application", "the returned statistics"])

prop("C02", "A byte patch turns one file into the other, and back",
 "For any two byte sequences and any context size, the byte patch made from them, applied to the first, gives exactly the second, and applied in reverse to the second gives exactly the first. No hunk fails and each is counted as applied. This includes empty files, insertions and deletions at either end, and every byte value.",
 ["inputs", "configurations"], "every pair of byte strings x every context 0..255 x both directions",
 "No test exercises the byte differ or the byte patcher at all.",
 [L+"byte_diff.rs", L+"apply_bytes.rs", L+"changes.rs", L+"sequence.rs"],
 [("positional match", L+"sequence.rs Seq::has_subsequence_at"), ("application", L+"apply_bytes.rs ApplyClumpsClean::apply_into")],
 [("consumed", "how much of the target has been copied or replaced", L+"sequence.rs ConsumableSeq")],
 ["bytes written by the application"])

prop("C03", "The change list accounts for both sequences exactly",
 "The list of changes computed for two sequences covers both of them from start to end, in order, with no gap and no overlap, and the positions in it are right. What it marks unchanged is equal item for item on the two sides, what it marks deleted, inserted or replaced is non-empty where it should be, and the two sides of a replaced block have no item in common.",
 ["inputs"], "every pair of sequences of lines or bytes",
 "One doc-test compares one change list for one pair; a list that silently calls different lines equal, or drops a tail, is only visible on other shapes.",
 [L+"changes.rs", L+"common_subsequence.rs"],
 [("recursive splitting and merging", L+"changes.rs longest_common_subsequences"), ("list construction", L+"changes.rs generate")],
 [("changes", "ordered list of unchanged/deleted/inserted/replaced blocks", L+"changes.rs Changes")],
 ["Changes::changes"])

prop("C04", "The longest common run found is a longest common run",
 "For any sub-ranges of two sequences, the query for the longest common run answers with a run that lies inside both sub-ranges, is equal item for item on both sides, and is at least as long as every other common run there. It answers that there is none exactly when the sub-ranges share no item.",
 ["inputs"], "every pair of sequences and every pair of sub-ranges of them",
 "One doc-test asks one query over whole sequences; sub-ranges, ties and runs touching a range's edge are never asked.",
 [L+"changes.rs", L+"sequence.rs"],
 [("search", L+"changes.rs longest_common_subsequence"), ("content index", L+"sequence.rs ContentItemIndices")],
 [("content index", "positions of every distinct item of the first sequence", L+"sequence.rs")],
 ["return value of longest_common_subsequence"])

prop("C05", "Hunks hold every change once, with exactly the context asked for",
 "Grouping a change list with context size c gives hunks in file order that together hold every change exactly once and never overlap. Each hunk has c unchanged items before its first and after its last change, or as many as there are up to the file's edge; changes share a hunk exactly when fewer than 2c unchanged items separate them; equal files give no hunk. The starts, ends, lengths, contents and context sizes a hunk reports for either side, also once turned into a patch hunk, agree with the files.",
 ["inputs", "configurations"], "every pair of sequences x every context 0..255",
 "One doc-test groups one list with context 2; other contexts, gaps of exactly 2c, file edges and the extents reported by hunks are not looked at.",
 [L+"changes.rs", L+"common_subsequence.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs"],
 [("grouping", L+"changes.rs ChangeClumpIter::next"), ("trimming and splitting", L+"common_subsequence.rs"), ("extents", L+"changes.rs ChangeClump")],
 [("stash", "leading context kept for the next hunk", L+"changes.rs ChangeClumpIter")],
 ["Changes::change_clumps", "TextChangeClump", "ByteChangeClump"])

prop("C06", "A patch survives being written out and read back",
 "Writing a patch of any kind and reading it back gives a patch with the same paths, the same contents and the same effect on any target as the one written, and writing it again gives the same bytes. Reading anything that is not a complete patch document, or that describes a hunk which cannot exist (more context than lines, a place no file can reach), is reported as an error.",
 ["inputs"], "every patch of the six kinds made from any files, paths and contexts; every truncation and many corruptions of its text",
 "No test serialises or parses a patch.",
 [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs"],
 [("serde derive", L+"diff.rs Diff"), ("reader/writer", L+"diff.rs from_reader/to_writer")],
 [], ["text written by to_writer", "value returned by from_reader"])

prop("C07", "Already-applied patches are recognised, and others are not",
 "A patch is recognised as already applied to the file it produces, and in reverse to the file it was made from; it is never recognised as already applied to a file in which what one of its hunks leaves behind cannot be found, displaced or with reduced context included (for byte patches: is not at its exact place). Applying a patch again to its own result leaves that file unchanged and counts every hunk as already applied whenever none of its hunks' original text can be found in that file.",
 ["inputs", "histories"], "every patch x {its result, its original, unrelated and partly patched files} x both directions, and apply-twice histories",
 "Two tests look at one hand-written pair each; byte patches, other contexts and false positives are not tested.",
 [L+"apply_text.rs", L+"apply_bytes.rs", L+"byte_diff.rs"],
 [("detection", L+"apply_text.rs is_already_applied, is_already_applied_nearby"), ("copying what is already there", L+"apply_text.rs already_applied_into")],
 [("offset", "displacement assumed for the next hunk", L+"apply_text.rs apply_into")],
 ["is_already_applied/already_applied", "statistics and output of a second application"])

prop("C08", "Displaced hunks are found, at the nearest place",
 "When the lines a hunk needs are not at the place it expects, given how far the hunks before it were displaced, it is applied at the nearest place where they are, searching back to the end of what earlier hunks used and forward to the place the next hunk is expected or the end of the file, the earlier of two equally near places winning. So a one-hunk patch with distinctive lines applies to a file with any number of unrelated lines added or removed before and after, and a patch of several hunks to one displaced by less than the distance between its hunks, giving the displaced result.",
 ["inputs", "histories"], "every patch x every displacement of its target (lines added or removed before, between and after hunks), both directions",
 "Three tests displace one pair by three lines; other distances, backward displacement of whole patches, the last possible position and choice between several candidates are not tested.",
 [L+"apply_text.rs"],
 [("search", L+"apply_text.rs will_apply_nearby"), ("carrying the offset", L+"apply_text.rs ApplyClumpsFuzzy::apply_into")],
 [("offset", "displacement assumed for the next hunk", L+"apply_text.rs")],
 ["output and statistics of the application", "will_apply_nearby"])

prop("C09", "Hunks apply with reduced context and keep the target's own lines",
 "When some of a hunk's outer context lines differ in the target, the hunk still applies there with the smallest reduction of its context, equal on both sides as far as each side's context goes, for which the rest matches, as long as part of the longer context is kept. It then replaces exactly what it was made to replace: the target's own lines where the context was dropped stay as they are, and the hunk counts as fuzzy.",
 ["inputs"], "every patch with context 2 and more x every choice of damaged outer context lines x both directions x position in the file",
 "A test asks whether one hunk would apply with reduced context; none ever applies one.",
 [L+"apply_text.rs", L+"text_diff.rs", L+"snippet.rs"],
 [("reduction loop", L+"apply_text.rs will_apply"), ("writing the reduced hunk", L+"apply_text.rs before_write_into, apply_into")],
 [("context lengths", "how much of a hunk's edges is context", L+"text_diff.rs TextChangeClump")],
 ["output and statistics of the application", "will_apply"])

prop("C10", "Applying a text patch to any file loses and invents nothing",
 "Whatever text file a text patch is applied to, in either direction, application ends without a crash and its output is the target's lines in order, except that each hunk's matched lines are replaced by that hunk's lines, non-overlapping and in order, and each failed hunk adds one conflict block holding both its sides. Every hunk is counted under exactly one outcome, and the counts agree with what happened.",
 ["inputs", "histories"], "every patch x every target (unrelated, empty, shorter than the patch, partly patched, reordered, edited, repetitive) x both directions",
 "No test applies a patch to a file it does not fit; failing hunks, short targets and partly patched files are untested.",
 [L+"apply_text.rs", L+"sequence.rs"],
 [("outcome cascade", L+"apply_text.rs ApplyClumpsFuzzy::apply_into"), ("copying", L+"sequence.rs write_into_upto, write_remainder"), ("conflict block", L+"apply_text.rs write_failure_data_into")],
 [("consumed", "how much of the target has been copied or replaced", L+"sequence.rs"), ("statistics", "count per outcome", L+"apply_text.rs Statistics")],
 ["output and statistics of the application"])

prop("C11", "A byte patch only ever changes the bytes it names, where it names them",
 "Whatever bytes a byte patch is applied to, in either direction, application ends without a crash; a hunk takes effect only if the bytes it expects are at exactly its place and not already used by an earlier hunk, and everything else is copied unchanged and in order. Every hunk is counted under exactly one outcome, and failed ones as failed.",
 ["inputs", "histories"], "every byte patch x every target x both directions",
 "No test exercises the byte patcher.",
 [L+"apply_bytes.rs", L+"byte_diff.rs", L+"sequence.rs"],
 [("positional match", L+"sequence.rs has_subsequence_at"), ("application", L+"apply_bytes.rs apply_into")],
 [("consumed", "how much of the target has been copied or replaced", L+"sequence.rs")],
 ["bytes written by the application"])

prop("C12", "Content is read and written faithfully, and I/O errors surface",
 "Files are read and written back byte for byte however the operating system splits or interrupts the transfers, and text is split after each newline only. A read error, invalid UTF-8 in text, or a write error at any point is reported to the caller as an error, and what had been written by then is a prefix of the full output.",
 ["inputs", "fault_sequences"], "every content x every chunking of reads and writes x every position of an error",
 "The tests read one file and never see a short read, an interrupted call or an error.",
 [L+"sequence.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs", L+"apply_text.rs", L+"apply_bytes.rs"],
 [("reading", L+"sequence.rs Seq::read"), ("writing", L+"sequence.rs WriteDataInto, snippet.rs SnippetWrite")],
 [], ["items read", "bytes accepted by an instrumented writer", "returned error"])

prop("C13", "pw_diff writes a complete patch of the right kind, or fails",
 "Given two paths, the diff command writes one complete patch document to standard output and exits successfully: a text change if both files exist and are valid UTF-8, a byte change if both exist otherwise, an addition or removal of text or bytes holding the whole file if only one exists, always naming the first path as the one to patch and with as much context as asked for (2 unless told otherwise). What can be read only once, such as a pipe, is treated like a file of the same content. If neither exists, a file cannot be read or the output cannot be written in full (standard output full, broken or not open for writing) it exits with failure; it never touches any file.",
 ["inputs", "configurations", "fault_sequences"], "every pair of files and paths, present or absent, text or not, any context, and every failing system call",
 "No test runs the commands or makes a patch from files.",
 ["pw_diff/src/main.rs", L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs"],
 [("choice of kind", L+"diff.rs Diff::new"), ("output", "pw_diff/src/main.rs main")],
 [], ["stdout, exit status and file-system trace of the command"])

prop("C14", "pw_patch makes the described change to the named file, and only that",
 "After the patch command is run on a patch of any of the six kinds against the file it was made for, forward or in reverse, the named path holds exactly the other version (or does not exist, if that is the other version). No other file is created, changed or left behind, a patched file keeps its permissions, set-ID bits included, and, when root patches it, its owner and group, its contents are at no time in a file that others may read who may not read it, and the command exits successfully; this holds wherever the command is run from and wherever the file is.",
 ["inputs", "configurations", "histories"], "every file pair x six kinds x both directions x relative/absolute paths, working directories, file systems and permissions; diff-patch-unpatch histories",
 "No test runs the commands.",
 ["pw_patch/src/main.rs", L+"diff.rs"],
 [("dispatch per kind", "pw_patch/src/main.rs main"), ("replacement through a temporary file", "pw_patch/src/main.rs")],
 [("temporary file", "new content before it replaces the target", "pw_patch/src/main.rs")],
 ["directory tree before and after", "exit status", "file-system trace"])

prop("C15", "A failing or killed pw_patch never leaves a half-patched file",
 "While a change patch is applied, the named file holds at every moment either its complete old or its complete new content: an error in any system call, or the command being killed at any point, leaves one of the two. If a system call fails so that the change is not made, the command exits with failure and, unless deleting fails too, leaves no temporary file behind; success is claimed only if the change was made in full, permissions included; an addition or removal that cannot be completed exits with failure and leaves no part of the added file behind.",
 ["fault_sequences", "crash_points", "inputs"], "every file system call of a run x {each applicable error, short write, kill before it, kill after it} x the six kinds and both directions",
 "No test runs the commands or injects a fault.",
 ["pw_patch/src/main.rs"],
 [("write to temporary file then rename", "pw_patch/src/main.rs"), ("error branches", "pw_patch/src/main.rs")],
 [("temporary file", "new content before it replaces the target", "pw_patch/src/main.rs")],
 ["directory tree, exit status and file-system trace after each injected fault"])

prop("C16", "pw_patch reports failure whenever the change was not made in full",
 "The patch command exits successfully only if every hunk was applied or found already applied, the file to add was created, or the file to remove was removed. A missing, unreadable or malformed patch, a missing or unsuitable target (a directory, pipe, socket or device), or a file that is in the way makes it exit with failure and leaves every file as it was; if some hunks fail, it exits with failure and the file holds what the other hunks made of it.",
 ["inputs", "histories", "configurations"], "every patch (well-formed, truncated, corrupted) x every target state x both directions",
 "No test runs the commands.",
 ["pw_patch/src/main.rs", L+"apply_text.rs", L+"apply_bytes.rs"],
 [("error branches and exit status", "pw_patch/src/main.rs")],
 [], ["exit status", "directory tree before and after"])

prop("C17", "Well-formed unified diff hunks are parsed exactly",
 "Parsing a well-formed unified diff hunk, as standard tools write it, gives the start lines and lengths of its header, exactly the lines of the old and of the new file it shows, each without its marker and with or without a final newline as indicated by a 'no newline' marker, the number of leading and trailing context lines (counted up to 255), and the number of input lines it occupies, so that consecutive hunks can be read one after the other. Applied at the place it names, it turns the old file into the new one.",
 ["inputs"], "every pair of text files and context, formatted as unified diff with and without omitted lengths and 'no newline' markers",
 "The two tests only look at whether parsing succeeds on one text.",
 [U, "pw_cub_diff_lib/src/text_diff.rs"],
 [("header", U+" starts_and_lengths"), ("body", U+" UnifiedDiffClump::get_from_at")],
 [], ["UnifiedDiffClump fields and its line and position accessors"])

prop("C18", "Malformed unified diff hunks are rejected, never misread",
 "Parsing any text from any line position within it never crashes. A line that is no hunk header gives no hunk; a hunk cut short, interrupted by a line that cannot belong to it, with more lines on a side than announced, or with numbers out of range gives an error, which names the line at fault. A hunk that is returned always has exactly the announced number of lines on each side.",
 ["inputs"], "every text and every position in it",
 "The tests parse two texts and no malformed hunk.",
 [U, "pw_cub_diff_lib/src/text_diff.rs"],
 [("body loop", U+" UnifiedDiffClump::get_from_at"), ("number parsing", U+" start_and_length_from_captures")],
 [], ["result of get_from_at and starts_and_lengths"])

prop("C19", "Unified diff output is standard, complete and reads back",
 "Each hunk formatted as unified diff has a header with the standard line numbers and lengths for its position in the two files, followed by exactly its unchanged, removed and added lines, with a marker after any line that has no final newline, wherever it occurs. Hunks so formatted, for any two files and context, turn the first file into the second under the ordinary reading of unified diffs, and this library reads each back as the same hunk.",
 ["inputs", "configurations"], "every pair of text files x every context",
 "No test formats a unified diff.",
 [U],
 [("hunk formatting", U+" UnifiedClumpIter::next"), ("header formatting", U+" Display for StartsAndLengths")],
 [], ["UnifiedClumpText header and lines"])

prop("C20", "File headers of unified diffs give the path and timestamp",
 "A '---' or '+++' line yields the path written there - unquoted without white space, or in double quotes - and the timestamp that follows it, in either supported format, if there is one; formatting a hunk's position and parsing it gives the same position. Lines that are not such headers yield nothing.",
 ["inputs"], "every path, timestamp and trailing text; every position",
 "No test parses a file header.",
 [U, "pw_cub_diff_lib/src/lib.rs"],
 [("regular expressions", "pw_cub_diff_lib/src/lib.rs"), ("captures", U+" path_and_time_stamp_from_captures")],
 [], ["before_path_and_time_stamp, after_path_and_time_stamp, starts_and_lengths"])

prop("C21", "Results do not depend on threads, schedules or runs",
 "Making or applying the same patch gives identical results in every run, on every thread, with any number of worker threads, and while any number of other diffs and patches are being made at the same time. Making a patch never alters its inputs.",
 ["schedules", "inputs"], "every interleaving of concurrent calls and every worker-pool size, on inputs small and large enough for parallel sorting",
 "The tests run each case once and with inputs far below the size at which sorting becomes parallel.",
 [L+"changes.rs", L+"diff.rs"],
 [("parallel sort of runs", L+"changes.rs longest_common_subsequences"), ("hash-based index", L+"sequence.rs StringItemIndices")],
 [], ["patch text and outputs compared across threads, pools and processes"])

prop("C22", "Commands running at the same time do not disturb each other",
 "However the steps of several runs of the diff and patch commands interleave, runs that patch different files each have exactly the result they have alone, in the same directory, with similar file names, with temporary files of killed runs lying about, and with equal process ids. Runs on one file: it holds at every moment one complete version and ends as one that some of the runs make; of several additions of one file, or several removals of it, exactly one succeeds. Whoever reads a file while it is being changed sees a complete old or new version.",
 ["schedules", "histories", "crash_points"], "every interleaving of the system calls of two or more runs x the six kinds and both directions x same or different files x leftovers of killed runs",
 "No test runs the commands, let alone two at once.",
 ["pw_patch/src/main.rs", "pw_diff/src/main.rs"],
 [("temporary file and rename", "pw_patch/src/main.rs"), ("creation of an added file", "pw_patch/src/main.rs")],
 [("temporary file", "new content before it replaces the target", "pw_patch/src/main.rs")],
 ["system call log of all runs", "exit statuses", "directory tree after each pause and at the end", "content seen by concurrent readers"])

prop("C23", "What commands say never mixes with what they do",
 "The patch command writes nothing to standard output, and the diff command only the patch document, and nothing when it fails. Every failure, failed hunks with their number included, is explained on standard error and is never a crash; success without a remark to make prints nothing there. Verbosity, the order of options, environment variables, and whether messages can be written never change the exit status, the output or any file. Patches whose numbers make no sense are refused or fail like any other. Senseless arguments are refused with failure and nothing is touched.",
 ["configurations", "inputs", "fault_sequences"], "every run of either command x verbosity options x order and form of arguments x environment x state of the standard streams",
 "No test runs the commands.",
 ["pw_patch/src/main.rs", "pw_diff/src/main.rs", L+"apply_text.rs", L+"apply_bytes.rs"],
 [("arguments and log level", "pw_patch/src/main.rs main"), ("messages", L+"apply_text.rs apply_into")],
 [], ["standard output and error", "exit status", "directory tree"])

prop("C24", "All accounts of positions, ranges and contents agree",
 "For every change, hunk (text, bytes, or read from a unified diff) and direction, its start, end, length, range, lines, reduced and displaced positions and written form agree with one another and with the two files, and what is said of the after side is what is said of the before side in the opposite direction. Parts, snippets, item look-ups and comparisons at any place of a sequence give exactly what is there. Consuming a sequence by writing up to places, skipping and writing the rest hands out each item that was not skipped once, in order. Trimming, splitting and extending runs of equal items keeps both sides in step.",
 ["inputs", "histories"], "every pair of files, context, direction and permissible reduction x every accessor; every sequence of requests to a sequence",
 "The tests compare a few accessors of hand-made values.",
 [L+"changes.rs", L+"common_subsequence.rs", L+"range.rs", L+"sequence.rs", L+"snippet.rs", L+"apply_text.rs", L+"text_diff.rs", L+"byte_diff.rs", U],
 [("positions", L+"changes.rs ChangeBasics"), ("consuming", L+"sequence.rs ConsumableSeq"), ("reduced positions", L+"apply_text.rs ApplyClumpFuzzy")],
 [], ["every public accessor of changes, hunks, snippets, sequences and runs"])

prop("C25", "The log tells what became of each hunk",
 "While a change is applied, exactly one message per hunk, in order and with its number, says what was done: applied cleanly (information), applied or found applied with the displacement and reduction used (warning), found applied, or failed (error). Doing to the file what the messages say gives exactly the output and the counts returned. Asking whether a change is already applied logs the same for each hunk up to the first that is not, and agrees with the answer. Whether anybody listens makes no difference to any result.",
 ["inputs", "configurations"], "every patch x target x direction x log level",
 "No test looks at a message.",
 [L+"apply_text.rs", L+"apply_bytes.rs"],
 [("text messages", L+"apply_text.rs ApplyClumpsFuzzy"), ("byte messages", L+"apply_bytes.rs ApplyClumpsClean")],
 [], ["log records", "output", "Statistics"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
