#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Every stored row is delivered exactly once, in order, with its stored values",
 "For every well-formed SAS7BDAT file (32/64 bit, either byte order, uncompressed or RLE or RDC, any arrangement of metadata, mixed, data and ignorable pages), reading it to the end delivers each stored row exactly once, in stored order, with consecutive row indices starting at 0. Every value of every column equals the stored one through every typed accessor that applies to its type: character values byte for byte without their trailing blank padding, numbers of every storage width, missing numbers as NaN, and dates, datetimes and times at their stored instant (missing ones as not-a-date). No row is lost, repeated or altered because of where a page or compressed row happens to end, how many rows a page holds, or how many bytes the source hands over per system call.",
 ["inputs", "histories", "configurations"],
 "every well-formed file image x every partition of the read into row, chunk, skip and no-sink calls x every short-read/interrupted-read pattern of the source",
 "The tests read 176 fixed files with one call pattern and compare a handful of sampled rows per file; compressed corner cases (last command of a row, overlapping patterns, page boundaries), narrow date columns and most layouts are never compared in full.",
 ["src/data.hpp","src/page.hpp","src/decompressors.hpp","src/formatters.hpp","src/types.hpp","src/metadata.hpp","src/reader-impl.hpp"],
 [("page iteration and row addressing","src/data.hpp READ_DATA::next/read_line/build_page, PAGE::*"),("decompression into a row-sized buffer","src/decompressors.hpp RDC, RLE"),("typed decoding","src/formatters.hpp, src/types.hpp")],
 [("current_row","rows consumed so far","src/data.hpp READ_DATA::current_row"),("page","iterator over the rows of the current page","src/data.hpp READ_DATA::page")],
 ["Reader sink push_row","Reader::read_row_no_sink","Column::get_*"])

prop("C02", "Reader calls behave as one cursor over the rows, whatever the call history",
 "A reader is a cursor over the rows of its file: read_row, read_rows(n), read_all, skip(n) and read_row_no_sink each advance it by exactly the rows they deliver or skip, current_row_index() is always the number of rows consumed, and a row is the same whether it was reached by reading or by skipping. read_row returns true iff a row was delivered; read_rows(n) and skip(n) return true iff all n rows were available (so asking for 0 rows is true and does nothing); read_row_no_sink gives a pointer that stays valid until the next call on that reader, or null at the end, and never touches the sink. The sink's end_of_data is invoked exactly when a sink-driven call or skip runs into the end (once per such call, after the last row) or when the user asks for it, and once at the end a reader stays at the end; a default-constructed or moved-from reader delivers nothing.",
 ["histories", "inputs"],
 "every finite sequence of public reader calls (including moves of the reader and calls after the end) over every well-formed file",
 "The tests use three fixed call patterns on files read from the start; mixtures such as skip across a page boundary then chunked reads, zero-sized requests, or calls after the end are never made.",
 ["src/reader-impl.hpp","src/reader.cpp","src/data.hpp","include/cppsas7bdat/reader.hpp"],
 [("call semantics","src/reader-impl.hpp Reader::impl and ReaderImpl"),("inert empty reader","src/reader.cpp"),("skip/next","src/data.hpp READ_DATA::skip, next")],
 [("current_row","rows consumed so far","src/data.hpp READ_DATA::current_row")],
 ["return values","Reader::current_row_index","sink callbacks"])

prop("C03", "Properties report exactly what the file stores, to everyone and at all times",
 "For every well-formed file the reader's properties report what is stored: format, byte order, platform, encoding, creation and modification times, dataset name, release, host and OS strings, header/page geometry, compression, row and column counts, and for every column its name, label, format, type and length, in file order, wherever on the metadata pages and in however many text blocks they are stored. Columns groups them by type without loss and in file order. The sink receives the same properties, exactly once, before any row. They do not change during the reader's lifetime, whatever is read, skipped, moved or fails afterwards.",
 ["inputs", "histories", "fault_sequences"],
 "every well-formed metadata arrangement x every call history and later read fault",
 "The tests compare the columns and some header fields of fixed files once, right after construction; labels, lengths, multi-page/multi-block metadata, non-ASCII names and stability over time are not compared.",
 ["src/header.hpp","src/metadata.hpp","src/page.hpp","src/types.hpp","src/reader-impl.hpp","src/encodings.cpp","include/cppsas7bdat/properties.hpp"],
 [("header decoding","src/header.hpp READ_HEADER::set_header"),("subheader decoding","src/metadata.hpp process_*_SUBHEADER, create_columns"),("ownership of the properties","src/reader-impl.hpp Reader::impl")],
 [("column_names/labels/formats/...","column description being assembled","src/metadata.hpp READ_METADATA")],
 ["Reader::properties","sink set_properties"])

prop("C04", "A column filter selects exactly the accepted columns and changes nothing else",
 "With any column filter, the reported columns are exactly the accepted ones, in file order, with unchanged name, label, format, type, length and values, and row count, row order, row indices and the file-level properties are the same as without a filter. Include keeps exactly the named columns, Exclude drops exactly the named ones, IncludeExclude applies the include list if it is not empty and otherwise the exclude list, and names that match no column have no effect. A user-defined filter is asked once about each column, in file order, with that column's full description and its answer is respected.",
 ["inputs", "configurations", "histories"],
 "every file x every filter (built-in with any name sets, or user-defined predicate) x every call history",
 "The tests call the filter predicates on a hand-made column and never read data through a filter.",
 ["include/cppsas7bdat/filter/column.hpp","src/metadata.hpp","include/cppsas7bdat/reader.hpp"],
 [("filter predicates","include/cppsas7bdat/filter/column.hpp"),("filter application","src/metadata.hpp create_columns")],
 [], ["Reader::properties().columns","values of the remaining columns"])

prop("C05", "A file cut short anywhere gives an error or exactly the rows of its intact pages",
 "If a file is cut off at any byte (torn write, interrupted download), opening it either fails with an exception or yields a reader that delivers exactly the rows stored on the pages that are still complete, each correct and in order, and then stops. Bytes that are not in the file are never decoded as data: no row of the incomplete page, no stale row of an earlier page and no invented row is delivered. The shortfall is visible: the reader stops with an exception or with a row index below the announced row count. A file that is cut within the description of its columns is refused, or its properties are complete all the same.",
 ["crash_points", "inputs", "histories"],
 "every truncation length of every well-formed file x every call history x sources that report end-of-file eagerly or lazily",
 "No test reads a truncated file.",
 ["src/page.hpp","src/data.hpp","src/header.hpp","src/buffer.hpp","include/cppsas7bdat/source/ifstream.hpp"],
 [("incomplete page detection","src/page.hpp READ_PAGE::read_page"),("header completeness","src/header.hpp")],
 [("page buffer","bytes of the page being decoded; reused from page to page","src/buffer.hpp MBUFFER")],
 ["rows delivered","exceptions","Reader::current_row_index vs properties().row_count"])

prop("C06", "A failed read is reported as an exception, never as a normal end or as data",
 "If the source fails to deliver requested bytes at any point for a reason other than the end of the file (I/O error reported by the source or the operating system, or an exception thrown by the source), the reader call that needed the bytes, or the constructor, throws; it does not report a normal end of data and does not call the sink's end_of_data. All rows delivered before the failure are correct and none is delivered from the failed or partially filled page. Calls made after the failure deliver nothing wrong: any row they still deliver is the correct row for its index.",
 ["fault_sequences", "inputs", "histories"],
 "every position of a transient or permanent read failure (at any byte offset, with any number of bytes transferred before it) x every file x every call history, through the bundled file source and user-defined sources",
 "No test injects a read failure after the header; the only I/O failure tested is a missing file.",
 ["src/page.hpp","src/header.hpp","src/data.hpp","include/cppsas7bdat/source/ifstream.hpp","src/reader-impl.hpp"],
 [("error versus end-of-file","src/page.hpp READ_PAGE::read_page"),("bundled source","include/cppsas7bdat/source/ifstream.hpp")],
 [("page","null after a failed page read","src/data.hpp READ_DATA::page")],
 ["exceptions","sink callbacks"])

prop("C07", "The result does not depend on how the source delivers the bytes",
 "For the same bytes, every conforming source (one that fills the whole request or returns false, with end-of-file reported either as soon as the last byte is consumed or only after a failed read) and the bundled file source under any pattern of short or interrupted system calls produce the same properties, rows, return values and end-of-data notifications. The source is consumed strictly sequentially, each byte is requested at most once, and nothing is requested beyond what is needed after the reader has reported the end. A file that does not exist or cannot be opened is reported as an exception by the bundled source.",
 ["schedules", "fault_sequences", "inputs"],
 "every file x every pattern of short/EINTR/slow reads x eager and lazy end-of-file reporting x every call history",
 "The tests only use the bundled source on local files, where the kernel always fills the request.",
 ["include/cppsas7bdat/source/ifstream.hpp","src/datasource_ifstream.cpp","src/stream.cpp","src/page.hpp","src/buffer.hpp","include/cppsas7bdat/reader.hpp"],
 [("source concept","include/cppsas7bdat/reader.hpp DataSourceConcept"),("bundled source","include/cppsas7bdat/source/ifstream.hpp"),("page reads","src/buffer.hpp MBUFFER::read_stream")],
 [], ["byte ranges requested from the source","recorded history equality"])

prop("C08", "Damaged files never cause memory errors, crashes, hangs or wrong earlier rows",
 "For every byte sequence, opening and reading it through any call history either works or throws an exception derived from std::exception: it never reads or writes outside its own buffers, never terminates or kills the process, never loops without consuming input, and decodes values of every row it delivers without such faults. Rows delivered before the first damaged page of an otherwise well-formed file are correct. A file whose first bytes are not those of a SAS7BDAT file is refused with an exception.",
 ["inputs", "fault_sequences", "histories"],
 "every damage pattern (flipped bits, overwritten fields, zeroed or swapped or duplicated sectors and pages, inconsistent lengths, offsets and counts) of every file x every call history",
 "The tests only feed well-formed files, one wrong magic number and one too-short header.",
 ["src/buffer.hpp","src/header.hpp","src/page.hpp","src/metadata.hpp","src/data.hpp","src/decompressors.hpp","src/formatters.hpp","src/types.hpp"],
 [("bounds checks","src/buffer.hpp MBUFFER::check/assert_check"),("subheader extents","src/page.hpp _get_page_subheader"),("decompressor bounds","src/decompressors.hpp DST_VALUES::assert_check, SRC_VALUES::check")],
 [], ["sanitizer reports","process termination","step count","exceptions"])

prop("C09", "Running out of memory is reported as bad_alloc with nothing lost or leaked",
 "If any single allocation or every allocation from some point on fails, at any point of constructing a reader, reading, or skipping, the call throws std::bad_alloc (or another exception derived from std::exception) and the process is not terminated. Rows delivered before the failure are correct, none is delivered twice or with wrong content afterwards, and destroying the reader releases every byte and every source, sink and filter it was given.",
 ["fault_sequences", "inputs", "histories"],
 "every position of a one-off or persistent allocation failure x every file x every call history",
 "No test makes an allocation fail.",
 ["src/memory.hpp","src/buffer.hpp","src/metadata.hpp","src/data.hpp","src/reader.cpp","src/reader-impl.hpp"],
 [("owning pointers and containers","src/memory.hpp PALIGNEDMEM, src/data.hpp PPAGE"),("exception propagation out of metadata decoding","src/metadata.hpp")],
 [], ["exceptions","outstanding allocations after destruction"])

prop("C10", "Exceptions from user callbacks reach the caller unchanged; no row is redelivered",
 "An exception thrown by the user's sink (set_properties, push_row, end_of_data), source or filter, at any call, propagates unchanged (same object type and content) to the caller of the reader operation that triggered it. After a sink exception the reader is still usable: the row that was being delivered is not delivered again, no other row is skipped or altered, and later calls continue with the next row. A constructor that fails this way releases everything it was given.",
 ["fault_sequences", "histories", "inputs"],
 "every callback and invocation number at which a user exception is thrown, any number of them x every file x every call history",
 "No test has a throwing sink, source or filter.",
 ["src/reader-impl.hpp","src/data.hpp","src/reader.cpp","src/metadata.hpp","include/cppsas7bdat/reader.hpp"],
 [("row consumed before delivery","src/reader-impl.hpp ReaderImpl::read_row"),("type-erased callbacks","include/cppsas7bdat/reader.hpp *Model")],
 [("current_row","advanced before the sink is called","src/data.hpp")],
 ["exceptions","sink history"])

prop("C11", "Readers are independent of each other under every thread interleaving",
 "Readers used concurrently, one thread per reader, over the same or different files, produce exactly the results they produce alone, under every interleaving of their steps. The same holds when readers are interleaved in one thread and when one is constructed, moved, fails or is destroyed while another is in the middle of a row. A column description or properties copy may be used from several threads, and keeps working after the reader it came from has moved on or been destroyed.",
 ["schedules", "histories", "inputs"],
 "every interleaving (at basic-block granularity of the library code) of 2 to 4 readers' call histories x every combination of files, including failing ones",
 "The tests are single-threaded with one reader at a time.",
 ["src/reader.cpp","src/reader-impl.hpp","src/data.hpp","src/decompressors.hpp","src/metadata.hpp","src/formatters.hpp","include/cppsas7bdat/column.hpp"],
 [("all state is per reader","src/reader-impl.hpp ReaderImpl::m_read_data"),("shared immutable column formatter","include/cppsas7bdat/column.hpp Column::pimpl")],
 [("decompression buffer","per reader","src/decompressors.hpp DST_VALUES::buf")],
 ["each reader's history versus its solo history"], None)

prop("C12", "Sources, sinks and filters are owned, kept alive and released exactly once",
 "A reader keeps the source and sink it was given alive as long as it lives, uses none of them after destroying them, and destroys each exactly once, when it is destroyed, assigned over or fails to construct; objects passed by reference are used in place, neither copied nor destroyed. Moving or swapping a reader at any point of its history transfers everything, including its position, and does not disturb the pending data. After all readers and column descriptions are gone nothing they allocated remains.",
 ["histories", "fault_sequences", "inputs"],
 "every history of constructions, moves, assignments, reads, failures and destructions",
 "The tests never count constructions/destructions, never move a reader in mid-file and never check for leaks.",
 ["include/cppsas7bdat/reader.hpp","src/reader.cpp","src/reader-impl.hpp","src/data.hpp","src/memory.hpp","include/cppsas7bdat/column.hpp"],
 [("type-erased ownership","include/cppsas7bdat/reader.hpp PSOURCE/PSINK/PFILTER"),("pimpl moves","src/reader.cpp"),("back pointers to the properties","src/reader-impl.hpp set_pheader/set_pmetadata")],
 [("header/metadata pointers","point into the owning reader","src/page.hpp, src/data.hpp")],
 ["instance counters","outstanding allocations"])

prop("C13", "What is delivered is a function of the file's bytes only",
 "Reading the same bytes with the same calls gives the same properties, rows, exceptions and return values every time: it does not depend on the previous content of memory, on other files read earlier in the process, on addresses or on the time. This holds for damaged and truncated files too: nothing that is not in the file leaks into a delivered row.",
 ["inputs", "histories", "configurations"],
 "every (possibly damaged) file x every call history x every initial content of allocated memory and every earlier use of the process",
 "The tests read each file once in a fresh buffer and cannot see a dependence on uninitialised or recycled memory.",
 ["src/buffer.hpp","src/decompressors.hpp","src/page.hpp","src/data.hpp","src/metadata.hpp"],
 [("buffers filled before use","src/buffer.hpp read_stream"),("row completed with zeros","src/decompressors.hpp DST_VALUES::fill")],
 [], ["history equality under different memory fill patterns and process histories"])

prop("C14", "CSV and print sinks write every row completely, or the failure is visible",
 "Reading a whole file into the csv or print sink writes the header and then one record per row in order, such that the values can be recovered: csv fields are separated by commas, character values and names are written in full between double quotes so that commas and line breaks in them survive (the README documents that no other protection is given), missing values are distinguishable and do not stop the output. When the output device fails (full disk, I/O error, after any number of bytes) what was written is a prefix of the complete output, and for the file-owning csv sink the failure surfaces as an exception from the reader before the read reports completion. The csv file sink keeps writing to its file after having been moved into a reader.",
 ["inputs", "fault_sequences", "histories"],
 "every file x every output failure position and short/interrupted write pattern x every call history",
 "No test runs the csv or print sinks.",
 ["include/cppsas7bdat/sink/csv.hpp","include/cppsas7bdat/sink/print.hpp","src/types.cpp","src/formatters.hpp"],
 [("csv records","include/cppsas7bdat/sink/csv.hpp"),("print records","include/cppsas7bdat/sink/print.hpp")],
 [("os","stream the sink writes to","include/cppsas7bdat/sink/csv.hpp csv::os")],
 ["bytes written","stream state","exceptions"])

prop("C15", "The command line tool spares its inputs and exits 0 only if all was written",
 "cppsas7bdat-ci never modifies, truncates or deletes a file it reads. It exits with status 0 only if every listed file was read to its end (or to the --nlines limit) and its output was completely written: print writes the properties and at most the requested number of rows of each file, in order, to standard output, csv writes each file's complete csv output to the file named after the input with the extension replaced by csv, and null reads everything and writes nothing. A missing or unreadable input, an input whose reading fails with an exception, a read error, an output that would overwrite an input, or a failing output gives a non-zero status.",
 ["inputs", "fault_sequences", "configurations"],
 "every list of inputs x every sub-command and --nlines value x every input/output failure position",
 "No test runs the command line tool.",
 ["apps/cppsas7bdat-ci.cpp","include/cppsas7bdat/sink/csv.hpp","include/cppsas7bdat/sink/print.hpp"],
 [("sub-commands","apps/cppsas7bdat-ci.cpp process_print/process_csv/process_null"),("csv file name","apps/cppsas7bdat-ci.cpp get_csv_filename")],
 [], ["simulated file system contents","exit status"])

prop("C16", "The Python module delivers the same rows, surviving errors and any object order",
 "Through the Python module, a sink receives for every file and call history the same properties, rows, row indices and values as the native reader: by-row sinks one call per row, chunk sinks chunks of consecutively read rows, at most the requested size, labelled with the first and last row index they contain, whole-data sinks all rows read, each row exactly once; rows still pending in a chunk are handed over when the end of the data is reached or asked for, or when the sink is flushed. The data frames of the ready-made sinks hold exactly the rows handed over. What a callback received does not change later. A missing value arrives as None or NaN. An exception raised in a Python callback, or by the reader, or running out of memory, surfaces as a Python exception from the call that caused it, and after it no row is handed out a second time; a read error is never taken for the end of the data. No order of creating, using, nesting and dropping readers, sinks and properties objects, no garbage collection and no repeated end of data crashes the interpreter, loses data, leaves an error pending or leaks the sink.",
 ["histories", "fault_sequences", "inputs"],
 "every file x every call history and sink kind x every callback exception x every read failure x every drop order",
 "The only Python test that runs reads the version string; pandas-based tests are not run.",
 ["python/pycppsas7bdat/cpp/sink.hpp","python/pycppsas7bdat/cpp/reader.cpp","python/pycppsas7bdat/cpp/import_datetime.cpp","python/pycppsas7bdat/sink.py","python/pycppsas7bdat/read_sas.py"],
 [("sink adapters","python/pycppsas7bdat/cpp/sink.hpp Sink, SinkChunk, SinkData"),("reader wrapper","python/pycppsas7bdat/cpp/reader.cpp"),("python sinks","python/pycppsas7bdat/sink.py")],
 [("_cpp","back reference from the Python sink to the native sink","python/pycppsas7bdat/cpp/sink.hpp set_cpp_attr")],
 ["calls received by the Python sink","exceptions","interpreter exit status"])

prop("C17", "The R package delivers the same rows to every kind of sink and survives errors",
 "Through the R package, a sink receives for every file and call history the same properties, rows, row indices and values as the native reader: by-row sinks one call per row, chunk sinks chunks of consecutively read rows, at most the requested size, whole-data sinks all rows read, each row exactly once with the index it has in the file; rows still pending in a chunk are handed over when the end of the data is reached or asked for. The data frames of the ready-made sinks hold exactly the rows handed over and only the selected columns. What a callback received does not change later, whatever is read or garbage collected. Missing values arrive as NA or NULL. An error raised in an R callback, or by the reader, or running out of memory, surfaces as an R error from the call that caused it, after it no row is handed out a second time, and the R process survives; a read error is never taken for the end of the data.",
 ["histories", "fault_sequences", "inputs"],
 "every file x every call history and sink kind x every callback error x every read failure",
 "The R tests that run cover the version string and the column filter only.",
 ["R/CPPSAS7BDAT/src/sink.hpp","R/CPPSAS7BDAT/src/sink_by_columns.hpp","R/CPPSAS7BDAT/src/sink_chunk.hpp","R/CPPSAS7BDAT/src/sink_data.hpp","R/CPPSAS7BDAT/src/reader.cpp","R/CPPSAS7BDAT/src/wrap_properties.hpp","R/CPPSAS7BDAT/R/sink.R"],
 [("sink adapters","R/CPPSAS7BDAT/src/sink*.hpp"),("reader wrapper","R/CPPSAS7BDAT/src/reader.cpp"),("R sinks","R/CPPSAS7BDAT/R/sink.R")],
 [("idata/istartrow","rows pending in the current chunk","R/CPPSAS7BDAT/src/sink_chunk.hpp")],
 ["calls received by the R sink","R conditions","process exit status"])

prop("C18", "The encoding byte of the header is named correctly",
 "For each of the 256 values of the header's encoding byte, the reported encoding is the name of that SAS encoding.",
 ["inputs"],
 "all 256 byte values",
 "A test samples the table; which name is right is a fact of the file format, not of this code's behaviour over time.",
 ["src/encodings.cpp"], [("lookup table","src/encodings.cpp get_encoding")])

prop("C19", "Text renderings of single values are canonical",
 "Rendering a date, datetime, time, number or enumeration value as text gives its canonical representation for every value.",
 ["inputs"],
 "all values of each type",
 "The tests render a few values.",
 ["src/types.cpp","src/formatters.hpp"], [("to_string overloads","src/types.cpp")])

prop("C20", "Reading is streaming: memory, work and read-ahead do not grow with the file",
 "Reading a data set is streaming. Opening a file takes memory in proportion to its metadata, not to its number of rows. From then on the memory a reader holds stays within a few pages and rows of what it held after opening, however many rows and pages have been read, skipped or refused by the sink. Pages are fetched as their rows are asked for: while a row is handed out, nothing behind the next page that holds rows has been read from the source. The work and the allocations of a call are in proportion to the rows and pages it covers, not to what was read before or lies ahead. The csv and print sinks hold no more than a few rows themselves.",
 ["inputs", "histories", "fault_sequences"],
 "every well-formed file, however long x every call history, including histories in which the sink fails again and again",
 "The tests look at results only, on files that are read once from start to end; a reader that keeps every page, rescans a page for every row or reads the whole file ahead passes them all.",
 ["src/page.hpp","src/data.hpp","src/buffer.hpp","src/metadata.hpp","src/reader-impl.hpp","src/decompressors.hpp","include/cppsas7bdat/sink/csv.hpp","include/cppsas7bdat/sink/print.hpp"],
 [("one page buffer, reused","src/buffer.hpp MBUFFER::read_stream, src/page.hpp READ_PAGE::read_page"),("one page descriptor at a time","src/data.hpp READ_DATA::read_next_page"),("one decompressed row","src/decompressors.hpp DST_VALUES")],
 [("page","iterator over the rows of the current page","src/data.hpp READ_DATA::page")],
 ["bytes allocated and held by the library","position of the source","control-flow edges executed"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
