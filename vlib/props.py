"""Per property: proof units, native differential, evidence texts."""

SAS = "a seeded writer produces complete SAS7BDAT files (endianness, word size, page kinds, compression, columns, subheader splits all random) together with the expected outcome computed independently; the real reader runs on them under the address and undefined behaviour sanitizers"

WALK = [("walk", "proof_line_" + x) for x in ("MIX_le64", "MIX_be32", "DATA_le64", "DATA_be32", "DATA_le32", "DATA_be64", "META_le64", "META_be32", "NOPAGE_le64", "NOPAGE_be32")]
LIST = [("pagelist", "proof_list_" + x) for x in ("be32", "be64", "le32", "le64")]
START = [("walk", "proof_start_" + x) for x in ("rows", "le64", "be32")]

META = [("meta", "proof_" + x) for x in ("dispatch64", "attributes_le64", "dispatch32", "attributes_be32", "row_size_le64", "row_size_le32", "row_size_be64", "row_size_be32",
                                          "column_size_le64", "column_size_be32", "each_le64", "each_be32", "pages")]
TEXTS = [("columns", "proof_text_" + x) for x in ("part_cut", "part", "first_le64", "first_be32", "other_le64", "part_gone")]
COLUMNS = [("names", "proof_" + x) for x in ("names_le64", "names_be32", "format_label_le64", "format_label_be32")] + \
          [("create", "proof_columns_" + x) for x in ("le64", "be32", "filter")]
FORMATS = [("formats", "proof_format_%s" % n) for n in list(range(11)) + ["long"]]
# every function a file's bytes reach before they become cells: each access inside its buffer,
# every loop with a decreasing measure
SAFE = [("decomp", "proof_" + x) for x in ("rdc_le64", "rdc_be32", "rle_le64", "rle_be32")] + TEXTS + WALK + META + LIST + START + COLUMNS + \
       [("header", "proof_" + x) for x in ("check_header", "read_header_le64", "read_header_le32", "read_header_be64", "read_header_be32", "header_dispatch")] + \
       [("numeric", p) for p in ("proof_small_integer", "proof_int16_le", "proof_int16_be", "proof_double_le", "proof_double_be")] + \
       [("strings", "proof_cell_text"), ("strings", "proof_header_text"), ("datecells", "proof_cells_le"), ("datecells", "proof_cells_be"),
        ("dates", "proof_datetime"), ("dates", "proof_date"), ("dates", "proof_time"), ("walk", "proof_skip"), ("encoding", "proof_encoding")] + \
       [("protocol", p) for p in ("proof_read_row", "proof_read_row_no_sink", "proof_skip_rows", "proof_read_rows", "proof_read_all", "proof_end_of_data", "proof_empty_reader")]

PROPS = {
    "C01": dict(level="proof", count=12000, rule=SAS + "; non-trivial: rows stored RLE compressed", budget=330,
                proofs=[("decomp", "proof_rle_le64"), ("decomp", "proof_rle_be32")]),
    "C02": dict(level="proof", count=12000, rule=SAS + "; non-trivial: rows stored RDC compressed", budget=330,
                proofs=[("decomp", "proof_rdc_le64"), ("decomp", "proof_rdc_be32")]),
    "C03": dict(level="proof", count=8000, rule=SAS + "; non-trivial: numeric cells compared",
                proofs=[("numeric", p) for p in ("proof_small_integer", "proof_int16_le", "proof_int16_be", "proof_double_le", "proof_double_be")]),
    "C04": dict(level="proof", count=8000, rule=SAS + "; non-trivial: text cells compared",
                proofs=[("strings", "proof_cell_text"), ("strings", "proof_header_text")]),
    "C05": dict(level="proof", count=8000, rule=SAS + "; non-trivial: rows compared", budget=250, proofs=WALK + LIST + START),
    "C06": dict(level="proof", count=8000, rule=SAS + " under random sequences of reader calls; non-trivial: reader calls", budget=250,
                proofs=[("protocol", p) for p in ("proof_read_row", "proof_read_row_no_sink", "proof_skip_rows", "proof_read_rows", "proof_read_all",
                                                  "proof_end_of_data", "proof_empty_reader")] + [("walk", "proof_skip")] + WALK),
    "C07": dict(level="proof", count=8000, rule=SAS + "; non-trivial: headers compared",
                proofs=[("header", p) for p in ("proof_check_header", "proof_read_header_le64", "proof_read_header_le32", "proof_read_header_be64",
                                                "proof_read_header_be32", "proof_header_dispatch")] +
                       [("encoding", "proof_encoding"), ("strings", "proof_header_text"), ("dates", "proof_datetime")]),
    "C08": dict(level="proof", count=8000, rule=SAS + "; non-trivial: columns compared", budget=330, proofs=TEXTS + META + COLUMNS + FORMATS),
    "C09": dict(level="proof", count=8000, rule=SAS + " with random filters; non-trivial: columns kept",
                proofs=[("filters", "proof_" + x) for x in ("include", "exclude", "include_exclude", "split_one")] + [("split", "proof_split"), ("create", "proof_columns_filter"), ("create", "proof_columns_le64")]),
    "C10": dict(level="proof", count=8000, rule=SAS + "; non-trivial: date, time and datetime cells compared",
                proofs=[("dates", p) for p in ("proof_datetime", "proof_whole_seconds", "proof_date", "proof_time")] +
                       [("datecells", p) for p in ("proof_cells_le", "proof_cells_be")]),
    "C11": dict(level="proof", count=24000, rule=SAS + "; the files are then damaged (fields, pages, truncation); non-trivial: damaged files read to the end or to a reported error", budget=330,
                proofs=SAFE),
    "C12": dict(level="exploration", count=8000, rule=SAS + " through the CSV sink; non-trivial: cells rendered"),
    "C13": dict(level="exploration", count=8000, rule=SAS + " through the print sink; non-trivial: cells rendered"),
    "C14": dict(level="exploration", count=8000, rule=SAS + ", then made unreadable (missing, foreign, truncated, failing source); non-trivial: failures that must be reported"),
    "C15": dict(level="exploration", count=120, native="cli", rule="random file names (extensions, dots in directories, none, .csv), random lists of generated files, converted by the real command line tool in a scratch directory; non-trivial: files converted and compared"),
    "C16": dict(level="exploration", count=1500, native="python", rule="random sinks (row, chunk, whole), chunk sizes, sequences of reader calls and column filters on generated files through the real Python module; non-trivial: events compared"),
    "C17": dict(level="exploration", count=1500, native="r", rule="random sinks (row, chunk, whole), chunk sizes, sequences of reader calls and column filters on generated files through the real R module; non-trivial: events compared"),
    "C18": dict(level="proof", count=1600, rule="random and boundary dates, times and datetimes through to_string; non-trivial: values rendered and compared",
                proofs=[("text", p) for p in ("proof_date_text", "proof_time_text", "proof_negative_time_text", "proof_datetime_text", "proof_special_text")]),
}
for p in PROPS.values():
    if not p.get("proofs") and p["level"] == "proof":
        p["level"] = "exploration"
