"""Tables of data adapters: how the same thing is done directly with pandas / polars, and which option values to try."""
import dataclasses, datetime, os
import numpy as np
import pandas as pd
import polars as pl

ROWS = ["int", "float", "str", "bool", "date"]


def column(kind, vals):
    if kind == "int":
        return pd.Series([int(v) for v in vals], dtype="int64")
    if kind == "float":
        return pd.Series([[0.5, -1.25, float("nan"), 1234.5, 1e-7][v % 5] for v in vals], dtype="float64")
    if kind == "str":
        return pd.Series([["a", "b,c", 'q"t', "é", "x y", "NA", "#h", "1;2", ""][v % 9] for v in vals], dtype=object)
    if kind == "bool":
        return pd.Series([bool(v % 2) for v in vals], dtype=bool)
    return pd.Series([datetime.datetime(2020, 1, 1 + v % 28, v % 24) for v in vals], dtype="datetime64[ns]")


def frame(spec):
    """spec: {"cols": [[name, kind]], "rows": [ints], "index": None | list}"""
    d = {}
    for j, (n, k) in enumerate(spec["cols"]):
        d[n] = column(k, [r + j for r in spec["rows"]])
    df = pd.DataFrame(d)
    return df


# adapter key -> (path suffix, {writer option: values}, {reader option: values}); COLS stands for "the first column(s) of the frame"
PANDAS = {
    "csv": (".csv", {"sep": [",", ";", "\t"], "na_rep": ["", "NA", "-"], "float_format": ["%.2f"], "columns": ["COLS"], "header": [True, False], "index": [True, False], "index_label": ["idx"], "encoding": ["utf-8", "utf-16"], "compression": [None, "infer", "gzip"], "quoting": [0, 1, 2], "quotechar": ['"', "'"], "lineterminator": ["\n", "\r\n"], "chunksize": [1, 2], "date_format": ["%Y"], "doublequote": [True, False], "escapechar": ["\\"], "decimal": [".", ","], "mode": ["w"], "errors": ["strict"]},
            {"sep": [",", ";", "\t"], "header": ["infer", 0, None], "names": ["NAMES"], "index_col": [0, False], "usecols": ["COLS"], "dtype": ["str"], "engine": ["c", "python"], "true_values": [["yes", "b"]], "false_values": [["no", "a"]], "skipinitialspace": [True], "skiprows": [1, [1]], "skipfooter": [0, 1, 2], "nrows": [0, 1, 2], "na_values": [["a"], "x y"], "keep_default_na": [True, False], "na_filter": [True, False], "skip_blank_lines": [True, False], "parse_dates": [True, False], "date_format": ["%Y-%m-%d %H:%M:%S"], "dayfirst": [True], "thousands": [","], "decimal": [".", ","], "lineterminator": ["\n"], "quotechar": ['"', "'"], "quoting": [0, 1, 3], "doublequote": [True, False], "escapechar": ["\\"], "comment": ["#"], "encoding": ["utf-8", "utf-16", "latin-1"], "encoding_errors": ["strict", "replace"], "on_bad_lines": ["error", "skip"], "low_memory": [True, False], "memory_map": [True, False], "float_precision": ["high", "round_trip"], "dtype_backend": ["pyarrow", "numpy_nullable"], "compression": [None, "infer", "gzip"], "cache_dates": [True, False]}),
    "parquet": (".parquet", {"engine": ["auto", "pyarrow"], "compression": ["snappy", "gzip"], "index": [True, False]}, {"columns": ["COLS"], "dtype_backend": ["numpy_nullable", "pyarrow"], "filters": ["FILTER"], "engine": ["pyarrow"]}),
    "pickle": (".pkl", {"compression": [None, "infer", "gzip"], "protocol": [2, 4, 5]}, {"compression": ["infer", "gzip"]}),
    "json": (".json", {"date_format": ["epoch", "iso"], "date_unit": ["s", "ms", "us"], "double_precision": [3, 10, 15], "force_ascii": [True, False], "index": [True, False], "indent": [0, 2], "lines": [True, False], "orient": ["records", "split", "columns", "index", "values", "table"], "compression": ["infer", "gzip"]},
             {"orient": ["records", "split", "columns", "index", "values"], "convert_axes": [True, False], "convert_dates": [True, False], "date_unit": ["s", "ms"], "dtype": [True, False], "dtype_backend": ["numpy_nullable", "pyarrow"], "lines": [True, False], "nrows": [1], "precise_float": [True], "keep_default_dates": [True, False], "encoding": ["utf-8"], "compression": ["infer", "gzip"], "typ": ["frame"]}),
    "xml": (".xml", {"index": [True, False], "root_name": ["data", "root"], "row_name": ["row", "r"], "na_rep": ["-"], "encoding": ["utf-8", "utf-16"], "xml_declaration": [True, False], "pretty_print": [True, False], "parser": ["lxml", "etree"], "compression": ["infer", "gzip"], "attr_cols": ["COLS"]},
            {"xpath": ["./*", "./r"], "elems_only": [True, False], "names": ["NAMES"], "dtype_backend": ["numpy_nullable", "pyarrow"], "encoding": ["utf-8", "utf-16"], "parser": ["lxml", "etree"], "compression": ["infer", "gzip"]}),
    "stata": (".dta", {"write_index": [True, False], "version": [114, 117, 118], "data_label": ["lbl"], "byteorder": ["<", ">"], "compression": ["infer", "gzip"]},
              {"index_col": ["COL0"], "convert_missing": [True, False], "preserve_dtypes": [True, False], "columns": ["COLS"], "convert_dates": [True, False], "compression": ["infer", "gzip"]}),
    "feather": (".feather", {"compression": ["zstd", "lz4", "uncompressed"], "chunksize": [1, 100]}, {"columns": ["COLS"], "use_threads": [True, False], "dtype_backend": ["numpy_nullable", "pyarrow"]}),
    "orc": (".orc", {"engine": ["pyarrow"], "index": [True, False]}, {"columns": ["COLS"], "dtype_backend": ["numpy_nullable", "pyarrow"]}),
    "excel": (".xlsx", {"sheet_name": ["Sheet1", "other"], "na_rep": ["", "-"], "float_format": ["%.2f"], "columns": ["COLS"], "header": [True, False], "index": [True, False], "index_label": ["idx"], "startrow": [0, 2], "startcol": [0, 1], "engine": ["openpyxl", "xlsxwriter"], "inf_rep": ["inf"], "freeze_panes": [(1, 1)], "merge_cells": [True, False]},
              {"sheet_name": [0, "Sheet1", "other"], "header": [0, None, 1], "names": ["NAMES"], "index_col": [0, None], "usecols": [[0]], "skiprows": [1], "nrows": [1, 2], "keep_default_na": [True, False], "na_filter": [True, False], "skipfooter": [0, 1], "dtype_backend": ["numpy_nullable", "pyarrow"], "comment": ["#"], "thousands": [","], "decimal": [".", ","], "dtype": ["STRCOL"], "true_values": [["a"]], "false_values": [["x y"]], "engine": ["openpyxl"], "verbose": [False]}),
    "html": (".html", {"columns": ["COLS"], "header": [True, False], "index": [True, False], "na_rep": ["NaN", "-"], "float_format": [None], "max_rows": [2], "max_cols": [1], "show_dimensions": [True], "decimal": [".", ","], "bold_rows": [True, False], "classes": ["cls"], "escape": [True, False], "border": [0, 3], "table_id": ["tid"], "render_links": [True], "justify": ["left"], "col_space": [20], "sparsify": [True, False], "index_names": [True, False], "notebook": [True, False], "encoding": ["utf-8"]}, None),
}
NOT_PASSED = {"use_nullable_dtypes"}
PATHFIELD = {("csv", "w"): "path", ("csv", "r"): "path", ("pickle", "r"): "path", ("json", "w"): "filepath_or_buffer", ("json", "r"): "filepath_or_buffer", ("xml", "w"): "path_or_buffer", ("xml", "r"): "path_or_buffer",
             ("stata", "r"): "filepath_or_buffer", ("html", "w"): "buf", ("table", "r"): "filepath_or_buffer", ("fwf", "r"): "filepath_or_buffer"}
# declared options of readers of text written by to_csv
TABLE_OPTS = {k: v for k, v in PANDAS["csv"][2].items() if k not in ("header",)}
TABLE_OPTS["sep"] = ["\t", ",", ";"]
TABLE_OPTS["header"] = ["infer", 0, None]
PANDAS["table"] = (".tsv", None, TABLE_OPTS)
PANDAS["fwf"] = (".txt", None, {"colspecs": ["infer", [(0, 3), (3, 6)]], "widths": [[2, 3, 4]], "infer_nrows": [1, 100], "dtype_backend": ["numpy_nullable", "pyarrow"]})

POLARS = {
    "csv": (".csv", {"include_header": [True, False], "separator": [",", ";"], "line_terminator": ["\n"], "quote_char": ['"', "'"], "batch_size": [1, 1024], "datetime_format": ["%Y"], "float_precision": [2], "null_value": ["NA"], "quote_style": ["always", "necessary"]},
            {"has_header": [True, False], "columns": ["COLS"], "separator": [",", ";"], "quote_char": ['"', "'"], "skip_rows": [0, 1], "null_values": ["NA"], "missing_utf8_is_empty_string": [True, False], "ignore_errors": [True, False], "try_parse_dates": [True, False], "infer_schema_length": [1, 100], "n_rows": [0, 1], "encoding": ["utf8", "utf8-lossy"], "low_memory": [True, False], "rechunk": [True, False], "skip_rows_after_header": [0, 1], "new_columns": ["NAMES"], "raise_if_empty": [True, False], "comment_char": ["#"], "row_count_name": ["rn"], "row_count_offset": [0, 3], "batch_size": [1, 100], "eol_char": ["\n"], "dtypes": ["PLSTR"]}),
    "parquet": (".parquet", {"compression": ["zstd", "snappy", "uncompressed", None, None], "compression_level": [3], "statistics": [True, False], "row_group_size": [1, 100], "use_pyarrow": [True, False]}, {"columns": ["COLS"], "n_rows": [0, 1], "use_pyarrow": [True, False], "parallel": ["auto", "none"], "low_memory": [True, False], "rechunk": [True, False], "use_statistics": [True, False], "row_count_name": ["rn"], "row_count_offset": [0, 3], "memory_map": [True, False]}),
    "feather": (".feather", {"compression": ["uncompressed", "lz4", "zstd"]}, {"columns": ["COLS"], "n_rows": [1], "use_pyarrow": [True, False], "memory_map": [True, False], "rechunk": [True, False], "row_count_name": ["rn"], "row_count_offset": [0, 3]}),
    "avro": (".avro", {"compression": ["uncompressed", "snappy", "deflate"]}, {"columns": ["COLS"], "n_rows": [1]}),
    "json": (".json", {}, {"schema_overrides": ["PLSTR"]}),
}
PL_PATH = {("csv", "w"): "file", ("csv", "r"): "file", ("parquet", "w"): "file", ("parquet", "r"): "file", ("feather", "w"): "file", ("feather", "r"): "source", ("avro", "w"): "file", ("avro", "r"): "file", ("json", "w"): "file", ("json", "r"): "source"}
PL_NOT_PASSED = {"include_header", "sample_size"}


def path_field(lib, key, side):
    return PATHFIELD.get((key, side), "path") if lib == "pandas" else PL_PATH[(key, side)]


def declared_defaults(cls):
    return {f.name: f.default for f in dataclasses.fields(cls) if f.default is not dataclasses.MISSING and f.default is not None}


def direct_write(lib, key, df, path, kw):
    if lib == "pandas":
        if key == "excel":
            return df.to_excel(path, **{k: v for k, v in kw.items() if k not in ("mode",)})
        return getattr(df, "to_" + key)(path, **kw)
    fn = {"feather": "write_ipc"}.get(key, "write_" + key)
    return getattr(df, fn)(path, **kw)


def direct_read(lib, key, path, kw):
    if lib == "pandas":
        return getattr(pd, "read_" + key)(path, **kw)
    fn = {"feather": "read_ipc"}.get(key, "read_" + key)
    return getattr(pl, fn)(path, **kw)


def opt_value(v, names):
    if v == "COLS":
        return names[:1]
    if v == "COL0":
        return names[0]
    if v == "NAMES":
        return ["n%d" % i for i in range(len(names))]
    if v == "PLSTR":
        return {names[0]: pl.String}
    if v == "STRCOL":
        return {names[0]: "str"}
    if v == "FILTER":
        return [(names[0], "==", 1)]
    return v


def same_frame(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_frame(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        try:
            pd.testing.assert_frame_equal(a, b, check_exact=True)
            return True
        except AssertionError:
            return False
    if isinstance(a, pl.DataFrame) and isinstance(b, pl.DataFrame):
        return a.schema == b.schema and a.equals(b, null_equal=True)
    return type(a) is type(b) and a == b
